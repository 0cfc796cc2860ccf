import vf  # noqa: F401  (puts the tools on the path, also in sub-pools)

"""Hides torch: importing it takes most of the start of a sub-process."""
import sys


class _Finder:
    def __init__(self, inner):
        self.inner = inner

    def find_spec(self, name, *a, **kw):
        if name.split(".")[0] == "torch":
            return None
        return self.inner.find_spec(name, *a, **kw)

    def __getattr__(self, name):
        return getattr(self.inner, name)


sys.meta_path[:] = [_Finder(x) if getattr(x, "__name__", "") == "PathFinder" else x for x in sys.meta_path]

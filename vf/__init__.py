"""Property-based testing framework for xoscar (see DESIGN.md)."""
import os
import sys

# hypothesis lives in the tooling venv; it goes to the very end of sys.path so
# that every package the runtime venv has (numpy, pandas, xoscar...) wins.
_TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _TOOLS not in sys.path:
    sys.path.append(_TOOLS)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
REPO_PY = os.path.join(REPO, "python")

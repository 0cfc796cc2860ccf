"""Imports what pools import when they start: on a cold disk this takes long,
and it must not count as time of the first case."""
import contextlib
import importlib

for name in ("numpy", "pandas", "scipy.sparse", "torch", "cloudpickle", "psutil"):
    with contextlib.suppress(Exception):
        importlib.import_module(name)

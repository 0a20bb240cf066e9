"""Interpreter set-up shared by every worker.

* pymap3d is always loaded from the source tree in /repo/src, compiled from
  source (a stale .pyc can never be what is judged, nothing is written there);
* hypothesis, sortedcontainers, attr and mpmath are resolved from the tooling
  venv by name only, so a worker running in the numpy-free interpreter does not
  see the tooling venv's numpy.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

SRC = os.environ.get("VERIF_SRC", "/repo/src")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
ALLOWED = ("hypothesis", "_hypothesis", "sortedcontainers", "attr", "attrs", "mpmath")


class _FreshLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile(self.get_data(path), path, "exec", dont_inherit=True)


class _Pymap3dFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "pymap3d" and not name.startswith("pymap3d."):
            return None
        base = os.path.join(SRC, *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                name, f, loader=_FreshLoader(name, f), submodule_search_locations=[base]
            )
        if os.path.isfile(base + ".py"):
            f = base + ".py"
            return importlib.util.spec_from_file_location(name, f, loader=_FreshLoader(name, f))
        return None


class _ToolsFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if path is None and (top in ALLOWED or top.startswith("_hypothesis")):
            return importlib.machinery.PathFinder.find_spec(name, [TOOLS])
        return None


def install():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Pymap3dFinder())
    sys.meta_path.append(_ToolsFinder())
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")

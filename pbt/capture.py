"""Wrapping functions of the package wherever its modules imported them (harness side only)."""
from . import boot  # noqa: F401
import dfols
import dfols.util, dfols.model, dfols.controller, dfols.solver, dfols.trust_region  # noqa: F401,E401

MODULES = [getattr(dfols, m) for m in ('util', 'trust_region', 'model', 'controller', 'solver') if hasattr(dfols, m)]


class Capture(object):
    """with Capture(home_module_name, func_name, wrapper): every module of the package that refers to the function by
    that object sees wrapper(orig, args, kwargs) instead.  Absent functions are ignored (nothing is captured)."""

    def __init__(self, home, name, wrapper, skip_home=False):
        self.home, self.name, self.wrapper, self.skip_home = home, name, wrapper, skip_home
        self.patched = []

    def __enter__(self):
        home = getattr(dfols, self.home, None)
        orig = getattr(home, self.name, None)
        if orig is None:
            return self
        wrapper = self.wrapper

        def wrapped(*a, **k):
            return wrapper(orig, a, k)
        for m in MODULES:
            if m is home and self.skip_home:
                continue
            if getattr(m, self.name, None) is orig:
                self.patched.append((m, orig))
                setattr(m, self.name, wrapped)
        return self

    def __exit__(self, *a):
        for m, o in self.patched:
            setattr(m, self.name, o)
        return False

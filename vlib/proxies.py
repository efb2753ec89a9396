from . import npx, stx  # noqa: F401
from .loader import register_proxy
import types

PLT = types.ModuleType("matplotlib.pyplot")
PLT._current = None


def _gca(*a, **k):
    return PLT._current


PLT.gca = _gca


def _pl_unsupported(name):
    from .npx import unsupported
    return unsupported("matplotlib.pyplot." + name)


PLT.__getattr__ = _pl_unsupported
register_proxy("matplotlib.pyplot", PLT)

MPL = types.ModuleType("matplotlib")
MPL.pyplot = PLT


def _mpl(name):
    import matplotlib
    return getattr(matplotlib, name)


MPL.__getattr__ = _mpl
register_proxy("matplotlib", MPL)

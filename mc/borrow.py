"""Pages of all the checks that judge single pages (C09-C11, C13-C16, C18, C19, C22), for checks that hold for every page."""
import importlib

MODULES = ['c09', 'c10', 'c11', 'c13', 'c14', 'c15', 'c16', 'c18', 'c22']
_F = {}


def _families():
    if not _F:
        from .pages import PageFamily
        for m in MODULES:
            for f in importlib.import_module(f'mc.props.{m}').families():
                if isinstance(f, PageFamily):
                    _F[m, f.name] = f
    return _F


def page(ref):
    """page description of [module, family, scenario]"""
    m, name, scn = ref
    return _families()[m, name].page(scn)


def refs(n, shift=0, most=False):
    """n pages of each family, spread evenly over its quick scenarios"""
    for (m, name), f in _families().items():
        try:
            all_ = [s for s in f.scenarios('quick') if not f.settings(s)]
        except Exception:
            continue
        if all_:
            k = max(1, len(all_) // n)
            for s in all_[shift % k::k][:n]:
                yield [m, name, s]

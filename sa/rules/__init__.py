from . import avail, upgrade, core, core2, core3, drop, events, iface, peri, pool, sdk

REGISTRY = {}
for _m in (avail, upgrade, events, core, core2, core3, drop, peri, pool, iface, sdk):
    for _n in dir(_m):
        if len(_n) == 3 and _n[0] in "capmi" and _n[1:].isdigit() and getattr(_m, _n).__module__ == _m.__name__:
            REGISTRY[_n.upper()] = getattr(_m, _n)

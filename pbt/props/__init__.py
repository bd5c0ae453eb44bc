from . import encoding, programs, relations, robust, tool

REGISTRY = {}
for _m in (encoding, programs, relations, robust, tool):
    for _n, _c in vars(_m).items():
        if len(_n) == 3 and _n[0] == 'C' and _n[1:].isdigit():
            REGISTRY[_n] = _c
REGISTRY = dict(sorted(REGISTRY.items()))

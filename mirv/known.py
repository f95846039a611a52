"""Opaque callees seen (and accepted as arbitrary-result functions) on the reference tree. A path through any other
opaque function cannot refute an obligation - only leave it undecided."""
import json, os
_p = os.path.join(os.path.dirname(__file__), 'known_externals.json')
_k = None
LEARN = None


def known(callee):
    global _k
    if LEARN is not None:
        LEARN.add(callee['path'])
        return True
    if _k is None:
        try:
            _k = set(json.load(open(_p)))
        except Exception:
            _k = None
            return True
    return callee['path'] in _k


_lp = os.path.join(os.path.dirname(__file__), 'known_loops.json')
_l = None


def loops(prop, cname):
    """number of loops met under this contract on the reference tree"""
    global _l
    if _l is None:
        try:
            _l = json.load(open(_lp))
        except Exception:
            _l = {}
    return _l.get(prop, {}).get(cname)

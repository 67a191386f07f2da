"""Retargeting references (C14, C15)."""
from pyvc.api import *
from pyvc.core import *
from contracts.base import *

ANYS = lst('any')
REFMAP = dct('ref', 'any')


@spec(['any', REFMAP], 'any')
def retargeted(v, m):
    """A value with every reference in it replaced as the map says, at any depth, in stream dictionaries too."""
    if type(v) == complex:
        return m[as_ref(v)] if as_ref(v) in m else v
    if type(v) == Stream:
        s = as_stream(v)
        return Stream(retargeted_dict(s['entries'], m, nkeys(s['entries'])), s['stream'], s['encoded'])
    if type(v) == dict:
        return retargeted_dict(as_dict(v), m, nkeys(as_dict(v)))
    if type(v) == list:
        return retargeted_list(as_list(v), m, len(as_list(v)))
    return v


@spec([ANYS, REFMAP, 'int'], ANYS)
def retargeted_list(xs, m, n):
    """The first n elements replaced."""
    if n <= 0:
        return []
    return retargeted_list(xs, m, n - 1) + [retargeted(xs[n - 1], m)]


@spec([DICT, REFMAP, 'int'], DICT)
def retargeted_dict(d, m, n):
    """The values of the first n keys replaced."""
    if n <= 0:
        return d
    k = key_at(d, n - 1)
    return {**retargeted_dict(d, m, n - 1), k: retargeted(d[k], m)}


@lemma({'d': DICT, 'm': REFMAP, 'n': 'int', 'k': 'str'}, props=['C14', 'C15'])
class retargeted_at:
    """Same keys; the value of each of the first n keys is replaced, the others are as before."""
    def requires(d, n):
        return 0 <= n and n <= nkeys(d)

    def ensures(d, m, n, k):
        r = retargeted_dict(d, m, n)
        return {'keys': iff(k in r, k in d),
                'value': implies(k in d, r[k] == (retargeted(d[k], m) if key_pos(d, k) < n else d[k]))}

    def measure(n):
        return n

    def hints(d, m, n, k):
        return {'ih': implies(n > 0, ih(d, m, n - 1, k)),
                'pos': implies(n > 0, key_pos(d, key_at(d, n - 1)) == n - 1)}


@lemma({'xs': ANYS, 'm': REFMAP, 'n': 'int', 'i': 'int'}, props=['C14', 'C15'])
class retargeted_item:
    def requires(xs, n, i):
        return 0 <= i and i < n and n <= len(xs)

    def ensures(xs, m, n, i):
        r = retargeted_list(xs, m, n)
        return len(r) == n and r[i] == retargeted(xs[i], m)

    def measure(n):
        return n

    def hints(xs, m, n, i):
        return {'ih': implies(i < n - 1, ih(xs, m, n - 1, i)), 'ih0': implies(n > 1, ih(xs, m, n - 1, 0))}


@contract('objects.deep_ref_retarget', {'obj': 'any', 'mapping': REFMAP}, 'any', props=['C14', 'C15'], raises='no',
          same='obj')
class deep_ref_retarget_c:
    """Every reference in the object is replaced as the map says, in place."""
    def ensures(obj, obj_0, mapping, result):
        return {'result': result == retargeted(obj_0, mapping),
                'in-place': implies(type(obj_0) == dict or type(obj_0) == list or type(obj_0) == Stream, obj == result)}

    def _inv1(obj, obj_0, mapping, _k):
        d = as_dict(obj_0)
        k = key_at(d, _k)
        return {'kind': type(obj) == dict and type(obj_0) == dict,
                'done': as_dict(obj) == retargeted_dict(d, mapping, _k),
                'next': implies(_k < nkeys(d), k in as_dict(obj) and as_dict(obj)[k] == d[k])}

    def _hints1(obj_0, mapping, _k):
        d = as_dict(obj_0)
        return retargeted_at(d, mapping, _k, key_at(d, _k))

    def _inv2(obj, obj_0, mapping, _k, _n):
        xs, ys = as_list(obj_0), as_list(obj)
        return {'kind': type(obj) == list and type(obj_0) == list and len(ys) == len(xs) and _n == len(xs),
                'done': ys[:_k] == retargeted_list(xs, mapping, _k),
                'rest': ys[_k:] == xs[_k:],
                'next': implies(_k < _n, ys[_k] == xs[_k])}

    def _hints2(obj, obj_0, obj_pre1, mapping, _k, _n):
        xs, ys, zs = as_list(obj_0), as_list(obj), as_list(obj_pre1)
        return {'new': ys[_k - 1] == retargeted(xs[_k - 1], mapping),
                'before': ys[:_k - 1] == zs[:_k - 1], 'upto': ys[:_k] == zs[:_k - 1] + [ys[_k - 1]],
                'after': ys[_k:] == zs[_k:], 'old': zs[_k:] == zs[_k - 1:][1:], 'old2': xs[_k:] == xs[_k - 1:][1:],
                'at': implies(_k < _n, ys[_k:][0] == ys[_k] and xs[_k:][0] == xs[_k])}
    loops = {0: Loop(_inv1, hints=_hints1), 1: Loop(_inv2, hints=_hints2)}


@spec(['any', 'ref'], 'bool')
def mentions(v, g):
    """A reference occurs in a value, at any depth, in stream dictionaries too."""
    if type(v) == complex:
        return as_ref(v) == g
    if type(v) == Stream:
        s = as_stream(v)
        return mentions_dict(s['entries'], g, nkeys(s['entries']))
    if type(v) == dict:
        return mentions_dict(as_dict(v), g, nkeys(as_dict(v)))
    if type(v) == list:
        return mentions_list(as_list(v), g, len(as_list(v)))
    return False


@spec([ANYS, 'ref', 'int'], 'bool')
def mentions_list(xs, g, n):
    if n <= 0:
        return False
    return mentions_list(xs, g, n - 1) or mentions(xs[n - 1], g)


@spec([DICT, 'ref', 'int'], 'bool')
def mentions_dict(d, g, n):
    if n <= 0:
        return False
    return mentions_dict(d, g, n - 1) or mentions(d[key_at(d, n - 1)], g)


@contract('objects.deep_ref_detect', {'obj': 'any', 'l': ('set', 'ref')}, ('set', 'ref'), props=['C13', 'C14', 'C15'],
          raises='no', same='l', ghosts={'g': 'ref'})
class deep_ref_detect_c:
    """Adds exactly the references that occur in the object."""
    def ensures(obj, l, l_0, g, result):
        return {'found': iff(g in result, g in l_0 or mentions(obj, g)), 'same': result == l}

    def _inv1(obj, l, l_0, g, _k):
        return type(obj) == dict and iff(g in l, g in l_0 or mentions_dict(as_dict(obj), g, _k))

    def _inv2(obj, l, l_0, g, _k, _n):
        return type(obj) == list and _n == len(as_list(obj)) and \
            iff(g in l, g in l_0 or mentions_list(as_list(obj), g, _k))
    loops = {0: Loop(_inv1), 1: Loop(_inv2)}

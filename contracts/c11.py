"""Reading objects: the latest state, however it was read before (C11)."""
from pyvc.api import *
from pyvc.core import *
from contracts.base import *
from contracts.fdata import *
from contracts.c01tok import tok_begin, tok_end
from contracts.doc import Doc, entry_ok

ANYS = lst('any')
EMB = lst(tup('int', 'any', 'int', opt('int'), 'int'))


def _ax_emb(x, c, r):
    return forall(0, len(r), lambda i: r[i][0] >= 0)


@spec(['any', 'int'], EMB, opaque=True, axioms=_ax_emb)
def embedded_in(x, c):
    """The objects of an object stream."""
    from pdfsyntax.objects import parse_object_stream
    return parse_object_stream(x, c)[3]


@trusted('objects.parse_object_stream', {'obj_stream': 'any', 'env_num': 'int'}, tup('none', 'none', 'str', EMB),
         raises='any')
class parse_object_stream_c:
    def ensures(obj_stream, env_num, result):
        return result[3] == embedded_in(obj_stream, env_num)
    why = 'the list of the objects in an object stream is a function of the stream'


@spec(['fdata', 'any'], 'any')
def at_place(f, e):
    """The object written at a place of the file: what follows 'n g obj'."""
    d = as_dict(e)
    p = as_int(d['abs_pos'])
    n = as_int(d['abs_next']) - p
    b = fd_buf(f, p, n)
    return parsed(b, tok_begin(b, tok_end(b, tok_end(b, tok_end(b, fd_at(f, p, n))))))


@spec([EMB, 'int', 'int'], 'any')
def pick(xs, n, k):
    """Object number n among the first k ones of an object stream."""
    if k <= 0:
        return None
    p = pick(xs, n, k - 1)
    return p if p is not None or xs[k - 1][0] != n else xs[k - 1][1]


@spec([ANYS, 'fdata', 'int'], 'any')
def stored(cur, f, n):
    """The object that the file holds for number n, plainly or inside an object stream."""
    d = as_dict(cur[n])
    if 'env_num' not in d:
        return at_place(f, cur[n])
    c = as_int(d['env_num'])
    xs = embedded_in(at_place(f, cur[c]), c)
    return pick(xs, n, len(xs))


@spec([ANYS, 'int'], 'bool', inline=True)
def live(cur, n):
    return 0 <= n and n < len(cur) and cur[n] is not None and 'DELETED' not in as_dict(cur[n])


@spec([ANYS, 'int'], 'any', inline=True)
def kept(cache, n):
    return cache[n] if 0 <= n and n < len(cache) else None


@spec([ANYS, ANYS, 'fdata', 'int'], 'any')
def value(cur, cache, f, n):
    """The state of object n: missing when deleted, what was written last, or what the file holds."""
    if not live(cur, n):
        return None
    return kept(cache, n) if kept(cache, n) is not None else stored(cur, f, n)


@spec(['any'], 'bool', inline=True)
def plain_ok(e):
    """A place in the file."""
    d = as_dict(e)
    return type(e) == dict and 'env_num' not in d and 'abs_pos' in d and 'abs_next' in d and \
        type(d['abs_pos']) == int and type(d['abs_next']) == int and as_int(d['abs_pos']) <= as_int(d['abs_next'])


@spec([ANYS, 'int'], 'bool', inline=True)
def place_ok(cur, n):
    """Where the file holds object n: a place, or an object stream that has one."""
    d = as_dict(cur[n])
    c = as_int(d['env_num'])
    return plain_ok(cur[n]) or ('env_num' in d and type(d['env_num']) == int and 1 <= c and c < len(cur)
                                and plain_ok(cur[c]))



@lemma({'xs': ANYS, 'k': 'int', 'x': 'any', 'g': 'int'}, props=['C11'])
class slot_set:
    """Setting a slot leaves the others."""
    def requires(xs, k, x, g):
        return 0 <= k and k < len(xs) and g != k

    def ensures(xs, k, x, g):
        return kept(xs[:k] + [x] + xs[k + 1:], g) == kept(xs, g)

    def hints(xs, k, x, g):
        a = xs[:k]
        b = xs[k + 1:]
        ys = a + [x] + b
        return {'len': len(ys) == len(xs) and len(a) == k and len(b) == len(xs) - k - 1,
                'before': implies(0 <= g and g < k, ys[g] == a[g] and a[g] == xs[g]),
                'after': implies(k < g and g < len(xs), ys[g] == b[g - k - 1] and b[g - k - 1] == xs[g])}


MEMO = {'idx': lst(ANYS), 'fdata': 'fdata', 'key': 'int', 'cache': ANYS, 'rev': const(-1)}
HIDE = ['tok_end', 'tok_begin', 'at_place']


@spec([lst(ANYS), 'int', ANYS], 'bool', inline=True)
def room(idx, key, cache):
    return len(idx) >= 1 and 0 <= key and key < len(idx[-1]) and key < len(cache) and type(idx[-1][key]) == dict


def memo_ensures(idx, fdata, key, cache_0, result, g):
    cur = idx[-1]
    return {'read': implies(live(cur, key), key < len(result) and result[key] == value(cur, cache_0, fdata, key)),
            'others': implies(g >= 1, value(cur, result, fdata, g) == value(cur, cache_0, fdata, g))}


@contract('docstruct.memoize_obj_in_cache', MEMO, ANYS, props=['C11'], raises='no', same='cache',
          ghosts={'g': 'int'}, opaque=HIDE, name='docstruct.memoize_obj_in_cache[known]')
class memoize_known_c:
    """Nothing to fetch: the object is deleted or its state is known."""
    def requires(idx, key, cache):
        return room(idx, key, cache) and (cache[key] is not None or 'DELETED' in as_dict(idx[-1][key]))

    def ensures(idx, fdata, key, cache_0, result, g):
        cur = idx[-1]
        return {'read': implies(live(cur, key), key < len(result) and result[key] == value(cur, cache_0, fdata, key)),
                'others': value(cur, result, fdata, g) == value(cur, cache_0, fdata, g)}


@contract('docstruct.memoize_obj_in_cache', MEMO, ANYS, props=['C11'], raises='any', same='cache',
          ghosts={'g': 'int'}, opaque=HIDE[:2], unfold=3, name='docstruct.memoize_obj_in_cache[plain]')
class memoize_plain_c:
    """An object that the file holds plainly."""
    def requires(idx, key, cache):
        return room(idx, key, cache) and key >= 1 and plain_ok(idx[-1][key]) \
            and 'DELETED' not in as_dict(idx[-1][key]) and cache[key] is None

    def hints(idx, fdata, key, cache_0, result, g):
        cur = idx[-1]
        return {'text': result[key] == at_place(fdata, cur[key]),
                'state': value(cur, result, fdata, key) == value(cur, cache_0, fdata, key),
                'slots': implies(g != key, slot_set(cache_0, key, result[key], g)),
                'same': implies(g == key, value(cur, result, fdata, g) == value(cur, cache_0, fdata, g)),
                'other': implies(g != key, value(cur, result, fdata, g) == value(cur, cache_0, fdata, g))}

    def ensures(idx, fdata, key, cache_0, result, g):
        cur = idx[-1]
        return {'read': implies(live(cur, key), key < len(result) and result[key] == value(cur, cache_0, fdata, key)),
                'others': value(cur, result, fdata, g) == value(cur, cache_0, fdata, g)}


@spec([Doc, 'int'], 'any', inline=True)
def state(doc, n):
    """The state of object n in a document."""
    return value(doc.index[-1], doc.cache, doc.data[-1]['fdata'], n)


@spec(['ref'], 'int', inline=True)
def ref_num(r):
    return int(r.imag)


@contract('docstruct.get_object', {'doc': Doc, 'obj': 'ref'}, 'any', props=['C11'], raises='no', modifies=['doc'],
          ghosts={'g': 'int'}, opaque=HIDE, name='docstruct.get_object[known]',
          use={'docstruct.memoize_obj_in_cache': 'docstruct.memoize_obj_in_cache[known]'})
class get_object_known_c:
    """Reading an object that is missing, deleted or known: its state, which reading does not change."""
    def requires(doc, obj):
        n = ref_num(obj)
        return len(doc.index) >= 1 and len(doc.data) >= 1 and 0 <= n \
            and 'fdata' in doc.data[-1] \
            and implies(n < len(doc.index[-1]), doc.index[-1][n] is None or type(doc.index[-1][n]) == dict) \
            and implies(live(doc.index[-1], n), n < len(doc.cache) and doc.cache[n] is not None)

    def ensures(doc, doc_0, obj, result, g):
        return {'state': result == state(doc_0, ref_num(obj)), 'others': state(doc, g) == state(doc_0, g)}


@contract('docstruct.get_object', {'doc': Doc, 'obj': 'ref'}, 'any', props=['C11'], raises='any', modifies=['doc'],
          ghosts={'g': 'int'}, opaque=HIDE, name='docstruct.get_object[plain]',
          use={'docstruct.memoize_obj_in_cache': 'docstruct.memoize_obj_in_cache[plain]'})
class get_object_plain_c:
    """Reading an object that the file holds plainly and that was not read before."""
    def requires(doc, obj):
        n = ref_num(obj)
        return len(doc.index) >= 1 and len(doc.data) >= 1 and 1 <= n and live(doc.index[-1], n) \
            and room(doc.index, n, doc.cache) and doc.cache[n] is None and plain_ok(doc.index[-1][n])

    def ensures(doc, doc_0, obj, result, g):
        return {'state': result == state(doc_0, ref_num(obj)), 'others': state(doc, g) == state(doc_0, g)}


@contract('docstruct.get_object', {'doc': Doc, 'obj': 'any'}, 'any', props=['C11', 'C10'], raises='no',
          modifies=['doc'], name='docstruct.get_object[value]')
class get_object_value_c:
    """Anything but a reference is its own value; the document is as before."""
    def requires(doc, obj):
        return type(obj) != complex

    def ensures(doc, doc_0, obj, result):
        return {'value': result == obj, 'document': doc.cache == doc_0.cache and doc.index == doc_0.index}


@contract('docstruct.update_object', {'doc': Doc, 'num': 'int', 'new_o': 'any'}, Doc, props=['C11', 'C10', 'C17'],
          raises='no', ghosts={'g': 'int'}, opaque=HIDE, name='docstruct.update_object[state]')
class update_object_state_c:
    """Afterwards the object reads as what was written (missing when None), every other one as before."""
    def requires(doc, num):
        return len(doc.index) >= 1 and len(doc.data) >= 1 and 0 <= num and num < len(doc.index[-1]) \
            and num < len(doc.cache) and entry_ok(doc.index[-1][num]) and 'fdata' in doc.data[-1]

    def hints(doc, num, new_o, result, g):
        cur, new = doc.index[-1], result.index[-1]
        d = as_dict(cur[g])
        return {'entries': implies(g != num, slot_set(cur, num, new[num], g)),
                'slots': implies(g != num, slot_set(doc.cache, num, new_o, g)),
                'cache': implies(g != num, kept(result.cache, g) == kept(doc.cache, g)),
                'index': implies(g != num, kept(new, g) == kept(cur, g)),
                'place': implies(g != num and 'env_num' in d,
                                 slot_set(cur, num, new[num], as_int(d['env_num'])))}

    def ensures(doc, num, new_o, result, g):
        d = as_dict(doc.index[-1][g])
        c = as_int(d['env_num'])
        apart = implies(live(doc.index[-1], g) and 'env_num' in d, c != num and 0 <= c and c < len(doc.index[-1]))
        return {'written': state(result, num) == new_o,
                'others': implies(g != num and apart, state(result, g) == state(doc, g))}


@contract('docstruct.add_object', {'doc': Doc, 'new_o': 'any'}, tup(Doc, 'ref'), props=['C11', 'C10', 'C17'],
          raises='no', ghosts={'g': 'int'}, opaque=HIDE, name='docstruct.add_object[state]')
class add_object_state_c:
    """The new object reads as what was given, every other one as before."""
    def requires(doc):
        return len(doc.index) >= 1 and len(doc.data) >= 1 and len(doc.cache) == len(doc.index[-1]) \
            and len(doc.cache) >= 1 and 'fdata' in doc.data[-1]

    def hints(doc, new_o, result, g):
        cur, new = doc.index[-1], result[0].index[-1]
        c = as_int(as_dict(cur[g])['env_num'])
        return {'slots': implies(0 <= g and g < len(cur), result[0].cache[g] == doc.cache[g] and new[g] == cur[g]),
                'place': implies(0 <= c and c < len(cur), new[c] == cur[c])}

    def ensures(doc, new_o, result, g):
        r, iref = result
        n = len(doc.index[-1])
        cur = doc.index[-1]
        d = as_dict(cur[g])
        ok = implies(live(cur, g) and 'env_num' in d, 0 <= as_int(d['env_num']) and as_int(d['env_num']) < n)
        return {'new': iref == complex(0, n) and implies(new_o is not None, state(r, n) == new_o),
                'others': implies(g < n and ok, state(r, g) == state(doc, g))}

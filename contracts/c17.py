"""Rotating pages (C17)."""
from pyvc.api import *
from pyvc.core import *
from contracts.base import *
from contracts.doc import Doc
from contracts.c13 import *
from contracts.c11 import ref_num

LAY = lst(tup('any', 'any'))
INTS = lst('int')


@trusted('docstruct.update_object', {'doc': Doc, 'num': 'int', 'new_o': 'any'}, Doc, raises='any',
         ghosts={'r': 'any', 'v': 'any'}, name='docstruct.update_object[resolved]')
class update_object_resolved_c:
    def ensures(doc, num, new_o, result, r, v):
        return {'r': implies(type(r) != complex or ref_num(as_ref(r)) != num, resolved(result, r) == resolved(doc, r)),
                'v': implies(type(v) != complex or ref_num(as_ref(v)) != num, resolved(result, v) == resolved(doc, v)),
                'written': implies(type(r) == complex and ref_num(as_ref(r)) == num, resolved(result, r) == new_o)}
    why = 'update_object[state] proves it of the state of an object; what a reference leads to is that state'


@contract('api.page_layouts', {'doc': Doc, 'max_nb': 'none'}, LAY, props=['C17', 'C13'], raises='any',
          ghosts={'i': 'int'})
class page_layouts_c:
    """The effective media box and rotation of every page."""
    def requires(doc):
        return regular(doc)

    def ensures(doc, result, i):
        ls = leaves(doc, None, {})
        return {'all': len(result) == len(ls),
                'page': implies(0 <= i and i < len(ls) and type(resolved(doc, ls[i][0])) == dict,
                                result[i][1] == rotation_of(resolved(doc, ls[i][0]), ls[i][1]))}


@spec(['any', ATTRS], 'any')
def rotation_of(node, inh):
    d = filled(node, inh, nkeys(inh))
    return d['/Rotate'] if '/Rotate' in d else None


@spec([LAY, INTS, 'int'], lst(tup('int', 'any')))
def chosen(lay, sel, k):
    """The selected ones among the first k pages."""
    if k <= 0:
        return []
    return chosen(lay, sel, k - 1) + ([(k - 1, lay[k - 1][1])] if k - 1 in sel else [])


@spec([lst(tup('int', 'any')), 'int', 'int'], 'bool')
def seen(a, k, g):
    """Page g is one of the first k."""
    return k > 0 and (a[k - 1][0] == g or seen(a, k - 1, g))


@lemma({'lay': LAY, 'sel': INTS, 'n': 'int', 'j': 'int'}, props=['C17'])
class chosen_page:
    """Every chosen entry is a selected page."""
    def requires(lay, sel, n, j):
        return 0 <= n and n <= len(lay) and 0 <= j and j < len(chosen(lay, sel, n))

    def ensures(lay, sel, n, j):
        a = chosen(lay, sel, n)
        i = a[j][0]
        return 0 <= i and i < n and i in sel and a[j][1] == lay[i][1]

    def measure(n):
        return n

    def hints(lay, sel, n, j):
        m = len(chosen(lay, sel, n - 1))
        return {'ih': implies(n > 0 and j < m, ih(lay, sel, n - 1, j)),
                'old': implies(n > 0 and j < m, chosen(lay, sel, n)[j] == chosen(lay, sel, n - 1)[j]),
                'new': implies(n > 0 and j >= m, j == m and chosen(lay, sel, n)[j][0] == n - 1)}


@lemma({'lay': LAY, 'sel': INTS, 'n': 'int', 'j': 'int', 'k': 'int'}, props=['C17'])
class chosen_up:
    """In the order of the pages."""
    def requires(lay, sel, n, j, k):
        return 0 <= n and n <= len(lay) and 0 <= j and j < k and k < len(chosen(lay, sel, n))

    def ensures(lay, sel, n, j, k):
        a = chosen(lay, sel, n)
        return a[j][0] < a[k][0]

    def measure(n):
        return n

    def hints(lay, sel, n, j, k):
        p = chosen(lay, sel, n - 1)
        m = len(p)
        a = chosen(lay, sel, n)
        q = [(n - 1, lay[n - 1][1])] if n - 1 in sel else []
        return {'ih': implies(n > 0 and k < m, ih(lay, sel, n - 1, j, k)),
                'cat': implies(n > 0, a == p + q),
                'b': implies(n > 0 and j < m, chosen_page(lay, sel, n - 1, j)),
                'old': implies(n > 0 and j < m, chosen(lay, sel, n)[j] == chosen(lay, sel, n - 1)[j]),
                'oldk': implies(n > 0 and k < m, (p + q)[k] == p[k]),
                'new': implies(n > 0 and k >= m, k == m and chosen(lay, sel, n)[k][0] == n - 1)}


@lemma({'lay': LAY, 'sel': INTS, 'n': 'int', 'k': 'int', 'g': 'int'}, props=['C17'])
class seen_below:
    """No page comes twice."""
    def requires(lay, sel, n, k, g):
        return 0 <= n and n <= len(lay) and 0 <= k and k < len(chosen(lay, sel, n)) and seen(chosen(lay, sel, n), k, g)

    def ensures(lay, sel, n, k, g):
        return g < chosen(lay, sel, n)[k][0]

    def measure(k):
        return k

    def hints(lay, sel, n, k, g):
        a = chosen(lay, sel, n)
        return {'up': implies(k > 0, chosen_up(lay, sel, n, k - 1, k)),
                'ih': implies(k > 0 and seen(a, k - 1, g), ih(lay, sel, n, k - 1, g))}


@lemma({'a': lst(tup('int', 'any')), 'b': lst(tup('int', 'any')), 'k': 'int', 'g': 'int'}, props=['C17'])
class seen_more:
    def requires(a, b, k, g):
        return 0 <= k and k <= len(a)

    def ensures(a, b, k, g):
        return seen(a + b, k, g) == seen(a, k, g)

    def measure(k):
        return k

    def hints(a, b, k, g):
        return {'ih': implies(k > 0, ih(a, b, k - 1, g)), 'at': implies(k > 0, (a + b)[k - 1] == a[k - 1])}


@lemma({'lay': LAY, 'sel': INTS, 'n': 'int', 'g': 'int'}, props=['C17'])
class seen_all:
    """Every selected page is there."""
    def requires(lay, sel, n, g):
        return 0 <= n and n <= len(lay)

    def ensures(lay, sel, n, g):
        a = chosen(lay, sel, n)
        return seen(a, len(a), g) == (0 <= g and g < n and g in sel)

    def measure(n):
        return n

    def hints(lay, sel, n, g):
        p = chosen(lay, sel, n - 1)
        q = [(n - 1, lay[n - 1][1])] if n - 1 in sel else []
        return {'ih': implies(n > 0, ih(lay, sel, n - 1, g)),
                'more': implies(n > 0, seen_more(p, q, len(p), g)),
                'cat': implies(n > 0, chosen(lay, sel, n) == p + q)}


@lemma({'xs': INTS, 'i': 'int'}, props=['C17'])
class member:
    def requires(xs, i):
        return 0 <= i and i < len(xs)

    def ensures(xs, i):
        return xs[i] in xs

    def hints(xs, i):
        return {'split': xs == xs[:i] + [xs[i]] + xs[i + 1:]}


@spec(['any', 'any', 'int'], 'any')
def turned(page, rotation, degrees):
    """The page, rotated from what it has."""
    return {**as_dict(page), '/Rotate': (as_int(rotation) + degrees) % 360} if type(rotation) == int else \
        {**as_dict(page), '/Rotate': degrees % 360}


@spec([INTS, 'int'], 'bool', inline=True)
def selected(pages, g):
    return len(pages) == 0 or g in pages


@spec([LEAVES, 'int', 'any'], 'bool', inline=True)
def apart_from(ls, g, x):
    """x does not lead to another page than page g."""
    return type(x) != complex or forall(0, len(ls), lambda j: j == g or ref_num(as_ref(ls[j][0])) != ref_num(as_ref(x)))


@contract('api.rotate', {'doc': Doc, 'degrees': 'int', 'pages': INTS}, Doc, props=['C17'], raises='any',
          ghosts={'i': 'int', 'r': 'any', 'v': 'any'},
          use={'docstruct.update_object': 'docstruct.update_object[resolved]'},
          opaque=['filled', 'leaves', 'kid_leaves', 'rotation_of'])
class rotate_c:
    """A selected page is rotated from its effective rotation, modulo a full turn; another one is as before."""
    def requires(doc, i, r, v):
        ls = leaves(doc, None, {})
        page = resolved(doc, ls[i][0])
        eff = resolved(doc, v)
        return {'regular': regular(doc), 'page': 0 <= i and i < len(ls) and r == ls[i][0] and type(page) == dict,
                'refs': type(r) == complex and forall(0, len(ls), lambda j: type(ls[j][0]) == complex),
                'value': v == rotation_of(page, ls[i][1]) and (eff is None or type(eff) == int),
                'apart': apart_from(ls, i, r) and apart_from(ls, 0 - 1, v)}

    def ensures(doc, degrees, pages, result, i, r, v):
        return {'rotated': implies(selected(pages, i),
                                   resolved(result, r) == turned(resolved(doc, r), resolved(doc, v), degrees)),
                'others': implies(not selected(pages, i), resolved(result, r) == resolved(doc, r))}

    def _inv0(_res, pl, work_pages, _k):
        return _res == chosen(pl, work_pages, _k)

    def _inv1(doc, doc_0, degrees, a, i, r, v, _k):
        return {'page': resolved(doc, r) == (turned(resolved(doc_0, r), resolved(doc_0, v), degrees)
                                             if seen(a, _k, i) else resolved(doc_0, r)),
                'value': resolved(doc, v) == resolved(doc_0, v)}

    def _h1(doc, doc_0, degrees, pl, work_pages, a, i, r, v, iref, _k):
        n = len(pl)
        k = _k - 1
        return {'at': chosen_page(pl, work_pages, n, k),
                'once': implies(seen(a, k, i), seen_below(pl, work_pages, n, k, i)),
                'page': implies(a[k][0] == i, a[k][1] == v and iref == r),
                'turn': implies(a[k][0] == i, resolved(doc, r) == turned(resolved(doc_0, r), resolved(doc_0, v), degrees)),
                'other': implies(a[k][0] != i, type(iref) == complex and ref_num(as_ref(iref)) != ref_num(as_ref(r)))}
    loops = {'c0': Loop(_inv0, types={'_res': lst(tup('int', 'any'))}), 0: Loop(_inv1, hints=_h1)}

    def hints(pl, work_pages, pages, a, i):
        w = work_pages
        return {'range': implies(len(pages) == 0, len(w) == len(pl) and w[i] == i),
                'split': implies(len(pages) == 0, member(w, i)),
                'in': implies(len(pages) == 0, i in w),
                'seen': seen_all(pl, work_pages, len(pl), i)}

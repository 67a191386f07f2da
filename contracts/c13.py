"""Page trees (C13)."""
from pyvc.api import *
from pyvc.core import *
from contracts.base import *
from contracts.doc import Doc

ATTRS = dct('str', 'any')
LEAVES = lst(tup('any', ATTRS))
ANYS = lst('any')


@spec([Doc, 'any'], 'any', opaque=True)
def resolved(doc, x):
    """The value of an object or of what a reference leads to."""
    from pdfsyntax.docstruct import get_object
    return get_object(doc, x)


@spec([Doc], 'bool', opaque=True)
def regular(doc):
    """Every node of the page tree has a list of kids."""
    raise NotImplementedError


def _ax_resolved(doc, x, r):
    d = as_dict(r)
    return implies(regular(doc) and type(r) == dict and d['/Type'] == '/Pages', type(resolved(doc, d['/Kids'])) == list)


resolved.axioms = Clause(_ax_resolved)


@spec([Doc], 'any', opaque=True)
def root_of(doc):
    """The catalog."""
    from pdfsyntax.docstruct import catalog
    return catalog(doc)[0]


@trusted('docstruct.get_object', {'doc': Doc, 'obj': 'any'}, 'any', raises='any')
class get_object_c:
    """What a reference leads to does not change while the document is read."""
    def ensures(doc, obj, result):
        return result == resolved(doc, obj)
    why = 'the parser is behind it; the cache it fills is not visible otherwise'


@trusted('docstruct.catalog', {'doc': Doc}, tup('any', 'any'), raises='any')
class catalog_c:
    def ensures(doc, result):
        return result[0] == root_of(doc)
    why = 'as get_object'


@spec([Doc, 'any'], 'any', inline=True)
def node_of(doc, num):
    return resolved(doc, num if num else as_dict(root_of(doc))['/Pages'])


@spec([ATTRS, 'any', 'str'], ATTRS, inline=True)
def put(d, node, k):
    n = as_dict(node)
    return {**d, k: n[k]} if k in n and n[k] is not None else d


@spec([ATTRS, 'any'], ATTRS)
def passed_on(inh, node):
    """What the kids of a node inherit: its own values win."""
    return put(put(put(put(inh, node, '/Resources'), node, '/MediaBox'), node, '/CropBox'), node, '/Rotate')


@spec([Doc, 'any', ATTRS], LEAVES)
def leaves(doc, num, inh):
    """Pages below a node from left to right, each with what it inherits."""
    node = as_dict(node_of(doc, num))
    if node['/Type'] == '/Pages':
        kids = as_list(resolved(doc, node['/Kids']))
        return kid_leaves(doc, kids, len(kids), passed_on(inh, node_of(doc, num)))
    return [(num, inh)]


@spec([Doc, ANYS, 'int', ATTRS], LEAVES)
def kid_leaves(doc, kids, n, inh):
    if n <= 0:
        return []
    return kid_leaves(doc, kids, n - 1, inh) + leaves(doc, kids[n - 1], inh)


@contract('docstruct.flat_page_tree', {'doc': Doc, 'num': 'any', 'inherited': opt(ATTRS), 'max_nb': 'none'}, opt(LEAVES), props=['C13'],
          raises='any')
class flat_page_tree_c:
    """The leaves of the page tree from left to right, each with the attributes of its nearest ancestors."""
    def requires(doc):
        return regular(doc)

    def ensures(doc, num, inherited, result):
        inh = inherited if inherited is not None else {}
        return implies(result is not None, result == leaves(doc, num, inh))

    def _inv(doc, num, inherited, inherited_at0, accu, node, _k, _seq):
        inh = passed_on(inherited_at0, node)
        return {'pages': accu == kid_leaves(doc, _seq, _k, inh),
                'inherited': inherited == (inherited_at0 if _k == 0 else inh)}
    loops = {0: Loop(_inv, types={'accu': LEAVES})}


@spec(['any', ATTRS, 'int'], ATTRS)
def filled(node, inh, k):
    """A node with the first k of the attributes that its ancestors have for it; its own win."""
    if k <= 0:
        return as_dict(node)
    d = filled(node, inh, k - 1)
    a = key_at(inh, k - 1)
    return d if a in d else {**d, a: inh[a]}


@contract('docstruct.pages', {'doc': Doc, 'max_nb': 'none'}, ANYS, props=['C13', 'C17'], raises='any',
          ghosts={'i': 'int'})
class pages_c:
    """Every page of the tree, in order, with the attributes that it inherits."""
    def requires(doc):
        return regular(doc)

    def ensures(doc, result, i):
        ls = leaves(doc, None, {})
        return {'all': len(result) == len(ls),
                'page': implies(0 <= i and i < len(ls) and type(resolved(doc, ls[i][0])) == dict,
                                result[i] == filled(resolved(doc, ls[i][0]), ls[i][1], nkeys(ls[i][1])))}

    def _inv(doc, pl, i, _k, _seq):
        return {'n': len(pl) == _k,
                'page': implies(0 <= i and i < _k and type(resolved(doc, leaves(doc, None, {})[i][0])) == dict,
                                pl[i] == filled(resolved(doc, leaves(doc, None, {})[i][0]), leaves(doc, None, {})[i][1], nkeys(leaves(doc, None, {})[i][1])))}

    def _inv1(doc, num, in_attr, temp, _k):
        return implies(type(resolved(doc, num)) == dict,
                       type(temp) == dict and as_dict(temp) == filled(resolved(doc, num), in_attr, _k))
    loops = {0: Loop(_inv, types={'pl': ANYS}), 1: Loop(_inv1)}


@contract('docstruct.number_pages', {'doc': Doc}, 'any', props=['C13'], raises='any')
class number_pages_c:
    """The count that the root of the tree declares."""
    def ensures(doc, result):
        return result == resolved(doc, as_dict(resolved(doc, as_dict(root_of(doc))['/Pages']))['/Count'])

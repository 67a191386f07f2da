"""Documents: copies and elementary updates (C10, C11, C12, C16)."""
from pyvc.api import *
from pyvc.core import *
from contracts.base import *

Data = record('Data', {'fdata': ('fdata', True), 'bdata': ('bytes', True), 'eof_cut': ('int', True)})
Doc = objtype('Doc', {'index': lst(lst('any')), 'cache': lst('any'), 'data': lst(Data)})


@contract('docstruct.copy_doc', {'doc': Doc, 'revision': 'str'}, opt(Doc), props=['C10', 'C16'], raises='no',
          modular=False)
class copy_doc_c:
    def requires(doc, revision):
        n = 1 if revision == 'SAME' or revision == 'NEXT' else 2
        return len(doc.index) >= n and len(doc.data) >= n and len(doc.cache) >= 1 and \
            implies(revision == 'NEXT', type(doc.cache[0]) == dict)

    def ensures(doc, revision, result):
        known = revision == 'SAME' or revision == 'NEXT' or revision == 'PREVIOUS'
        return {'none': iff(result is None, not known),
                'index': implies(known, result is not None and result.index == doc.index),
                'data': implies(known, result is not None and result.data == doc.data),
                'cache': implies(revision == 'SAME' or revision == 'NEXT', result is not None and result.cache == doc.cache),
                'empty': implies(revision == 'PREVIOUS', result is not None and len(result.cache) == 0)}


@spec(['any', 'int', 'int', 'int', 'int', 'bool'], 'bool', inline=True)
def entry_is(e, num, gen, o_ver, doc_ver, deleted):
    """A fresh index entry: no position in the file yet."""
    d = as_dict(e)
    return type(e) == dict and d['o_num'] == num and d['o_gen'] == gen and d['o_ver'] == o_ver \
        and d['doc_ver'] == doc_ver and iff('DELETED' in d, deleted) and 'abs_pos' not in d and 'env_num' not in d


@spec(['any'], 'bool', inline=True)
def entry_ok(e):
    d = as_dict(e)
    return type(e) == dict and 'o_gen' in d and type(d['o_gen']) == int and 'o_ver' in d and type(d['o_ver']) == int


def doc_ok(doc):
    return len(doc.index) >= 1 and len(doc.data) >= 1 and len(doc.cache) >= len(doc.index[-1])


@contract('docstruct.update_object', {'doc': Doc, 'num': 'int', 'new_o': 'any'}, Doc,
          props=['C10', 'C11'], raises='no')
class update_object_c:
    """Updating or deleting (None) object num: a document that differs from the given one at num only."""
    def requires(doc, num):
        return len(doc.index) >= 1 and len(doc.data) >= 1 and 0 <= num and num < len(doc.index[-1]) \
            and num < len(doc.cache) and entry_ok(doc.index[-1][num])

    def ensures(doc, num, new_o, result):
        cur, new = doc.index[-1], result.index[-1]
        old = as_dict(cur[num])
        n = len(doc.index)
        return {'entry': len(new) == len(cur) and
                entry_is(new[num], num, as_int(old['o_gen']), as_int(old['o_ver']) + 1, n - 1, new_o is None),
                'rest-of-index': new[:num] == cur[:num] and new[num + 1:] == cur[num + 1:],
                'earlier': len(result.index) == n and result.index[:n - 1] == doc.index[:n - 1],
                'object': len(result.cache) == len(doc.cache) and result.cache[num] == new_o,
                'rest-of-cache': result.cache[:num] == doc.cache[:num]
                and result.cache[num + 1:] == doc.cache[num + 1:],
                'data': result.data == doc.data}


@contract('docstruct.add_object', {'doc': Doc, 'new_o': 'any'}, tup(Doc, 'ref'), props=['C10', 'C11'], raises='no')
class add_object_c:
    def requires(doc):
        return len(doc.index) >= 1 and len(doc.data) >= 1 and len(doc.cache) == len(doc.index[-1]) \
            and len(doc.cache) >= 1

    def ensures(doc, new_o, result):
        r, iref = result
        n = len(doc.index)
        m = len(doc.index[-1])
        cur, new = doc.index[-1], r.index[-1]
        return {'ref': iref == complex(0, m),
                'entry': len(new) == m + 1 and entry_is(new[m], m, 0, 0, n - 1, False),
                'rest-of-index': new[:m] == cur,
                'earlier': len(r.index) == n and r.index[:n - 1] == doc.index[:n - 1],
                'object': len(r.cache) == m + 1 and r.cache[m] == new_o,
                'rest-of-cache': r.cache[:m] == doc.cache,
                'data': r.data == doc.data}

"""Pending changes and objects in use (C12, C16, C07, C10)."""
from pyvc.api import *
from pyvc.core import *
from contracts.base import *
from contracts.doc import Doc

ANYS = lst('any')
REFS = lst('ref')
CHG = lst(tup('ref', 'str'))


@spec(['any'], 'bool', inline=True)
def slot_ok(e):
    """An index slot: None, or an entry with a generation number."""
    d = as_dict(e)
    return e is None or (type(e) == dict and 'o_gen' in d and type(d['o_gen']) == int)


@spec(['any'], 'bool', inline=True)
def slot_used(e):
    return e is not None and 'DELETED' not in as_dict(e)


@spec([ANYS, 'int'], 'ref', inline=True)
def ref_at(cur, i):
    return complex(as_int(as_dict(cur[i])['o_gen']), i)


@spec([ANYS, 'int'], REFS)
def used_refs(cur, n):
    """References of the objects in use below number n."""
    if n <= 1:
        return []
    return used_refs(cur, n - 1) + ([ref_at(cur, n - 1)] if slot_used(cur[n - 1]) else [])


@spec([ANYS, ANYS, 'bool', 'int'], CHG)
def changed(prev, cur, first, n):
    """Changes among the objects below number n; first: there is no revision before."""
    if n <= 1:
        return []
    i = n - 1
    t = as_dict(cur[0])
    own = 'xref_stream_num' in t and t['xref_stream_num'] == i
    size = len(cur) if first else len(prev)
    same = cur[i] is None or (not first and i < size and prev[i] == cur[i])
    d = 'DELETED' in as_dict(cur[i])
    u = i < size and not first and prev[i] is not None
    return changed(prev, cur, first, i) + \
        ([] if own or same else [(ref_at(cur, i), 'd' if d else ('u' if u else 'a'))])


@contract('docstruct.get_iref', {'doc': Doc, 'o_num': 'int', 'rev': const(-1)}, opt('ref'), props=['C12', 'C16'],
          raises='no', name='docstruct.get_iref[last]')
class get_iref_c:
    """The reference of an object: its generation number and the number asked for; None for a free slot."""
    def requires(doc, o_num):
        return len(doc.index) >= 1 and 0 <= o_num and o_num < len(doc.index[-1]) and slot_ok(doc.index[-1][o_num])

    def ensures(doc, o_num, result):
        return {'none': iff(result is None, doc.index[-1][o_num] is None),
                'ref': implies(result is not None, result == ref_at(doc.index[-1], o_num))}


@contract('docstruct.in_use', {'doc': Doc, 'rev': const(-1)}, REFS, props=['C12', 'C16'], raises='no')
class in_use_c:
    """Every object in use exactly once, by number."""
    def requires(doc):
        return len(doc.index) >= 1 and forall(1, len(doc.index[-1]), lambda i: slot_ok(doc.index[-1][i]))

    def ensures(doc, result):
        return result == used_refs(doc.index[-1], len(doc.index[-1]))

    def _inv(doc, res, _k):
        return res == used_refs(doc.index[-1], _k + 1)
    loops = {0: Loop(_inv)}


@spec([Doc], ANYS, inline=True)
def old_index(doc):
    return doc.index[-2] if len(doc.index) > 1 else []


@contract('docstruct.changes', {'doc': Doc, 'rev': const(-1)}, CHG, props=['C12', 'C16', 'C07'], raises='no')
class changes_c:
    """Pending changes: one entry for each object whose index entry differs from the revision before, by number."""
    def requires(doc):
        return len(doc.index) >= 1 and (len(doc.index[-1]) == 0 or type(doc.index[-1][0]) == dict) and \
            forall(1, len(doc.index[-1]), lambda i: slot_ok(doc.index[-1][i]))

    def ensures(doc, result):
        n = len(doc.index)
        return result == changed(old_index(doc), doc.index[-1], n == 1, len(doc.index[-1]))

    def _inv(doc, res, _k):
        return res == changed(old_index(doc), doc.index[-1], len(doc.index) == 1, _k + 1)
    loops = {0: Loop(_inv)}

"""Incremental saving (C09)."""
from pyvc.api import *
from pyvc.core import *
from contracts.base import *
from contracts.fdata import *
from contracts.doc import Doc, Data


@contract('filestruct.eof_cut', {'eof_index': 'int', 'fdata': 'fdata'}, 'int', props=['C09'], raises='no')
class eof_cut_c:
    """After %%EOF and the end-of-line characters that follow, and nothing else."""
    def requires(eof_index, fdata):
        return 0 <= eof_index and eof_index + 5 <= len(as_source(fdata))

    def ensures(eof_index, fdata, result):
        s = as_source(fdata)
        return {'range': eof_index + 5 <= result and result <= len(s),
                'eols': forall(eof_index + 5, result, lambda k: s[k] == 13 or s[k] == 10),
                'stop': result == len(s) or not (s[result] == 13 or s[result] == 10)}

    def _inv(fdata, eof_index, bdata, start, n, i):
        s = as_source(fdata)
        return {'i': start + 5 <= i and i <= start + n,
                'win': start >= 0 and n == len(s) - eof_index and start + n <= len(bdata)
                and bdata[start:start + n] == s[eof_index:],
                'eols': forall(eof_index + 5, eof_index + i - start, lambda k: s[k] == 13 or s[k] == 10)}

    def _var(start, n, i):
        return start + n - i

    def _same(fdata, eof_index, bdata, start, n, i):
        s = as_source(fdata)
        return {'w': implies(i < start + n, bdata[i] == s[eof_index + i - start])}
    loops = {0: Loop(_inv, _var, hints=_same)}


@spec([lst(Data), 'int'], 'int')
def starts_at(data, k):
    """Where revision k begins: after the end of the one before, as the file says or by the bytes written."""
    if k <= 0:
        return 0
    d = data[k - 1]
    return d['eof_cut'] if 'eof_cut' in d else starts_at(data, k - 1) + len(d['bdata'])


@contract('docstruct.revision_index', {'doc': Doc, 'rev': 'int'}, 'int', props=['C09', 'C07'], raises='any')
class revision_index_c:
    def requires(doc, rev):
        return rev >= -1 and rev <= len(doc.data) and len(doc.data) >= 1

    def ensures(doc, rev, result):
        return result == starts_at(doc.data, len(doc.data) - 1 if rev == -1 else rev)

    def _inv(doc, rev, index, _k):
        return index == starts_at(doc.data, _k)
    loops = {0: Loop(_inv)}

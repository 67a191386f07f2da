"""PNG Up predictor (C05)."""
from pyvc.api import *
from pyvc.core import *
from contracts.base import *


@spec(['bytes', 'int', 'int'], 'int')
def up(b, w, p):
    """Decoded byte at position p of the encoded data, rows being w bytes (tag included); above the first row: 0."""
    if p < 0 or w <= 0 or p >= len(b):
        return 0
    return (b[p] + up(b, w, p - w)) % 256


@spec(['bytes', 'int', 'int', 'int'], 'bytes')
def up_seg(b, w, p, n):
    """n decoded bytes from position p."""
    if n <= 0:
        return b''
    return up_seg(b, w, p, n - 1) + bytes([up(b, w, p + n - 1)])


@spec(['bytes', 'int', 'int'], 'bytes')
def up_rows(b, w, i):
    """Rows from position i on, without their tag byte."""
    if i < 0 or w <= 0 or i >= len(b):
        return b''
    return up_seg(b, w, i + 1, (w if i + w <= len(b) else len(b) - i) - 1) + up_rows(b, w, i + w)


@lemma({'b': 'bytes', 'w': 'int', 'p': 'int', 'n': 'int', 'xs': lst('int')}, props=['C05'])
class up_seg_bytes:
    def requires(b, w, p, n, xs):
        return {'n': 0 <= n and n <= len(xs),
                'all': forall(0, len(xs), lambda k: xs[k] == up(b, w, p + k)),
                'byte': forall(0, len(xs), lambda k: 0 <= xs[k] and xs[k] <= 255)}

    def ensures(b, w, p, n, xs):
        return bytes(xs[:n]) == up_seg(b, w, p, n)

    def measure(n):
        return n

    def hints(b, w, p, n, xs):
        return ih(b, w, p, n - 1, xs)


@contract('filters.decode_predictor', {'bdata': 'bytes', 'predictor': 'any', 'columns': 'int'}, 'bytes', props=['C05'],
          raises='no')
class decode_predictor_c:
    def requires(columns):
        return columns >= 1

    def ensures(bdata, columns, result):
        return result == up_rows(bdata, columns + 1, 0)

    def _inv(bdata, columns, size, res, prev_row, i):
        return {'i': 0 <= i and size == len(bdata) and columns >= 2,
                'row': implies(i < size, len(prev_row) == columns),
                'prev': implies(i < size, forall(0, len(prev_row), lambda k: prev_row[k] == up(bdata, columns, i - columns + k))),
                'rest': res + up_rows(bdata, columns, i) == up_rows(bdata, columns, 0)}

    def _var(size, i):
        return size - i

    def _hint(bdata, columns, i_pre0, decoded_row):
        n = len(decoded_row) - 1
        return {'seg': up_seg_bytes(bdata, columns, i_pre0 + 1, n, decoded_row[1:]),
                'row': bytes(decoded_row[1:]) == up_seg(bdata, columns, i_pre0 + 1, n),
                'step': up_rows(bdata, columns, i_pre0) == up_seg(bdata, columns, i_pre0 + 1, n) + up_rows(bdata, columns, i_pre0 + columns)}
    loops = {0: Loop(_inv, _var, hints=_hint)}

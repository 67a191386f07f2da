"""Cross-reference sections read (C06)."""
from pyvc.api import *
from pyvc.core import *
from contracts.base import *
from contracts.c04 import hex_out


PAIR = tup('int', 'int')



@spec(['int', 'int', 'int'], lst(PAIR))
def run(first, n, sub):
    """n consecutive objects from first on, in subsection sub."""
    if n <= 0:
        return []
    return run(first, n - 1, sub) + [(first + n - 1, sub)]


@spec([lst('int'), 'int'], lst(PAIR))
def expanded(x, k):
    """Objects listed by the first k subsections of an /Index array."""
    if k <= 0:
        return []
    return expanded(x, k - 1) + run(x[2 * (k - 1)], x[2 * (k - 1) + 1], k - 1)


@contract('objects.expand_xref_index', {'xref_index': lst('int')}, lst(PAIR), props=['C06', 'C19'], raises='no')
class expand_xref_index_c:
    """Every pair (first, count) contributes first .. first + count - 1, in order, with the number of its subsection."""
    def requires(xref_index):
        return len(xref_index) % 2 == 0

    def ensures(xref_index, result):
        return result == expanded(xref_index, len(xref_index) // 2)

    def _inv0(xref_index, res, i, subsection):
        return {'i': i == 2 * subsection and subsection >= 0 and i <= len(xref_index),
                'res': res == expanded(xref_index, subsection)}

    def _var0(xref_index, i):
        return len(xref_index) - i

    def _inv1(xref_index, res, i, subsection, o_num, _k):
        return {'i': i == 2 * subsection + 1 and subsection >= 0 and i < len(xref_index),
                'o_num': o_num == xref_index[2 * subsection],
                'res': res == expanded(xref_index, subsection) + run(o_num, _k, subsection)}
    loops = {0: Loop(_inv0, _var0), 1: Loop(_inv1)}


# ---- streams
INTS = lst('int')
XE = record('XrefEntries', {'/W': (INTS, False), '/Index': (INTS, True), '/Size': ('int', True)})
XStream = objtype('XrefStream', {'entries': XE, 'stream': 'bytes', 'encoded': opt('bytes')})
LINE = tup('int', opt('int'), 'int', 'int', 'bytes', 'bytes', 'int')
LINES = lst(LINE)


@spec([INTS, 'int'], 'int')
def width_of(w, k):
    """Bytes taken by the first k fields."""
    return 0 if k <= 0 else width_of(w, k - 1) + w[k - 1]


@spec(['bytes', 'int', INTS, 'int'], INTS)
def fields(s, at, w, k):
    """The first k fields of the row that starts at a position."""
    if k <= 0:
        return []
    p = at + width_of(w, k - 1)
    return fields(s, at, w, k - 1) + [be_int(s[p:p + w[k - 1]])]


@spec(['bytes', 'int', INTS, 'int'], 'bytes')
def fields_hex(s, at, w, k):
    if k <= 0:
        return b''
    p = at + width_of(w, k - 1)
    return fields_hex(s, at, w, k - 1) + hex_out(s[p:p + w[k - 1]]) + b' '


@spec(['int', opt('int'), 'int', 'int', 'bytes', 'bytes', 'int'], LINE)
def read_row(place, env, num, gen, kind, raw, sub):
    return (place, env, num, gen, kind, raw, sub)


@spec(['bytes', 'int', INTS, 'int', 'int'], LINES)
def line(s, at, w, num, sub):
    """The row there as an entry for object num; a type field without width means in use."""
    f = fields(s, at, w, len(w))
    kind = 1 if w[0] == 0 else f[0]
    h = fields_hex(s, at, w, len(w))
    if kind == 0:
        return [read_row(f[1], None, num, f[2], b'f', h, sub)]
    if kind == 1:
        return [read_row(f[1], None, num, f[2], b'n', h, sub)]
    if kind == 2:
        return [read_row(f[2], f[1], num, 0, b'n', h, sub)]
    return []


@spec(['bytes', INTS, lst(PAIR), 'int'], LINES)
def lines_of(s, w, nums, k):
    """The first k rows, each with the object number of its subsection."""
    if k <= 0:
        return []
    return lines_of(s, w, nums, k - 1) + line(s, (k - 1) * width_of(w, len(w)), w, nums[k - 1][0], nums[k - 1][1])


TBL = record('XrefRows', {'table': (LINES, False), 'trailer': (XE, False)})


@contract('objects.parse_xref_stream_raw', {'xref_stream': XStream, 'start_pos': 'none'},
          tup('none', 'none', 'str', TBL), props=['C06', 'C19'], raises='any', ghosts={'t': 'int', 'ix': INTS, 'nums': lst(PAIR)})
class parse_xref_stream_raw_c:
    """Row by row: the fields that the widths give, for the object number that /Index assigns to the row."""
    def requires(xref_stream, t, ix, nums):
        x = xref_stream
        w = x.entries['/W']
        return {'w': len(w) == 3 and w[0] >= 0 and w[1] >= 0 and w[2] >= 0 and t == width_of(w, 3) and t > 0,
                'index': implies('/Index' in x.entries, ix == x.entries['/Index']),
                'size': implies('/Index' not in x.entries, '/Size' in x.entries and ix == [0, x.entries['/Size']]),
                'even': len(ix) % 2 == 0,
                'nums': nums == expanded(ix, len(ix) // 2)}

    def ensures(xref_stream, t, nums, result):
        s, w = xref_stream.stream, xref_stream.entries['/W']
        k = (len(s) + t - 1) // t
        return {'rows': k <= len(nums) and result[3]['table'] == lines_of(s, w, nums, k)}

    def _inv0(xref_stream, cols, i, obj_nums, res, t, nums):
        s, w = xref_stream.stream, xref_stream.entries['/W']
        k = i // t
        return {'cols': cols == w, 'i': i == k * t and 0 <= k and k <= len(nums) and (k == 0 or i - t < len(s)),
                'nums': obj_nums == nums[k:], 'res': res == lines_of(s, w, nums, k)}

    def _var0(obj_nums):
        return len(obj_nums)

    def _inv1(xref_stream, cols, i, i_at1, params, ppr, _k):
        s = xref_stream.stream
        return {'i': i == i_at1 + width_of(cols, _k), 'params': params == fields(s, i_at1, cols, _k),
                'ppr': ppr == fields_hex(s, i_at1, cols, _k)}

    def _h0(xref_stream, cols, i, i_pre0, obj_num, subsection, res, res_pre0, t, nums):
        s, w = xref_stream.stream, xref_stream.entries['/W']
        k = i_pre0 // t
        ln = line(s, i_pre0, w, nums[k][0], nums[k][1])
        return {'w': width_of(w, len(w)) == t, 'at': i_pre0 == k * t, 'k': i // t == k + 1,
                'object': obj_num == nums[k][0] and subsection == nums[k][1],
                'line': res == res_pre0 + ln,
                'fold': lines_of(s, w, nums, k + 1) == lines_of(s, w, nums, k) + ln}
    loops = {0: Loop(_inv0, _var0, types={'res': LINES}, hints=_h0), 1: Loop(_inv1, types={'params': INTS})}

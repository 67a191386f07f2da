"""Cross-reference sections written (C08)."""
from pyvc.api import *
from pyvc.core import *
from contracts.base import *
from contracts.c02 import serialized

CHG = lst(tup('ref', 'str'))


@spec([CHG, 'int'], CHG)
def freed(changes, k):
    """The deletions among the first k changes."""
    if k <= 0:
        return []
    return freed(changes, k - 1) + ([changes[k - 1]] if changes[k - 1][1] == 'd' else [])


@contract('filestruct.circular_deleted', {'changes': CHG}, dct('int', 'int'), props=['C08'], raises='no',
          ghosts={'g': 'int'})
class circular_deleted_c:
    """Free objects in one circular list through 0: each leads to the next one, the last to 0, 0 to the first."""
    def requires(changes, g):
        f = freed(changes, len(changes))
        return {'no-zero': forall(0, len(f), lambda j: int(f[j][0].imag) != 0),
                'once': forall(g + 1, len(f), lambda j: int(f[j][0].imag) != int(f[g][0].imag))}

    def ensures(changes, g, result):
        f = freed(changes, len(changes))
        return {'head': 0 in result and result[0] == (int(f[0][0].imag) if len(f) > 0 else 0),
                'next': implies(0 <= g and g < len(f), int(f[g][0].imag) in result and
                                result[int(f[g][0].imag)] == (int(f[g + 1][0].imag) if g + 1 < len(f) else 0))}

    def _comp(changes, _res, _k):
        return _res == freed(changes, _k)

    def _inv(changes, deleted, res, g, _k):
        f = deleted
        return {'head': implies(_k > 0, 0 in res and res[0] == (int(f[0][0].imag) if len(f) > 0 else 0)),
                'next': implies(0 <= g and g + 1 < _k, int(f[g][0].imag) in res and
                                res[int(f[g][0].imag)] == (int(f[g + 1][0].imag) if g + 1 < len(f) else 0)),
                'deleted': deleted == freed(changes, len(changes))}
    loops = {'c0': Loop(_comp, types={'_res': CHG}), 0: Loop(_inv, types={'res': dct('int', 'int')})}


ELEMS = lst(tup('str', 'int', 'int', 'int', 'any'))
ROW = tup('bytes', opt('int'))
ROWS = lst(ROW)


@spec([ELEMS, dct('int', 'int'), 'int'], 'bytes')
def row(elems, nxt, j):
    """An entry without its line feed: the next free object and the next generation, or offset and generation."""
    use, num, gen, counter, _ = elems[j]
    return (pad0(nxt[num], 10) + ' ' + pad0(gen + 1, 5) + ' f ').encode('ascii') if use == 'f' else \
        (pad0(counter, 10) + ' ' + pad0(gen, 5) + ' n ').encode('ascii')


@spec([ELEMS, dct('int', 'int'), 'int'], ROWS)
def rows(elems, nxt, k):
    """The entries of the first k objects."""
    if k <= 0:
        return []
    return rows(elems, nxt, k - 1) + [(row(elems, nxt, k - 1), elems[k - 1][1])]


@spec([ROWS, 'int'], 'int', inline=True)
def number(e, j):
    return e[j][1] if e[j][1] is not None else 0


@spec([ROWS, 'int'], 'bool')
def follows(e, j):
    """The number of entry j is the one after that of the entry before."""
    return j >= 1 and number(e, j) == number(e, j - 1) + 1


@spec([ROWS, 'int'], 'int')
def run_length(e, j):
    """How many entries from j on have consecutive numbers."""
    if j < 0 or j + 1 >= len(e) or not follows(e, j + 1):
        return 1
    return 1 + run_length(e, j + 1)


@spec([ROWS, 'int'], ROW)
def header(e, j):
    """First number and count of the subsection that starts with entry j."""
    return ((dec(number(e, j))).encode('ascii') + b' ' + dec(run_length(e, j)).encode('ascii'), None)


@spec([ROWS, 'int'], ROWS)
def lines_from(e, j):
    """Entry j and all that comes after it, with the headers of later subsections in between."""
    if j < 0 or j >= len(e):
        return []
    if j + 1 >= len(e):
        return [e[j]]
    return [e[j]] + ([] if follows(e, j + 1) else [header(e, j + 1)]) + lines_from(e, j + 1)


@spec([ROWS, 'int'], 'bytes')
def text_of(ls, k):
    """The first k lines."""
    if k <= 0:
        return b''
    return text_of(ls, k - 1) + ls[k - 1][0] + b'\n'


@lemma({'p': ROWS, 'q': ROWS, 'j': 'int'}, props=['C08'])
class at_prefix:
    def requires(p, j):
        return 0 <= j and j < len(p)

    def ensures(p, q, j):
        return (p + q)[j] == p[j]


@lemma({'p': ROWS, 'i': 'int'}, props=['C08'])
class take_next:
    def requires(p, i):
        return 0 <= i and i < len(p)

    def ensures(p, i):
        return p[:i + 1] == p[:i] + [p[i]]


@lemma({'t': ROWS, 'a': ROWS, 'b': ROWS, 'h': ROW, 'i': 'int'}, props=['C08'])
class insert_at:
    def requires(t, a, b, h, i):
        return t == a + b and len(a) == i

    def ensures(t, a, b, h, i):
        return t[:i] + [h] + t[i:] == a + [h] + b


@lemma({'elems': ELEMS, 'nxt': dct('int', 'int'), 'k': 'int', 'j': 'int'}, props=['C08'])
class rows_at:
    """One entry per object, in order."""
    def requires(elems, k, j):
        return 0 <= j and j < k and k <= len(elems)

    def ensures(elems, nxt, k, j):
        r = rows(elems, nxt, k)
        return {'n': len(r) == k, 'row': r[j][0] == row(elems, nxt, j), 'num': r[j][1] is not None and r[j][1] == elems[j][1]}

    def measure(k):
        return k

    def hints(elems, nxt, k, j):
        p = rows(elems, nxt, k - 1)
        return {'ih': implies(j < k - 1, ih(elems, nxt, k - 1, j)), 'ih2': implies(k >= 2, ih(elems, nxt, k - 1, k - 2)),
                'cat': rows(elems, nxt, k) == p + [(row(elems, nxt, k - 1), elems[k - 1][1])],
                'one': implies(k == 1, len(p) == 0), 'len': len(p) == k - 1,
                'pre': implies(j < k - 1, at_prefix(p, [(row(elems, nxt, k - 1), elems[k - 1][1])], j)),
                'old': implies(j < k - 1, rows(elems, nxt, k)[j] == p[j]),
                'last': implies(j == k - 1, rows(elems, nxt, k)[j][0] == row(elems, nxt, j) and
                                rows(elems, nxt, k)[j][1] == elems[j][1])}


@lemma({'n': 'int', 'w': 'int'}, props=['C08'])
class padded_width:
    """A number that has at most w digits is written with exactly w."""
    def requires(n, w):
        return 0 <= n and w >= 1 and len(dec(n)) <= w

    def ensures(n, w):
        return len(pad0(n, w)) == w

    def hints(n, w):
        return zeros_len(w - len(dec(n)))


@lemma({'n': 'int'}, props=['C08'])
class zeros_len:
    def requires(n):
        return n >= 0

    def ensures(n):
        return len(zeros(n)) == n

    def measure(n):
        return n

    def hints(n):
        return implies(n > 0, ih(n - 1))


@lemma({'elems': ELEMS, 'nxt': dct('int', 'int'), 'j': 'int'}, props=['C08'])
class row_twenty:
    """Every entry is 20 bytes long with its line feed."""
    def requires(elems, nxt, j):
        use, num, gen, counter, _ = elems[j]
        return 0 <= j and j < len(elems) and gen >= 0 and counter >= 0 and len(dec(gen)) <= 5 and len(dec(gen + 1)) <= 5 \
            and len(dec(counter)) <= 10 and nxt[num] >= 0 and len(dec(nxt[num])) <= 10

    def ensures(elems, nxt, j):
        return len(row(elems, nxt, j) + b'\n') == 20

    def hints(elems, nxt, j):
        use, num, gen, counter, _ = elems[j]
        return {'a': padded_width(nxt[num], 10), 'b': padded_width(gen, 5), 'c': padded_width(gen + 1, 5),
                'd': padded_width(counter, 10)}


@contract('filestruct.format_xref_table', {'elems': ELEMS, 'trailer': 'any', 'next_free': dct('int', 'int')}, 'bytes',
          props=['C08'], raises='any', ghosts={'e': ROWS})
class format_xref_table_c:
    """The keyword, one header per subsection with the count of the entries below it, every entry in order, the trailer."""
    def requires(elems, next_free, e):
        return len(elems) >= 1 and e == rows(elems, next_free, len(elems))

    def ensures(trailer, e, result):
        ls = [header(e, 0)] + lines_from(e, 0)
        return result == b'xref\n' + text_of(ls, len(ls)) + b'trailer\n' + serialized(trailer, 0) + b'\n'

    def _inv0(elems, next_free, xref_table, _k):
        return xref_table == rows(elems, next_free, _k)

    def _inv1(e, xref_table, i, num, nb):
        return {'i': 0 <= i and i < len(e), 'table': xref_table == e[:i] + lines_from(e, i),
                'nb': nb == run_length(e, i), 'num': num is not None and num == e[i][1]}

    def _h1(e, elems, next_free, xref_table, xref_table_pre1, num, i):
        return {'cut': e[:i + 1] + e[i + 1:] == e, 'cut1': len(e[:i + 1]) == i + 1,
                'e': at_prefix(e[:i + 1], e[i + 1:], i),
                'pre': at_prefix(e[:i + 1], lines_from(e, i + 1), i),
                'cur': xref_table_pre1[i] == e[i],
                'row': rows_at(elems, next_free, len(elems), i), 'row1': rows_at(elems, next_free, len(elems), i + 1),
                'split': take_next(e, i),
                'ins': insert_at(xref_table_pre1, e[:i + 1], lines_from(e, i + 1), header(e, i + 1), i + 1),
                'new': implies(not follows(e, i + 1),
                               xref_table == e[:i + 1] + [header(e, i + 1)] + lines_from(e, i + 1)),
                'old': implies(follows(e, i + 1), xref_table == e[:i + 1] + lines_from(e, i + 1)),
                'num': num is not None and num == e[i][1],
                'lines': lines_from(e, i) == [e[i]] + ([] if follows(e, i + 1) else [header(e, i + 1)]) + lines_from(e, i + 1)}

    def _var1(i):
        return i

    def _inv2(xref_table, build_xref_table, _k):
        return build_xref_table == b'xref\n' + text_of(xref_table, _k)
    loops = {0: Loop(_inv0, types={'xref_table': ROWS}), 1: Loop(_inv1, _var1, hints=_h1), 2: Loop(_inv2)}

    def hints(e, xref_table):
        return {'all': xref_table == [header(e, 0)] + lines_from(e, 0)}

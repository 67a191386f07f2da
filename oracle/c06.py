"""C06: cross-reference tables and streams, entry for entry."""
import zlib
from .core import Fail, n
from . import gen, pdf
from .gen import Style, write
from pdfsyntax.objects import parse_xref_table_raw, parse_xref_stream_raw, expand_xref_index, Stream
from pdfsyntax.filestruct import parse_xref_table, parse_xref_stream


def g_entries(r, kinds='fnc', zero=True):
    ent = {}
    if zero and r.random() < 0.7:
        ent[0] = ('f', r.randint(0, 9), 65535)
    base = r.choice([1, 1, 5, 250, 70000])
    for k in r.sample(range(base, base + 30), r.randint(0 if ent else 1, 12)):
        t = r.choice(kinds)
        if t == 'n':
            ent[k] = ('n', r.choice([0, 9, 15, 255, 256, 65535, 65536, r.randint(0, 10**7), r.randint(0, 9999999999)]), r.choice([0, 0, 1, 300, 65535]))
        elif t == 'f':
            ent[k] = ('f', r.choice([0, 1, r.randint(0, 10**6)]), r.choice([0, 1, 2, 65535]))
        else:
            ent[k] = ('c', r.choice([1, 2, 300, r.randint(1, 10**5)]), r.choice([0, 1, 5, 255, 256, 999]))
    return ent


def expected(ent, order):
    """The locations, in row order."""
    out = []
    for k in order:
        if k == 0:
            continue
        t, a, b = ent[k]
        if t == 'n':
            out.append(('n', k, a, b))
        elif t == 'c':
            out.append(('c', k, a, b))
        else:
            out.append(('f', k, b))
    return out


def normal(xref):
    out = []
    for x in xref[1:]:
        if 'DELETED' in x:
            if 'abs_pos' in x or 'env_num' in x:
                raise Fail('a free entry has a location', entry=x)
            out.append(('f', x['o_num'], x['o_gen']))
        elif 'env_num' in x:
            out.append(('c', x['o_num'], x['env_num'], x['o_pos']))
        else:
            out.append(('n', x['o_num'], x['abs_pos'], x['o_gen']))
    return out


def location_rows(rows):
    return [x for x in rows if x[0] != 'f']


@n(4000)
def tables(r):
    ent = g_entries(r, 'nnnf')
    L = {'split': r.random() < 0.5}
    eol = r.choice([b'\n', b'\r\n', b'\r'])
    body = pdf.xref_table(r, L, ent, eol)
    if r.random() < 0.1:
        body = body.replace(b'xref' + eol, b'xref' + eol + b'0 0' + eol, 1)
    tr = {'/Size': max(ent) + 1, '/Root': gen.ref(1)}
    pre = r.choice([b'', b'1 0 obj\nnull\nendobj\n'])
    data = pre + body + b'trailer' + r.choice([eol, b' ', b'']) + write(tr) + eol + b'startxref\n0\n%%EOF\n'
    _, _, kind, raw = parse_xref_table_raw(data, len(pre))
    if kind != 'XREFTABLE' or not gen.same(gen.model(raw['trailer']), tr):
        raise Fail('wrong trailer', data=data, result=raw)
    order = []
    rows = [x for x in raw['table'] if len(x) == 4]
    heads = [x for x in raw['table'] if len(x) == 2]
    sec = pdf.read_section(data, len(pre))
    order = [k for k, _ in sec.rows]
    exp = [(a, k, b, t.encode()) for k, (t, a, b) in sec.rows]
    if rows != exp or heads != sec.heads:
        raise Fail('rows differ', data=data, result=raw['table'], expected=exp, subsections=sec.heads)
    off = r.choice([0, 1000])
    x = parse_xref_table(data, len(pre), off)
    got = location_rows(normal(x))
    want = location_rows(expected(ent, order))
    if got != want:
        raise Fail('locations differ', data=data, result=x, expected=want)
    t = x[0]
    if t['abs_pos'] != off + data.find(b'trailer') or t['xref_table_pos'] != off + len(pre):
        raise Fail('section located elsewhere', data=data, result=t)
    return body


def g_stream(r, ent, order_split=True):
    L = {'split': order_split and r.random() < 0.4, 'wide': r.choice([0, 0, 1, 2]), 'w0': r.random() < 0.4,
         'filter': r.choice(['flate', 'none', 'ahx', 'up'])}
    return L


@n(4000)
def streams(r):
    kinds = r.choice(['fnc', 'n', 'nc', 'nf'])
    ent = g_entries(r, kinds, zero=kinds != 'n')
    if not ent:
        return None
    L = g_stream(r, ent)
    blk = pdf.xref_stream(r, L, ent, {'/Size': max(ent) + 1}, 77, Style())
    sec = pdf.read_section(blk, 0)
    order = [k for k, _ in sec.rows]
    _, _, o, _ = gen.parse_indirect(blk, 0)
    data = pdf.decode(o)
    s = Stream(o.d, data, o.raw)
    keep = dict(o.d)
    _, _, kind, raw = parse_xref_stream_raw(s, 5)
    exp = []
    for k, (t, a, b) in sec.rows:
        if t == 'c':
            exp.append((b, a, k, 0, b'n'))
        else:
            exp.append((a, None, k, b, t.encode()))
    got = [tuple(x[:5]) for x in raw['table']]
    if got != exp:
        raise Fail('rows differ', W=o.d['/W'], Index=o.d.get('/Index'), rows=data, result=got, expected=exp)
    subs = [x[6] for x in raw['table']]
    if subs != [i for i, (st, c) in enumerate(sec.heads) for _ in range(c)]:
        raise Fail('subsections differ', W=o.d['/W'], Index=o.d.get('/Index'), result=subs)
    x = parse_xref_stream(s, 5, 77)
    got = location_rows(normal(x))
    want = location_rows(expected(ent, order))
    if got != want:
        raise Fail('locations differ', W=o.d['/W'], Index=o.d.get('/Index'), rows=data, result=x, expected=want)
    if x[0]['xref_stream_num'] != 77 or x[0]['abs_pos'] != 5:
        raise Fail('section located elsewhere', result=x[0])
    if keep != o.d:
        raise Fail('reading modified the dictionary', before=keep, after=o.d)
    return data, o.d['/W']


@n(3000)
def widths(r):
    """Any field widths, written by hand."""
    w = [r.choice([0, 1, 1, 2, 3]), r.choice([1, 2, 3, 4, 5, 8]), r.choice([0, 1, 2, 3])]
    nrow = r.randint(0, 6)
    first = r.randint(0, 300)
    data, exp = b'', []
    index = []
    k = first
    for i in range(nrow):
        if i == 0 or r.random() < 0.3:
            k += r.randint(0, 4)
            index += [k, 0]
        index[-1] += 1
        t = r.choice([0, 1, 2]) if w[0] else 1
        a = r.randrange(256 ** w[1]) if r.random() < 0.5 else r.randrange(min(256 ** w[1], 300))
        b = r.randrange(256 ** w[2]) if w[2] else 0
        data += (t.to_bytes(w[0], 'big') if w[0] else b'') + a.to_bytes(w[1], 'big') + (b.to_bytes(w[2], 'big') if w[2] else b'')
        exp.append((b, a, k, 0, b'n') if t == 2 else (a, None, k, b, b'f' if t == 0 else b'n'))
        k += 1
    s = Stream({'/Type': '/XRef', '/W': w, '/Index': index, '/Size': 999}, data, data)
    _, _, _, raw = parse_xref_stream_raw(s, 0)
    got = [tuple(x[:5]) for x in raw['table']]
    if got != exp:
        raise Fail('rows differ', W=w, Index=index, rows=data, result=got, expected=exp)
    return w, data


@n(1500)
def index_pairs(r):
    idx, exp = [], []
    for s in range(r.randint(0, 6)):
        a, c = r.randint(0, 500), r.choice([0, 1, 2, 3, 10])
        idx += [a, c]
        exp += [(a + j, s) for j in range(c)]
    got = expand_xref_index(list(idx))
    if [tuple(x) for x in got] != exp:
        raise Fail('wrong expansion', index=idx, result=got, expected=exp)
    return idx


CHECKS = [tables, streams, widths, index_pairs]

"""C08: cross-reference sections as written."""
from .core import Fail, n
from . import gen, pdf
from .gen import ref
from .sim import Sim, write_bytes
from .c07 import strict
from pdfsyntax import api
from pdfsyntax.filestruct import format_xref_table, format_xref_stream, circular_deleted
from pdfsyntax.docstruct import force_xref_stream, group_obj_into_stream


def g_change_set(r):
    """Entries of one revision: object 0, then objects by number."""
    base = r.choice([1, 1, 2, 9, 254, 65530, 10**6])
    nums = sorted(r.sample(range(base, base + r.choice([3, 8, 30])), r.randint(0, 3)) +
                  ([] if r.random() < 0.5 else r.sample(range(base + 40, base + 60), r.randint(1, 6))))
    dele = {k for k in nums if r.random() < 0.35}
    return nums, dele


def circle(free, log, **d):
    """free: num -> next. One circular list through 0 that holds every free entry."""
    seen, k = [], 0
    while True:
        seen.append(k)
        if k not in free:
            raise Fail(f'the free list leads to {k}, which is not free', log=log, **d)
        k = free[k]
        if k == 0:
            break
        if k in seen:
            raise Fail('the free list is not circular through 0', log=log, **d)
    if set(seen) != set(free):
        raise Fail('free entries outside the circular list', log=log, free=free, **d)


@n(4000)
def circular(r):
    nums, dele = g_change_set(r)
    order = list(nums)
    if r.random() < 0.5:
        r.shuffle(order)
    ch = [(complex(r.choice([0, 0, 1, 7]), k), 'd' if k in dele else r.choice('au')) for k in order]
    res = circular_deleted(list(ch))
    if set(res) != dele | {0}:
        raise Fail('wrong members', changes=ch, result=res)
    circle(res, None, changes=ch)
    return ch


def g_elems(r, comp):
    nums, dele = g_change_set(r)
    el = [('f', 0, 65534, None, None)]
    for k in nums:
        if k in dele:
            el.append(('f', k, r.choice([0, 1, 3]), None, None))
        elif comp and r.random() < 0.4:
            el.append(('n', k, 0, r.choice([0, 1, 255, 256, 70000]), r.choice([1, 255, 256, 70000])))
        else:
            el.append(('n', k, r.choice([0, 0, 0, 2, 300, 65535]), r.choice([9, 15, 255, 256, 65535, 65536, r.randint(0, 2**24), 2**24, 2**32, 9999999999]), None))
    if r.random() < 0.3:
        el = el[1:] or el
    free = [e[1] for e in el if e[0] == 'f']
    r.shuffle(free)
    nf = {a: b for a, b in zip(free, free[1:] + free[:1])}
    return el, nf


def expect_rows(el, nf):
    out = []
    for use, k, g, c, env in el:
        if use == 'f':
            out.append((k, ('f', nf[k], g + 1)))
        elif env:
            out.append((k, ('c', env, c)))
        else:
            out.append((k, ('n', c, g)))
    return out


def check_rows(sec, el, nf, data):
    if sec.rows != expect_rows(el, nf):
        raise Fail('the section does not hold exactly its entries in order', elems=el, next_free=nf, written=data, read=sec.rows)
    for s, c in sec.heads:
        if c < 1:
            raise Fail('an empty subsection', elems=el, written=data)
    for (s, c), (s2, _) in zip(sec.heads, sec.heads[1:]):
        if s + c >= s2:
            raise Fail('subsections not in increasing order or not maximal', elems=el, heads=sec.heads, written=data)


@n(3000)
def tables(r):
    el, nf = g_elems(r, False)
    tr = {'/Size': el[-1][1] + 1, '/Root': ref(1)}
    data = format_xref_table(list(el), dict(tr), dict(nf))
    try:
        sec = pdf.read_section(data, 0)
    except pdf.Bad as e:
        raise Fail(f'not a cross-reference table: {e}', elems=el, next_free=nf, written=data)
    if sec.trailer != tr:
        raise Fail('wrong trailer', elems=el, written=data)
    check_rows(sec, el, nf, data)
    return el


@n(3000)
def streams(r):
    el, nf = g_elems(r, True)
    tr = {'/Size': el[-1][1] + 1, '/Root': ref(1)}
    if r.random() < 0.6:
        tr['/Filter'] = r.choice(['/FlateDecode', '/ASCIIHexDecode', ['/ASCIIHexDecode', '/FlateDecode']])
    num = r.choice([3, 77, el[-1][1]])
    data = format_xref_stream(list(el), dict(tr), dict(nf), num)
    try:
        sec = pdf.read_section(data, 0)
    except (pdf.Bad, KeyError, IndexError, ValueError) as e:
        raise Fail(f'not a cross-reference stream: {e!r}', elems=el, next_free=nf, written=data)
    if sec.num != num:
        raise Fail('wrong object number', elems=el, written=data)
    check_rows(sec, el, nf, data)
    if any(not gen.same(sec.trailer.get(k), v) for k, v in tr.items()):
        raise Fail('wrong trailer entries', elems=el, written=data)
    return el


def sections(doc, data, n_new, log):
    for sec in doc.secs[:n_new]:
        prev = -1
        for s, c in sec.heads:
            if s <= prev:
                raise Fail('subsections out of order', log=log, file=data, heads=sec.heads)
            prev = s + c - 1
        free = {k: e[1] for k, e in sec.entries.items() if e[0] == 'f'}
        circle(free, log, file=data)
        size = sec.trailer['/Size']
        if max(sec.entries) >= size:
            raise Fail('/Size too small', log=log, file=data)
        if sec.kind == 'stream' and sec.trailer['/W'][0] == 0:
            pass


@n(900, limit=10.0)
def files(r):
    s = Sim(r, kinds=r.choice([None, ['stream'], ['table']]))
    for _ in range(r.randint(1, 10)):
        s.step()
    if r.random() < 0.5:
        s.commit()
    data = write_bytes(s.doc)
    if s.pending:
        s.committed_changes.append(s.pending)
    sections(strict(data, s.log), data, len(s.committed_changes), s.log)
    return data


@n(250, limit=10.0)
def squashed(r):
    s = Sim(r, maxpages=3)
    d = api.squash(s.doc) if r.random() < 0.5 else api.compress(s.doc)
    data = write_bytes(d)
    sections(strict(data, s.log), data, 1, s.log)
    return data


CHECKS = [circular, tables, streams, files, squashed]

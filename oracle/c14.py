"""C14: concatenation."""
from .core import Fail, n
from . import gen, pdf
from .gen import ref, same, model
from .sim import write_bytes
from .ops import g_session, lib_state, Iso, is_infra
from .c13 import page_values, check_selection
from pdfsyntax import api
from pdfsyntax.docstruct import concat, keep_pages, remove_pages, number_pages, flat_page_tree


def check_concat(left, right, res, tl, log):
    """left, right: (state, root) before; res: the document."""
    (st, root), (so, ro) = (left, right) if tl else (right, left)
    sr, rr, _ = lib_state(res)
    if rr != root:
        raise Fail('the receiving document has another catalog', log=log)
    pages_t = st[int(root.imag)][1]['/Pages']
    for k, (g, v) in st.items():
        if k in (int(root.imag), int(pages_t.imag)):
            continue
        if k not in sr or sr[k][0] != g or not same(sr[k][1], v):
            raise Fail(f'object {k} of the receiving document changed', log=log, before=v, after=sr.get(k))
    try:
        pr = page_values(sr, rr)
        m = pdf.counts(sr, rr)
    except Exception as e:
        raise Fail(f'broken page tree: {e!r}', log=log)
    pl, prt = page_values(*left), page_values(*right)
    if len(pr) != len(pl) + len(prt) or m != len(pr) or number_pages(res) != len(pr):
        raise Fail('wrong number of pages', log=log, read=len(pr), left=len(pl), right=len(prt))
    if [int(x[0].imag) for x in flat_page_tree(res)] != [x[0] for x in pr]:
        raise Fail('page list', log=log)
    mine, other = (pr[:len(pl)], pr[len(pl):]) if tl else (pr[len(pl):], pr[:len(pl)])
    want_m, want_o = (pl, prt) if tl else (prt, pl)
    for a, b in zip(want_m, mine):
        if not same(list(a), list(b)):
            raise Fail(f'page {a[0]} of the receiving document differs', log=log, before=a, after=b)
    pages_o = so[int(ro.imag)][1]['/Pages']
    iso = Iso(so, sr, ok_null={int(ro.imag)}, skip={(int(pages_o.imag), '/Parent')})
    for a, b in zip(want_o, other):
        d = iso.values(ref(a[0], so[a[0]][0]), ref(b[0], sr[b[0]][0]), f'page {a[0]}')
        d = d or iso.values(a[1], b[1], f'page {a[0]} effective ')
        if d:
            raise Fail('imported page differs', log=log, where=d)
    bad = set(iso.bwd) & set(st)
    if bad:
        raise Fail('imported object takes the number of an object of the receiving document', log=log, numbers=bad)
    return sr, rr


@n(2500)
def two(r):
    a, b = g_session(r, maxpages=4)(), None
    log = ['A: ' + ', '.join(a.log)]
    if r.random() < 0.1:
        db = a.doc
        log.append('B = A')
    else:
        b = g_session(r, maxpages=4)()
        db = b.doc
        log.append('B: ' + ', '.join(b.log))
    la, lb = lib_state(a.doc)[:2], lib_state(db)[:2]
    tl = r.random() < 0.5
    if tl and r.random() < 0.5:
        res = a.doc + db
        log.append('A + B')
    else:
        res = concat(a.doc, db, tl)
        log.append(f'concat(A, B, {tl})')
    st, root = check_concat(la, lb, res, tl, log)
    k = r.random()
    if k < 0.4:        # later page operations
        npg = number_pages(res)
        want = set(r.sample(range(npg), r.randint(1, npg)))
        res = keep_pages(res, set(want)) if r.random() < 0.5 else remove_pages(res, set(range(npg)) - want)
        log.append(f'keep or remove -> {want}')
        check_selection(st, root, res, want, log)
    elif k < 0.6:      # and again
        c = g_session(r, maxpages=3)()
        log.append('C: ' + ', '.join(c.log))
        tl2 = r.random() < 0.5
        res2 = concat(res, c.doc, tl2)
        log.append(f'concat(., C, {tl2})')
        check_concat((st, root), lib_state(c.doc)[:2], res2, tl2, log)
    elif k < 0.8:
        d2 = api.loads(write_bytes(res))
        log.append('write, loads')
        check_selection(st, root, d2, set(range(number_pages(res))), log)
    return log


CHECKS = [two]

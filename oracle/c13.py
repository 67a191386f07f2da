"""C13: page lists, keeping, removing and slicing pages."""
from .core import Fail, n
from . import gen, pdf
from .gen import ref, same, model
from .sim import Sim, write_bytes, check_pages
from .ops import g_session, lib_state, needed, is_page_node, refs_in
from pdfsyntax import api
from pdfsyntax.docstruct import keep_pages, remove_pages, flat_page_tree, number_pages


@n(2500)
def lists(r):
    """The list of pages of a document of known structure."""
    d = pdf.g_doc(r, r.choice([3, 8, 20]), nrev=r.choice([1, 1, 2]))
    f = pdf.build(d, r)
    doc = api.loads(f.data)
    log = [f'loads({f.data!r})']
    st = d.state()
    check_pages(doc, st, ref(d.root), log)
    pl = pdf.page_list(st, ref(d.root))
    if len(doc) != len(pl) or len(api.pages(doc)) != len(pl):
        raise Fail('wrong number of pages', log=log, read=len(doc), expected=len(pl))
    m = r.randint(1, len(pl) + 2)
    got = api.flat_page_tree(doc, max_nb=m)
    if [int(x[0].imag) for x in got][:m] != [k for k, _ in pl][:m]:
        raise Fail(f'wrong list of the first {m} pages', log=log, read=got, expected=pl)
    return len(pl), f.data


def page_values(st, root):
    out = []
    for k, eff in pdf.page_list(st, root):
        own = {a: v for a, v in st[k][1].items() if a not in pdf.INH and a != '/Parent'}
        out.append((k, eff, own))
    return out


def check_selection(st, root, doc, want, log):
    """doc must hold exactly the pages of the given positions of state st."""
    st2, root2, _ = lib_state(doc)
    before = page_values(st, root)
    sel = [before[i] for i in sorted(want)]
    try:
        after = page_values(st2, root2)
    except Exception as e:
        raise Fail(f'page tree cannot be followed: {e!r}', log=log, state=st2)
    if [x[0] for x in after] != [x[0] for x in sel]:
        raise Fail('wrong pages', log=log, read=[x[0] for x in after], expected=[x[0] for x in sel])
    for a, b in zip(sel, after):
        if not same(a[1], b[1]):
            raise Fail(f'page {a[0]}: effective attributes changed', log=log, before=a[1], after=b[1])
        if not same(a[2], b[2]):
            raise Fail(f'page {a[0]} changed', log=log, before=a[2], after=b[2])
    try:
        m = pdf.counts(st2, root2)
    except Exception as e:
        raise Fail(f'wrong /Count: {e}', log=log)
    if m != len(sel) or number_pages(doc) != len(sel):
        raise Fail('wrong number of pages', log=log, read=number_pages(doc), expected=len(sel))
    got = [int(x[0].imag) for x in flat_page_tree(doc)]
    if got != [x[0] for x in sel]:
        raise Fail('wrong page list', log=log, read=got)
    need = needed(st, [x[1] for x in sel] + [x[2] for x in sel])
    for k in need:
        if k not in st2:
            raise Fail(f'object {k} that a remaining page needs is gone', log=log, value=st[k])
        if st2[k][0] != st[k][0] or not same(st2[k][1], st[k][1]):
            raise Fail(f'object {k} that a remaining page needs changed', log=log, before=st[k], after=st2[k])
    return st2, root2


@n(2500)
def select(r):
    """Chains of selections on documents with a history, and the written result."""
    s = g_session(r, maxpages=r.choice([2, 4, 9]))()
    doc, log = s.doc, list(s.log)
    st, root, _ = lib_state(doc)
    for _ in range(r.randint(1, 3)):
        npg = len(pdf.page_list(st, root))
        if npg == 0:
            break
        k = r.choice(['keep', 'keep1', 'remove', 'remove1', 'int', 'slice', 'iter'])
        if k == 'keep':
            want = set(r.sample(range(npg), r.randint(1, npg)))
            new, t = keep_pages(doc, set(want)), f'keep_pages({want})'
        elif k == 'keep1':
            x = r.randrange(npg)
            want = {x}
            new, t = keep_pages(doc, x), f'keep_pages({x})'
        elif k == 'remove':
            dl = set(r.sample(range(npg), r.randint(0, npg - 1)))
            want = set(range(npg)) - dl
            new, t = remove_pages(doc, set(dl)), f'remove_pages({dl})'
        elif k == 'remove1':
            if npg < 2:
                continue
            x = r.randrange(npg)
            want = set(range(npg)) - {x}
            new, t = remove_pages(doc, x), f'remove_pages({x})'
        elif k == 'int':
            x = r.randrange(-npg, npg)
            want = {x % npg}
            new, t = doc[x], f'[{x}]'
        elif k == 'slice':
            a, b, c = (r.choice([None, r.randint(-npg - 1, npg + 1)]), r.choice([None, r.randint(-npg - 1, npg + 1)]),
                       r.choice([None, None, 1, 2, 3, -1, -2]))
            want = set(list(range(npg))[a:b:c])
            if not want:
                continue
            new, t = doc[a:b:c], f'[{a}:{b}:{c}]'
        else:
            all_ = list(doc)
            log.append('list(doc)')
            if len(all_) != npg:
                raise Fail('iteration gives another number of pages', log=log, read=len(all_), expected=npg)
            x = r.randrange(npg)
            want, new, t = {x}, all_[x], f'list(doc)[{x}]'
        log.append(t)
        st, root = check_selection(st, root, new, want, log)
        doc = new
    data = write_bytes(doc)
    d2 = api.loads(data)
    log.append('write, loads')
    npg = len(pdf.page_list(st, root))
    check_selection(st, root, d2, set(range(npg)), log)
    return log


CHECKS = [lists, select]

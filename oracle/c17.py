"""C17: rotating pages and adding annotations."""
from .core import Fail, n
from . import gen, pdf
from .gen import ref, same, model
from .sim import write_bytes
from .ops import g_session, lib_state
from .c03 import literal, hexa, text as spec_text
from pdfsyntax import api
from pdfsyntax.docstruct import flat_page_tree


def unchanged(st, s2, but, log, new=()):
    for k in list(st) + [x for x in s2 if x not in st]:
        if k in but or k in new:
            continue
        if k not in st or k not in s2 or st[k][0] != s2[k][0] or not same(st[k][1], s2[k][1]):
            raise Fail(f'object {k} changed', log=log, before=st.get(k), after=s2.get(k))


@n(2500)
def rotations(r):
    s = g_session(r, maxpages=r.choice([1, 4, 8]))()
    d, log = s.doc, list(s.log)
    for _ in range(r.randint(1, 3)):
        st, root, _ = lib_state(d)
        pl = pdf.page_list(st, root)
        deg = r.choice([90, 180, 270, 0, -90, 360, 450, -630])
        sel = r.choice([[], list(range(len(pl))), [r.randrange(len(pl))], r.sample(range(len(pl)), r.randint(1, len(pl)))])
        log.append(f'rotate({deg}, {sel})')
        d = api.rotate(d, deg, list(sel)) if sel or r.random() < 0.5 else api.rotate(d, deg)
        s2, root2, _ = lib_state(d)
        p2 = pdf.page_list(s2, root2)
        if [k for k, _ in p2] != [k for k, _ in pl] or root2 != root:
            raise Fail('other pages', log=log)
        rot = set()
        for i, ((k, a), (_, b)) in enumerate(zip(pl, p2)):
            old = pdf.deref(st, a.get('/Rotate')) or 0
            if not sel or i in sel:
                rot.add(k)
                if b.get('/Rotate') != (old + deg) % 360:
                    raise Fail(f'page {i}: wrong rotation', log=log, before=old, after=b.get('/Rotate'))
                own, own2 = dict(st[k][1]), dict(s2[k][1])
                own.pop('/Rotate', None)
                own2.pop('/Rotate', None)
                if not same(own, own2):
                    raise Fail(f'page {i}: another attribute changed', log=log, before=own, after=own2)
        unchanged(st, s2, rot, log)
        lay = api.page_layouts(d)
        if [x[1] for x in lay] != [b.get('/Rotate') for _, b in p2]:
            raise Fail('page_layouts does not give the rotations', log=log, read=lay)
    return log


def g_text(r):
    n = r.choice([0, 1, 2, 5, 12])
    k = r.random()
    if k < 0.3:
        return ''.join(r.choice('ab() \\<>%[]/0123') for _ in range(n))
    if k < 0.6:
        return ''.join(chr(r.randrange(1, 256)) for _ in range(n))
    if k < 0.8:
        return ''.join(r.choice('\u2022\u0141\ufb01\u20ac\u02d8ae(\\)\u4e2d\r\n\u00fe\u00ff\u00ad\x7f\x9f') for _ in range(n))
    return ''.join(chr(r.choice([r.randrange(1, 0xd800), r.randrange(0xe000, 0x10000), r.randrange(0x10000, 0x110000),
                                 0x5c0d, 0x0a28, 0x295c])) for _ in range(n))


@n(2500)
def annotations(r):
    s = g_session(r, maxpages=4)()
    d, log = s.doc, list(s.log)
    for _ in range(r.randint(1, 3)):
        st, root, _ = lib_state(d)
        pl = pdf.page_list(st, root)
        i = r.randrange(len(pl))
        num, (g, page) = pl[i][0], st[pl[i][0]]
        old = pdf.deref(st, page.get('/Annots'))
        if old is not None and not isinstance(old, list):
            continue
        if isinstance(page.get('/Annots'), complex) and sum(
                1 for k, (_, v) in st.items() if pdf.mentions(v, int(page['/Annots'].imag))) > 1:
            continue        # an array shared with other objects
        t, opened = g_text(r), r.random() < 0.3
        rect = [r.randint(0, 99) for _ in range(4)]
        log.append(f'add_text_annotation({i}, {t!r}, {rect}, {opened})')
        d = api.add_text_annotation(d, i, t, list(rect), opened)
        for d in ([d, api.loads(write_bytes(d))] if r.random() < 0.3 else [d]):
            s2, root2, _ = lib_state(d)
            p2 = pdf.page_list(s2, root2)
            if [k for k, _ in p2] != [k for k, _ in pl] or not all(same(a[1], b[1]) for a, b in zip(pl, p2)):
                raise Fail('other pages', log=log)
            new = pdf.deref(s2, s2[num][1].get('/Annots'))
            if not isinstance(new, list) or new[:-1] != (old or []) or len(new) != len(old or []) + 1:
                raise Fail('wrong annotations', log=log, before=old, after=new)
            own, own2 = dict(page), dict(s2[num][1])
            own.pop('/Annots', None)
            own2.pop('/Annots', None)
            if not same(own, own2):
                raise Fail('another attribute of the page changed', log=log, before=own, after=own2)
            a = pdf.deref(s2, new[-1])
            if not isinstance(new[-1], complex) or not isinstance(a, dict) or int(new[-1].imag) in st:
                raise Fail('the annotation is not a new object', log=log, annotation=new[-1])
            tok = a.get('/Contents')
            if not isinstance(tok, bytes):
                raise Fail('/Contents is not a string', log=log, annotation=a)
            got = spec_text(literal(tok[1:-1]) if tok[:1] == b'(' else hexa(tok[1:-1]))
            if got != t:
                raise Fail('wrong text', log=log, written=tok, text=got)
            if not same([a.get('/Type'), a.get('/Subtype'), a.get('/Rect'), a.get('/Open')], ['/Annot', '/Text', rect, opened]):
                raise Fail('wrong annotation', log=log, annotation=a)
            but = {num, int(new[-1].imag)}
            for x in (page.get('/Annots'), s2[num][1].get('/Annots')):
                if isinstance(x, complex):
                    but.add(int(x.imag))
            infra = {k for k, (_, v) in s2.items() if k not in st and isinstance(v, gen.PS) and v.d.get('/Type') == '/XRef'}
            unchanged(st, s2, but | infra, log)
    return log


CHECKS = [rotations, annotations]

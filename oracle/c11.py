"""C11: an object reads as last written, in whatever order things are read."""
from .core import Fail, n
from . import gen, pdf
from .gen import ref, same, model, PS
from .sim import Sim, write_bytes
from pdfsyntax import api
from pdfsyntax.docstruct import get_object, memoize_obj_in_cache, update_object, add_object, copy_doc


@n(1600)
def sessions(r):
    s = Sim(r)
    for _ in range(r.randint(1, 14)):
        s.step(read=0.4, commit=0.2)
    if r.random() < 0.5:
        s.check_all()
        s.check_pages()
    else:
        s.check_pages()
        s.check_all()
    return s.log


@n(900)
def orders(r):
    """The same file read in different orders, through different calls."""
    d = pdf.g_doc(r, 4)
    f = pdf.build(d, r)
    st = d.state()
    for _ in range(2):
        doc = api.loads(f.data)
        nums = list(st)
        r.shuffle(nums)
        for k in nums:
            g, v = st[k]
            how = r.randrange(4)
            if how == 0:
                got = doc.obj(k)
            elif how == 1:
                got = get_object(doc, ref(k, g))
            elif how == 2:
                got = doc.get_object(ref(k, g))
            else:
                cache = memoize_obj_in_cache(doc.index, doc.data[-1]['fdata'], k)
                if len(cache) <= k:
                    raise Fail(f'object {k} missing from a fresh cache', file=f.data)
                got = cache[k]
            if not same(model(got), v):
                raise Fail(f'object {k} reads wrong', file=f.data, how=how, order=nums, read=got, expected=v)
            if r.random() < 0.2:
                api.pages(doc)
        dead = [k for k in range(1, f.top + 4) if k not in st and k not in f.extra]
        for k in dead:
            if get_object(doc, ref(k)) is not None:
                raise Fail(f'free object {k} reads as something', file=f.data, read=get_object(doc, ref(k)))
    return f.data


@n(600)
def versions(r):
    """Several documents grown from one: each sees its own values."""
    s = Sim(r, maxpages=3)
    fam = [(s.doc, dict(s.st))]
    log = s.log
    for _ in range(r.randint(2, 8)):
        d, st = r.choice(fam)
        s.doc, s.st, s.pending = d, dict(st), {}
        top = len(d.index[-1])
        c = r.random()
        if c < 0.6 and s.free_nums():
            k = r.choice(s.free_nums())
            lv, mv = s.value()
            nd, ns = update_object(d, k, lv), {**st, k: (st[k][0], mv)}
            log.append(f'update {k}')
        elif c < 0.75 and s.free_nums():
            k = r.choice(s.free_nums())
            nd, ns = update_object(d, k, None), {a: b for a, b in st.items() if a != k}
            log.append(f'delete {k}')
        else:
            lv, mv = s.value()
            nd, ir = add_object(d, lv)
            k = int(ir.imag)
            ns = {**st, k: (0, mv)}
            log.append(f'add {k}')
        fam.append((nd, ns))
        dd, ss = r.choice(fam)
        for k in r.sample(list(ss), min(3, len(ss))):
            got = model(get_object(dd, ref(k, ss[k][0])))
            if not same(got, ss[k][1]):
                raise Fail(f'object {k} reads wrong in a sibling document', log=log, read=got, expected=ss[k][1])
    r.shuffle(fam)
    for dd, ss in fam:
        for k in ss:
            got = model(get_object(dd, ref(k, ss[k][0])))
            if not same(got, ss[k][1]):
                raise Fail(f'object {k} reads wrong in a sibling document', log=log, read=got, expected=ss[k][1])
    return log


@n(300)
def compressed(r):
    """Object streams written by the library, several of them, with members updated later."""
    s = Sim(r, maxpages=3)
    d = api.loads(write_bytes(api.compress(s.doc)))
    s.log.append('compress, write, loads')
    doc = pdf.read(write_bytes(d))
    st = pdf.visible(doc.objects)
    s.doc, s.st, s.root, s.pending = d, st, doc.trailer['/Root'], {}
    s.extra = set(doc.objects) - set(st)
    s.gone = set()
    s.top = max(doc.objects)
    s.base = b''
    for _ in range(r.randint(1, 8)):
        s.step(read=0.3, commit=0.25)
    s.check_all()
    return s.log


CHECKS = [sessions, orders, versions, compressed]

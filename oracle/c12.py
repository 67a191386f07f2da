"""C12: write, open again, same document."""
from .core import Fail, n
from . import gen, pdf
from .gen import ref, same, model, PS
from .sim import Sim, write_bytes
from .ops import g_session, g_op, observe, diff
from pdfsyntax import api
from pdfsyntax.docstruct import get_object, trailer, in_use, number_pages
from pdfsyntax.objects import Stream


@n(1500)
def sessions(r):
    """Model against the reopened document, over several write cycles."""
    s = Sim(r)
    for _ in range(r.randint(1, 3)):
        for _ in range(r.randint(1, 6)):
            s.step()
        s.commit()
        data = write_bytes(s.doc)
        d2 = api.loads(data)
        s.log.append('write, loads')
        t = trailer(d2)
        if t.get('/Root') != s.root or t.get('/Info') != s.info:
            raise Fail('wrong trailer', log=s.log, read=t, root=s.root, info=s.info)
        extra = set(s.extra) | {int(x.imag) for x in in_use(d2)} - set(s.st)
        for k in extra - set(s.extra):
            o = get_object(d2, ref(k))
            if not (isinstance(o, Stream) and o['entries'].get('/Type') in ('/XRef', '/ObjStm')):
                raise Fail(f'object {k} appeared', log=s.log, read=o, file=data)
        ex0, s.extra = s.extra, extra
        s.check_all(d2)
        s.check_pages(d2)
        if r.random() < 0.6:
            s.doc = d2
        else:
            s.extra = ex0
    return s.log


def is_infra(o):
    return isinstance(o, PS) and o.d.get('/Type') in ('/XRef', '/ObjStm')


@n(1500, limit=15.0)
def operations(r):
    """Any chain of operations: the written file reopens as the same document."""
    s = g_session(r, maxpages=4)()
    d = s.doc
    done = []
    import copy
    for _ in range(r.randint(1, 4)):
        s2 = copy.copy(s)
        s2.doc = d
        s2.st = {int(x.imag): (int(x.real), model(get_object(d, x))) for x in in_use(d)}
        s2.root = trailer(d)['/Root']
        s2.extra = {k for k, (g, v) in s2.st.items() if is_infra(v)}
        s2.st = {k: x for k, x in s2.st.items() if k not in s2.extra}      # nothing refers to those
        t, f = g_op(r, s2, skip=('group', 'xrefstm'))
        try:
            d = f(d)
        except AttributeError:
            if 'annot' in t:        # /Annots is not an array
                continue
            raise
        done.append(t)
    a = observe(d, deep=False)
    data = write_bytes(d)
    d2 = api.loads(data)
    b = observe(d2, deep=False)
    log = dict(log=s.log, ops=done, file=data)
    if not same(a['pages'], b['pages']):
        raise Fail('other pages', **log, before=a['pages'], after=b['pages'])
    for k in ('/Root', '/Info'):
        if a['trailer'].get(k) != b['trailer'].get(k):
            raise Fail(f'other {k}', **log)
    A = {int(x.imag): (x, a['objects'][int(x.imag)]) for x in a['in_use']}
    B = {int(x.imag): (x, b['objects'][int(x.imag)]) for x in b['in_use']}
    A = {k: v for k, v in A.items() if not is_infra(v[1])}
    B = {k: v for k, v in B.items() if not is_infra(v[1])}
    for k in list(A) + [x for x in B if x not in A]:
        if k not in B or k not in A:
            v = (A.get(k) or B.get(k))[1]
            if v is None or v == {}:
                continue
            raise Fail(f'object {k} ' + ('is lost' if k in A else 'appeared'), value=v, **log)
        if A[k][0] != B[k][0] or not same(A[k][1], B[k][1]):
            raise Fail(f'object {k} differs', before=A[k], after=B[k], **log)
    return (s.log, done)


CHECKS = [sessions, operations]

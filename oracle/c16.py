"""C16: rewind."""
import copy
from .core import Fail, n
from . import gen, pdf
from .gen import ref, same, model
from .sim import Sim, write_bytes, check_pages
from .ops import lib_state, is_infra
from pdfsyntax import api
from pdfsyntax.docstruct import rewind, trailer


def expect(s, d, st, log):
    """Document d reads as state st."""
    t = trailer(d)
    if t.get('/Root') != s.root or t.get('/Info') != s.info:
        raise Fail('wrong trailer', log=log, read=t, root=s.root, info=s.info)
    s.check_all(d, st, 'object after rewind')
    s.check_pages(d, st)
    got = {k for k, (g, v) in lib_state(d)[0].items() if not is_infra(v)}
    want = {k for k, (g, v) in st.items() if not is_infra(v)}
    if got - want - set(s.extra) or want - got:
        raise Fail('other objects are in use', log=log, read=got, expected=want)


def history(s):
    """States at the end of each closed revision."""
    return s.states


@n(2500)
def back(r):
    s = Sim(r)
    for _ in range(r.randint(0, 10)):
        s.step(commit=0.3)
    h = history(s)
    s.gone |= {k for st in h for k in st}
    d = s.doc
    if not h:
        if rewind(d) is not d:
            s.log.append('rewind()')
            s.check_all(rewind(d), s.st)
        return s.log
    for st in reversed(h):
        s.log.append('rewind()')
        d = rewind(d)
        if r.random() < 0.3:        # what is read first does not matter
            for k in r.sample(list(st), min(3, len(st))):
                api.get_object(d, ref(k, st[k][0]))
        expect(s, d, st, s.log)
    if len(d.index) != 1:
        raise Fail('wrong number of revisions', log=s.log, revisions=len(d.index))
    return s.log


@n(2500)
def forward(r):
    """Edits after a rewind."""
    s = Sim(r)
    for _ in range(r.randint(1, 8)):
        s.step(commit=0.3)
    for _ in range(r.randint(1, 2)):
        h = history(s)
        if not h:
            s.pending = {}
            break
        k = r.randint(1, len(h))
        s.gone |= {k for st in h for k in st}
        for _ in range(k):
            s.doc = rewind(s.doc)
        s.log.append(f'{k} x rewind()')
        s.st = dict(h[len(h) - k])
        del h[len(h) - k:]
        looked = r.random() < 0.5       # reading first must not matter, nor be needed
        if looked:
            expect(s, s.doc, s.st, s.log)
        s.pending = {0: 'x'}        # that revision is open again
        for _ in range(r.randint(0, 6)):
            s.step(commit=0.0)
            s.pending[0] = 'x'
        if looked:
            expect(s, s.doc, s.st, s.log)
        if r.random() < 0.7:
            s.commit()
            expect(s, s.doc, s.st, s.log)
            for _ in range(r.randint(0, 4)):
                s.step(commit=0.3)
    d2 = api.loads(write_bytes(s.doc))
    s.log.append('write, loads')
    extra = {k for k, (g, v) in lib_state(d2)[0].items() if is_infra(v)}
    s.extra = set(s.extra) | extra
    expect(s, d2, s.st, s.log)
    return s.log


CHECKS = [back, forward]

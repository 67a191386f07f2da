"""C10: operations leave the document they are given as it was."""
import copy
from .core import Fail, n
from . import gen, pdf
from .gen import ref, model
from .ops import observe, diff, scramble, g_session, g_op
from .sim import Sim, write_bytes
from pdfsyntax import api
from pdfsyntax.docstruct import *


def attempt(f, d):
    """Result, or None when the operation refuses this document."""
    try:
        return f(d)
    except Exception as e:
        return None


def compare(a, b, msg, **data):
    d = diff(a, b)
    if d:
        raise Fail(f'{msg}: {d[0]}', before=d[1], after=d[2], **data)


@n(1300, limit=15.0)
def unchanged(r):
    """observed before (half of the time) and after; the control never saw the operation."""
    make = g_session(r, maxpages=4)
    s, ctl = make(), make()
    if r.random() < 0.5:
        observe(s.doc, deep=False, order=r)
    done = []
    cur = s
    later = []
    for _ in range(r.choice([1, 1, 2, 3])):
        t, f = g_op(r, s)
        later.append(attempt(f, s.doc))
        done.append(t)
    # operations on the results must not reach the document either
    for d in later:
        if isinstance(d, Doc) and r.random() < 0.4:
            try:
                s2 = copy.copy(s)
                s2.doc = d
                t, f = g_op(r, s2)
                attempt(f, d)
                done.append('on the result: ' + t)
            except Exception:
                pass
    deep = r.random() < 0.5
    compare(observe(ctl.doc, deep), observe(s.doc, deep), f'the document changed', log=ctl.log, ops=done)
    return (ctl.log, done)


@n(1000, limit=15.0)
def values(r):
    """Whatever read access returns can be modified."""
    make = g_session(r, maxpages=3)
    s, ctl = make(), make()
    d = s.doc
    reads = [('get_object', lambda: [get_object(d, ref(k, g)) for k, (g, v) in s.st.items()]), ('trailer', lambda: trailer(d)),
             ('catalog', lambda: catalog(d)), ('pages', lambda: api.pages(d)), ('info', lambda: info(d)),
             ('flat_page_tree', lambda: flat_page_tree(d)), ('page_layouts', lambda: api.page_layouts(d)),
             ('changes', lambda: changes(d)), ('in_use', lambda: in_use(d)), ('doc.obj', lambda: [d.obj(k) for k in s.st]),
             ('get_object(list)', lambda: get_object(d, [1, [2]]))]
    done = []
    for _ in range(r.randint(1, 4)):
        nm, f = r.choice(reads)
        done.append(nm)
        try:
            v = f()
        except Exception as e:
            continue
        scramble(v, r)
    compare(observe(ctl.doc, False), observe(d, False), 'changing a value that was read changed the document', log=ctl.log, reads=done)
    return (ctl.log, done)


@n(700, limit=15.0)
def given(r):
    """A value handed over as an object, then read back and modified: the stored one stays."""
    s = g_session(r, maxpages=2)()
    v = gen.g_obj(r, 1, refs=False)
    while not isinstance(v, (dict, list)):
        v = gen.g_obj(r, 1, refs=False)
    keep = copy.deepcopy(v)
    if r.random() < 0.5 and s.free_nums():
        k = r.choice(s.free_nums())
        d = update_object(s.doc, k, v)
    else:
        d, ir = add_object(s.doc, v)
        k = int(ir.imag)
    got = get_object(d, ref(k, s.st.get(k, (0,))[0]))
    scramble(got, r)
    again = get_object(d, ref(k, s.st.get(k, (0,))[0]))
    if not gen.same(again, keep):
        raise Fail('changing a read value changed the stored object', stored=keep, reads=again)
    return repr(keep)


@n(700, limit=15.0)
def independent(r):
    """Results do not depend on other documents processed in between."""
    make = g_session(r, maxpages=3)
    a, b = make(), make()
    t, f = g_op(r, a)
    ra = attempt(f, a.doc)
    for _ in range(r.randint(1, 2)):
        o = g_session(r, maxpages=3)()
        t2, f2 = g_op(r, o)
        attempt(f2, o.doc)
        observe(o.doc, deep=False)
    b = make()
    rb = attempt(f, b.doc)
    if (ra is None) != (rb is None):
        raise Fail('an operation works or not depending on other documents', log=a.log, op=t)
    if isinstance(ra, Doc):
        compare(observe(ra, False), observe(rb, False), 'the result depends on other documents', log=a.log, op=t)
    return (a.log, t)


CHECKS = [unchanged, values, given, independent]

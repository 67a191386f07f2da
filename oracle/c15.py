"""C15: squash and compress."""
from .core import Fail, n
from . import gen, pdf
from .gen import ref, same, model
from .sim import write_bytes
from .ops import g_session, lib_state, Iso, is_infra, needed
from .c13 import page_values
from pdfsyntax import api
from pdfsyntax.docstruct import squash, number_pages, in_use, updates


def check(st, root, info, doc, log, decoded, consecutive=True, skip=()):
    s2, r2, i2 = lib_state(doc)
    iso = Iso(st, s2, decoded=decoded, skip=skip)
    d = iso.values(root, r2, 'Root')
    if d is None and info is not None:
        d = iso.values(info, i2, 'Info')
    if d:
        raise Fail('a reachable object differs', log=log, where=d)
    if info is None and i2 is not None:
        raise Fail('/Info appeared', log=log)
    nums = sorted(s2)
    if consecutive and nums != list(range(1, len(nums) + 1)):
        raise Fail('numbers are not consecutive from 1', log=log, numbers=nums)
    if any(s2[k][0] for k in s2):
        raise Fail('generation is not 0', log=log)
    try:
        a, b = page_values(st, root), page_values(s2, r2)
        m = pdf.counts(s2, r2)
    except Exception as e:
        raise Fail(f'broken page tree: {e!r}', log=log)
    if [iso.fwd[x[0]] for x in a] != [x[0] for x in b] or number_pages(doc) != len(a) or m != len(a):
        raise Fail('other pages', log=log)
    for x, y in zip(a, b):
        d = iso.values(x[1], y[1], f'page {x[0]}')
        if d:
            raise Fail('page differs', log=log, where=d)
    return s2


@n(2500)
def squashed(r):
    s = g_session(r, maxpages=4)()
    st, root, info = lib_state(s.doc)
    log = s.log + ['squash()']
    d2 = squash(s.doc)
    check(st, root, info, d2, log, False)
    if len(d2.index) != 1:
        raise Fail('more than one revision', log=log)
    d3 = api.loads(write_bytes(d2))
    log.append('write, loads')
    check(st, root, info, d3, log, False)
    if len(d3.index) != 2:
        raise Fail('more than one revision', log=log, revisions=len(d3.index))
    return log


@n(2000)
def compressed(r):
    s = g_session(r, maxpages=4)()
    st, root, info = lib_state(s.doc)
    log = s.log + ['compress()']
    d2 = api.compress(s.doc)
    check(st, root, info, d2, log, True, skip={(int(root.imag), '/Version')})
    d3 = api.loads(write_bytes(d2))
    log.append('write, loads')
    check(st, root, info, d3, log, True, skip={(int(root.imag), '/Version')})
    if len(d3.index) != 2:
        raise Fail('more than one revision', log=log, revisions=len(d3.index))
    return log


CHECKS = [squashed, compressed]

"""C07: revisions written by the library, read back by the strict reader."""
from .core import Fail, n
from . import gen, pdf
from .gen import PS, ref, same
from .sim import Sim, write_bytes
from pdfsyntax import api


def strict(data, log):
    try:
        return pdf.read(data)
    except pdf.Bad as e:
        raise Fail(f'the written file is wrong: {e}', log=log, file=data)
    except (KeyError, ValueError, IndexError) as e:
        raise Fail(f'the written file cannot be read: {type(e).__name__} {e}', log=log, file=data)


def check_sections(s, doc, data, log):
    """Sections of the revisions the library wrote: newest first in doc.secs."""
    ch = s.committed_changes
    base = 1 if s.file is None else len(s.d.revs)
    new = doc.secs[:len(ch)]
    if len(doc.secs) != base + len(ch):
        raise Fail(f'{len(doc.secs)} sections, expected {base + len(ch)}', log=log, file=data)
    for sec, c in zip(new, reversed(ch)):
        exp = {k for k, a in c.items() if a != 'x'}
        opt = {k for k, a in c.items() if a == 'x'}
        got = set(sec.entries) - {0}
        if sec.kind == 'stream':
            if sec.entries.get(sec.num, (None,))[0] != 'n' or sec.entries[sec.num][1] != sec.pos:
                raise Fail('a cross-reference stream does not list itself', log=log, file=data)
            got -= {sec.num}
        if not (exp <= got <= exp | opt):
            raise Fail('the revision does not list exactly what changed', log=log, file=data, listed=sorted(got), changed=c)
        for k, a in c.items():
            if k in sec.entries and (sec.entries[k][0] == 'f') != (a in 'dx'):
                raise Fail(f'object {k} is {a} but entered as {sec.entries[k]}', log=log, file=data)
        if 0 not in sec.entries or sec.entries[0][0] != 'f':
            raise Fail('object 0 is not the head of the free list', log=log, file=data)


def check_objects(s, doc, data, log):
    got = pdf.visible(doc.objects)
    if set(got) != set(s.st):
        raise Fail('the written file holds other objects', log=log, file=data, only_in_file=sorted(set(got) - set(s.st)),
                   missing=sorted(set(s.st) - set(got)))
    for k, (g, v) in s.st.items():
        if got[k][0] != g or not same(got[k][1], v):
            raise Fail(f'object {k} is written wrong', log=log, written=got[k], expected=(g, v))


@n(1600)
def sessions(r):
    s = Sim(r)
    for _ in range(r.randint(1, 12)):
        s.step()
    s.commit()
    data = write_bytes(s.doc)
    doc = strict(data, s.log)
    check_sections(s, doc, data, s.log)
    check_objects(s, doc, data, s.log)
    return data


@n(500)
def compressed(r):
    """Single-revision documents rewritten with object streams and cross-reference streams, then edited."""
    s = Sim(r, maxpages=3)
    if r.random() < 0.5:
        s.step()
    d = api.compress(s.doc)
    s.log.append('compress()')
    for rnd in range(r.randint(1, 3)):
        data = write_bytes(d)
        doc = strict(data, s.log)
        vis = pdf.visible(doc.objects)
        if rnd == r.randint(0, 1):
            d = api.loads(data)
            s.log.append('write, loads')
        k = r.choice(list(vis))
        st = pdf.visible(doc.objects)
        from .sim import protected
        free = [x for x in st if x not in protected(st, doc.trailer['/Root'])]
        upd = {}
        for k in r.sample(free, min(len(free), r.randint(1, 4))):
            v = gen.g_obj(r, 1, refs=False)
            if r.random() < 0.25:
                v = None
            d = api.update_object(d, k, v)
            s.log.append(f'update_object({k}, {v!r})')
            upd[k] = v
        d = api.commit(d)
        s.log.append('commit()')
        data = write_bytes(d)
        doc2 = strict(data, s.log)
        if upd:
            sec = doc2.secs[0]
            got = {k for k in sec.entries if k not in (0, sec.num)}
            stms = {e[1] for e in sec.entries.values() if e[0] == 'c'}
            if not (set(upd) <= got <= set(upd) | stms):
                raise Fail('the revision does not list exactly what changed', log=s.log, file=data, listed=sorted(got), changed=sorted(upd))
        vis2 = pdf.visible(doc2.objects)
        for k in set(vis) | set(vis2):
            e = upd[k] if k in upd else vis.get(k, (0, None))[1]
            g = vis2.get(k, (0, None))[1]
            if not same(g, e):
                raise Fail(f'object {k} is wrong after the update', log=s.log, file=data, written=g, expected=e)
    return data


CHECKS = [sessions, compressed]

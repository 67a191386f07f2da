"""C09: what was there before stays byte for byte."""
import os
import tempfile
from .core import Fail, n
from . import gen, pdf
from .gen import ref
from .sim import Sim, write_bytes
from pdfsyntax import api


def original(s):
    """Bytes of the opened file up to the end of its last revision."""
    return s.base[:s.file.ends[-1]] if s.file else b''


@n(1500)
def sessions(r):
    s = Sim(r, blank=False)
    tail = b''
    if r.random() < 0.3:
        tail = r.choice([b'junk after the end', b'\x00\x00', b'%%more', b'\n\n\n', b'endobj'])
        data = s.base.rstrip(b'\r\n') if r.random() < 0.3 else s.base
        s.base = data
        s.file.data = data + tail
        s.doc = api.loads(s.file.data)
        s.log = [f'loads({s.file.data!r})']
    prefix = s.base.rstrip(b'\r\n')
    cuts = []
    for rnd in range(r.randint(1, 3)):
        for _ in range(r.randint(0, 4)):
            s.step(commit=0.1)
        had = bool(s.pending)
        before = len(s.committed_changes)
        data = write_bytes(s.doc)
        s.log.append('write')
        if not data.startswith(prefix):
            k = next((i for i, (a, b) in enumerate(zip(data, prefix)) if a != b), min(len(data), len(prefix)))
            raise Fail(f'earlier bytes changed at {k}', log=s.log, written=data, earlier=prefix)
        if not had and not s.committed_changes and data.rstrip(b'\r\n') != prefix.rstrip(b'\r\n'):
            raise Fail('writing an unchanged document added or removed bytes', end=data[-80:], expected=prefix[-80:], log=s.log, written=data)
        if not had and cuts and before == cuts[-1][1] and data != cuts[-1][0]:
            raise Fail('writing again without changes changed the bytes', log=s.log, written=data, earlier=cuts[-1][0])
        s.commit()
        data2 = write_bytes(s.doc)
        if data2 != data:
            raise Fail('committing changed the bytes written before', log=s.log, before=data, after=data2)
        prefix = data
        cuts.append((data, len(s.committed_changes)))
    if r.random() < 0.5:
        d = api.loads(prefix)
        n0 = len(d.index)
        d = api.commit(d)
        if len(d.index) != n0 or write_bytes(d) != prefix:
            raise Fail('a reopened document does not write back unchanged', log=s.log, file=prefix, written=write_bytes(d))
    return prefix


@n(400)
def from_disk(r):
    """readfile / writefile over real files, including writing over the file that was read."""
    s = Sim(r, blank=False)
    fd, p = tempfile.mkstemp(prefix='pdfsyntax-check-')
    try:
        os.write(fd, s.base)
        os.close(fd)
        doc = api.readfile(p)
        if r.random() < 0.7:
            k = r.choice(list(s.st))
            doc = api.update_object(doc, k, gen.g_obj(r, 1, refs=False))
        q = p if r.random() < 0.5 else p + '.out'
        if q == p:
            api.writefile(doc, p)
        else:
            api.writefile(doc, q)
        with open(q, 'rb') as f:
            data = f.read()
        if q != p:
            os.unlink(q)
            with open(p, 'rb') as f:
                if f.read() != s.base:
                    raise Fail('the input file was modified', file=s.base)
        pre = s.base.rstrip(b'\r\n')
        if not data.startswith(pre):
            raise Fail('earlier bytes changed', file=s.base, written=data)
    finally:
        if os.path.exists(p):
            os.unlink(p)
    return data


@n(400)
def scratch(r):
    """Documents made from nothing: each committed revision keeps its bytes."""
    s = Sim(r, blank=True)
    prev = b''
    for _ in range(r.randint(1, 5)):
        for _ in range(r.randint(0, 3)):
            s.step(commit=0, read=0.1)
        s.commit()
        data = write_bytes(s.doc)
        if not data.startswith(prev):
            raise Fail('an earlier revision changed', log=s.log, earlier=prev, written=data)
        prev = data
    return prev


CHECKS = [sessions, from_disk, scratch]

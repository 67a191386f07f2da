"""C20: access windows and hex dumps."""
import io
import os
import re
import tempfile
from .core import Fail, n
from pdfsyntax.filestruct import bdata_provider, bdata_dummy, bdata_length, bdata_all, hexdump
from pdfsyntax.docstruct import merge_fdata


def g_bytes(r, m=60):
    return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 9, 10, 11, 20, r.randint(0, m)])))


def source(r, depth=0):
    """-> provider, content, description"""
    q = r.random()
    if depth < 3 and q < 0.35:
        f, b, what = source(r, depth + 1)
        index = r.choice([0, len(b), r.randint(0, len(b)), r.randint(0, len(b))])
        tail = g_bytes(r)
        return merge_fdata(f, index, tail), b[:index] + tail, ('merge', index, tail, what)
    b = g_bytes(r)
    q = r.random()
    if q < 0.3:
        return bdata_provider(b), b, ('bytes', b)
    if q < 0.4:
        return bdata_dummy(b), b, ('dummy', b)
    if q < 0.6:
        return bdata_provider(io.BytesIO(b), 'SINGLE'), b, ('BytesIO', 'SINGLE', b)
    fo = io.BytesIO(b)
    fo.seek(r.randint(0, len(b)))
    return bdata_provider(fo, 'CONTINUOUS'), b, ('BytesIO', 'CONTINUOUS', b)


def request(f, b, p, k, what):
    buf, i, o, c = f(p, k)
    a = p if p >= 0 else p + len(b)
    a = min(max(a, 0), len(b))
    e = len(b) if k == -1 else min(len(b), a + k)
    if c != e - a or buf[i:i + c] != b[a:e] or i < 0 or o + i != a:
        raise Fail(f'request ({p}, {k}) is answered wrong', source=what, content=b, index=i, offset=o, count=c, got=buf[i:i + c] if i >= 0 else None,
                   expected=b[a:e])


def ask(r, f, b, what):
    z = len(b)
    if bdata_length(f) != z:
        raise Fail('wrong length', source=what, content=b, result=bdata_length(f))
    for _ in range(r.randint(1, 6)):
        p = r.choice([0, z, r.randint(0, z), r.randint(0, z), -1, -z, -r.randint(0, z + 3), z + 2]) if r.random() < 0.9 else r.randint(-z - 5, z + 5)
        k = r.choice([-1, 0, 1, z, z + 5, r.randint(0, z + 2), r.randint(0, z + 2)])
        request(f, b, p, k, what)
    buf, i, o, c = f(0, -1)
    if buf[i:i + c] != b:
        raise Fail('the whole is not the whole', source=what, content=b)
    if bdata_all(f) != b and what[0] != 'merge':
        raise Fail('bdata_all', source=what, content=b)


@n(20000)
def windows(r):
    f, b, what = source(r)
    ask(r, f, b, what)
    return what


@n(400)
def files(r):
    b = g_bytes(r, 400)
    with tempfile.TemporaryFile() as fo:
        fo.write(b)
        fo.seek(r.randint(0, len(b)))
        m = 'CONTINUOUS' if r.random() < 0.7 else 'SINGLE'
        if m == 'SINGLE':
            fo.seek(0)
        f = bdata_provider(fo, m)
        what = ('file', m, b)
        ask(r, f, b, what)
        dump(r, f, b, what)
    return what


LINE = re.compile(r'(\d+)  ((?:[0-9a-f]{2}(?: (?=[0-9a-f])|))*) *  \|(.*)\|\Z')


def dump(r, f, b, what):
    z = len(b)
    start = r.choice([None, 0, r.randint(0, z), r.randint(0, z)])
    s = start or 0
    stop = r.choice([None, z, z + 7, r.randint(s, z)])
    e = z if stop is None else min(stop, z)
    out = hexdump(f, start, stop)
    seen = {}
    last = -1
    lines = out.split('\n')
    if lines.pop() != '':
        raise Fail('the dump has no last end of line', source=what, start=start, stop=stop, dump=out)
    for l in lines:
        m = LINE.match(l)
        if not m:
            raise Fail('a line of the dump is odd', source=what, start=start, stop=stop, line=l)
        off, hexa, text = int(m.group(1)), bytes.fromhex(m.group(2)), m.group(3)
        if len(text) != len(hexa):
            raise Fail('the text column is of another length', source=what, start=start, stop=stop, line=l)
        for j, (c, t) in enumerate(zip(hexa, text)):
            p = off + j
            if p <= last:
                raise Fail(f'offset {p} comes again or late', source=what, start=start, stop=stop, dump=out)
            last = p
            if p >= z or b[p] != c or t != (chr(c) if 32 <= c < 127 else '.'):
                raise Fail(f'byte at {p} is shown wrong', source=what, start=start, stop=stop, dump=out)
            seen[p] = c
    miss = [p for p in range(s, e) if p not in seen]
    if miss:
        raise Fail(f'bytes {miss[:5]} are not shown', source=what, start=start, stop=stop, dump=out)
    extra = [p for p in seen if p < s // 10 * 10 or p >= e + 10 or p // 10 > (e - 1) // 10]
    if extra:
        raise Fail(f'bytes {extra[:5]} were not asked for', source=what, start=start, stop=stop, dump=out)


@n(8000)
def dumps(r):
    f, b, what = source(r)
    dump(r, f, b, what)
    return what


CHECKS = [windows, files, dumps]

"""C19: the file map and the index checks."""
from collections import Counter
from .core import Fail, n
from . import gen, pdf
from pdfsyntax.filestruct import file_object_map, check_index_targets, check_not_indexed_objects, build_xref_sequence, bdata_provider


def tiling(m, size, data, full):
    """The regions with a place of their own follow each other from 0."""
    at = 0
    for reg in m:
        b, e = reg[0], reg[1]
        if type(b) is not int or type(e) is not int:
            continue
        if b != at or e <= b or e > size:
            raise Fail(f'a region goes from {b} to {e} where {at} was expected', file=data, map=[x[:3] for x in m])
        at = e
    if full and at != size:
        raise Fail(f'the map stops at {at} of {size}', file=data, map=[x[:3] for x in m])


def truth(f):
    dirs = {(k, e[2], e[1]) for ent in f.entries for k, e in ent.items() if e[0] == 'n'}
    embs = {(k, e[1], e[2]) for ent in f.entries for k, e in ent.items() if e[0] == 'c'}
    for k in f.extra:
        pass
    return dirs, embs


def listed(m):
    dirs = Counter((x[3]['o_num'], x[3]['o_gen'], x[0]) for x in m if x[2] == 'IND_OBJ' and type(x[0]) is int)
    embs = Counter((x[3]['o_num'], x[3]['env_num'], x[1][2]) for x in m if x[2] == 'IND_OBJ' and type(x[0]) is float)
    return dirs, embs


def sections(data):
    """Every section of the file, through its own links (strict reader)."""
    j = data.rfind(b'startxref')
    pos = int(data[j + 9:].split()[0])
    todo, out = [pos], {}
    while todo:
        p = todo.pop()
        if p in out:
            continue
        s = pdf.read_section(data, p)
        out[p] = s
        for k in ('/XRefStm', '/Prev'):
            if k in s.trailer:
                todo.append(s.trailer[k])
    return out


def objects_in(data, f):
    dirs, embs = truth(f)
    for p, s in sections(data).items():
        if s.kind == 'stream':
            dirs.add((s.num, 0, p))
    return dirs, embs


def mk(r, tamper=None):
    d = pdf.g_doc(r, maxpages=3)
    return pdf.build(d, r, tamper=tamper)


@n(1200)
def whole(r):
    f = mk(r)
    m = file_object_map(bdata_provider(f.data))
    tiling(m, len(f.data), f.data, True)
    dirs, embs = objects_in(f.data, f)
    gd, ge = listed(m)
    if gd != Counter(dirs) or ge != Counter(embs):
        raise Fail('other objects are listed', file=f.data, direct=gd - Counter(dirs), missing=Counter(dirs) - gd,
                   embedded=ge - Counter(embs), missing_embedded=Counter(embs) - ge)
    return f.data


def keys(s):
    out = Counter()
    for k, (t, a, b) in s.rows:
        if k == 0 or t == 'f':
            continue
        out[('DIR', k, b, a) if t == 'n' else ('EMB', k, a, b)] += 1
    return out


@n(1600)
def indexes(r):
    rate = r.choice([0, 0.1, 0.3, 0.8])

    def tamper(ri, ent):
        out = {}
        for k, (t, a, b) in ent.items():
            if k and t != 'f' and r.random() < rate:
                q = r.random()
                if q < 0.25:
                    continue                                # no entry any more
                if q < 0.5 and t == 'n':
                    a = max(0, a + r.choice([-1, 1, 2, -7, 40]))
                elif q < 0.6:
                    b = b + 1
                elif q < 0.7:
                    t, a, b = 'f', 0, b if t == 'n' else 0
                elif q < 0.85:
                    o = r.choice(list(ent.values()))        # another object's entry
                    if o[0] == t:
                        a, b = o[1], o[2]
                elif t == 'c':
                    a = a + 1
            out[k] = (t, a, b)
        return out or ent
    f = mk(r, tamper)
    fd = bdata_provider(f.data)
    m = file_object_map(fd)
    tiling(m, len(f.data), f.data, True)
    dirs, embs = objects_in(f.data, f)
    objs = {('DIR', k, g, p) for k, g, p in dirs} | {('EMB', k, s, i) for k, s, i in embs}
    chrono = build_xref_sequence(fd)[0]
    got = check_index_targets(m, chrono)
    secs = sections(f.data)
    if set(got) != set(secs):
        raise Fail('other sections are reported', file=f.data, reported=sorted(got), sections=sorted(secs))
    allk = set()
    for p, s in secs.items():
        want = keys(s)
        allk |= set(want)
        bad = Counter({k: c for k, c in want.items() if k not in objs})
        if Counter(got[p]) != bad:
            raise Fail(f'the dead entries of the section at {p} are others', file=f.data, reported=got[p], expected=sorted(bad))
    miss = check_not_indexed_objects(m, chrono)
    want = Counter(o for o in objs if o not in allk)
    if Counter(miss) != want:
        raise Fail('the objects without entry are others', file=f.data, reported=miss, expected=sorted(want))
    return f.data


BITS = [b'obj', b'endobj', b'stream', b'endstream', b'xref', b'trailer', b'startxref', b'%', b'\n', b' ', b'<<', b'>>', b'[', b']', b'(', b')',
        b'1 0 R', b'1 0 obj', b'0', b'<', b'>', b'/', b'/A', b'R', b'\x00', b'\r', b'%%EOF', b'null']


@n(6000)
def damaged(r):
    """Any bytes: what is mapped tiles, and mapping ends."""
    q = r.random()
    if q < 0.4:
        data = b''.join(r.choice(BITS) + r.choice([b'', b' ', b'\n']) for _ in range(r.randint(0, 14)))
    elif q < 0.55:
        data = bytes(r.randrange(256) for _ in range(r.randint(0, 60)))
    else:
        data = bytearray(mk(r).data)
        for _ in range(r.randint(1, 4)):
            i = r.randrange(len(data) + 1)
            if i == len(data):
                continue
            z = r.random()
            if z < 0.4:
                data[i] = r.randrange(256)
            elif z < 0.6:
                del data[i:i + r.choice([1, 3, 20])]
            elif z < 0.8:
                data[i:i] = r.choice(BITS)
            else:
                del data[i:]
        data = bytes(data)
    try:
        m = file_object_map(bdata_provider(data))
    except RecursionError:
        raise
    except MemoryError:
        raise
    except Exception:
        return data
    tiling(m, len(data), data, False)
    return data


CHECKS = [whole, indexes, damaged]

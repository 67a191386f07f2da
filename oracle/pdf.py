"""Model documents, an independent file writer with many layouts, and an independent strict file reader."""
import itertools
import re
import zlib
import binascii
from . import gen
from .gen import PS, Bad, ref, same, write, Style

INH = ['/Resources', '/MediaBox', '/CropBox', '/Rotate']


class MDoc:
    """Revisions of a document: each maps num -> (gen, value) and lists deleted numbers."""

    def __init__(self):
        self.revs = []
        self.root = None
        self.info = None

    def state(self, i=-1):
        n = len(self.revs) if i == -1 else i + 1
        st = {}
        for rv in self.revs[:n]:
            for k in rv['del']:
                st.pop(k, None)
            for k, (g, v) in rv['set'].items():
                st[k] = (g, v)
        return st


def deref(st, v):
    n = 0
    while isinstance(v, complex):
        v = st.get(int(v.imag), (0, None))[1]
        n += 1
        if n > 50:
            raise Bad('reference loop')
    return v


def page_list(st, root, deep=True):
    """Left-to-right leaves with effective attributes: [(num, {attr: value})]"""
    out = []

    def walk(r, inh, depth):
        if depth > 60:
            raise Bad('page tree too deep')
        node = deref(st, r)
        if node['/Type'] == '/Pages':
            inh = dict(inh)
            for a in INH:
                if node.get(a) is not None:
                    inh[a] = node[a]
            for k in deref(st, node['/Kids']):
                walk(k, inh, depth + 1)
        else:
            eff = dict(inh)
            for a in INH:
                if a in node:
                    eff[a] = node[a]
            out.append((int(r.imag), eff))
    walk(deref(st, root)['/Pages'], {}, 0)
    return out


def counts(st, root):
    """Check /Count of every tree node; -> number of leaves"""
    def walk(r, parent):
        node = deref(st, r)
        if node['/Type'] == '/Pages':
            s = sum(walk(k, r) for k in deref(st, node['/Kids']))
            if deref(st, node['/Count']) != s:
                raise Bad(f'/Count {deref(st, node["/Count"])} of node {r} has {s} pages below')
            return s
        return 1
    return walk(deref(st, root)['/Pages'], None)


def g_doc(r, maxpages=6, plain=False, nrev=None, wild=True):
    """A document with a random page tree."""
    d = MDoc()
    npg = r.randint(1, maxpages)
    pool = list(range(1, 8 + 6 * npg + 12))
    if r.random() < 0.6:
        r.shuffle(pool)
    gaps = r.random() < 0.3
    nxt = itertools.chain(pool, itertools.count(len(pool) + 1))
    objs = {}

    def new(v=None, g=0):
        k = next(nxt)
        if gaps and r.random() < 0.1:
            k = next(nxt)
        objs[k] = (g, v)
        return k

    def R(k):
        return ref(k, objs[k][0])

    def ggen():
        return r.choice([0, 0, 0, 0, 0, 2]) if wild else 0

    d.root = root = new()
    fonts = [new({'/Type': '/Font', '/Subtype': '/Type1', '/BaseFont': '/' + r.choice(['Helvetica', 'Courier']),
                  '/Encoding': '/WinAnsiEncoding'}) for _ in range(r.randint(1, 2))]
    misc = []

    def resources():
        v = {'/Font': {f'/F{i}': R(f) for i, f in enumerate(fonts)}}
        if r.random() < 0.3:
            v['/ProcSet'] = ['/PDF', '/Text']
        if r.random() < 0.3:
            v['/Tag'] = r.randint(0, 999)
        if r.random() < 0.4:
            return R(new(v, ggen()))
        return v

    def box():
        v = [0, 0, r.choice([200, 595, 612.5]), r.choice([300, 842])]
        return R(new(v)) if r.random() < 0.1 else v

    def inh_attrs(node, p):
        if r.random() < p:
            node['/MediaBox'] = box()
        if r.random() < p:
            node['/Rotate'] = r.choice([0, 90, 180, 270])
        if r.random() < p / 2:
            node['/CropBox'] = box()
        if r.random() < p:
            node['/Resources'] = resources()

    def stream(raw, d=None):
        d = dict(d or {})
        k = r.random()
        if k < 0.4:
            raw = zlib.compress(raw)
            d['/Filter'] = '/FlateDecode' if r.random() < 0.7 else ['/FlateDecode']
        elif k < 0.5:
            raw = binascii.hexlify(raw)
            d['/Filter'] = '/ASCIIHexDecode'
        elif k < 0.55:
            raw = binascii.hexlify(zlib.compress(raw))
            d['/Filter'] = ['/ASCIIHexDecode', '/FlateDecode']
        elif k < 0.6 and wild:
            raw = b'\xff\xd8 not really a picture ' + bytes(r.randrange(256) for _ in range(5))
            d['/Filter'] = '/DCTDecode'
        d['/Length'] = len(raw)
        return PS(d, raw)

    contents = []
    leaves = []

    def content():
        if contents and r.random() < 0.15:
            return r.choice(contents)
        c = b'BT /F0 %d Tf %d %d Td (p%d) Tj ET' % (r.randint(6, 20), r.randint(0, 500), r.randint(0, 800), len(leaves))
        if wild and r.random() < 0.2:
            c = gen.g_content(r)
        k = new(stream(c), ggen())
        contents.append(R(k))
        return R(k)

    def leaf(parent):
        k = new(None, ggen())
        p = {'/Type': '/Page', '/Parent': parent}
        inh_attrs(p, 0.4)
        c = content()
        q = r.random()
        if q < 0.6:
            p['/Contents'] = c
        elif q < 0.75:
            p['/Contents'] = [c, content()]
        elif q < 0.85:
            p['/Contents'] = R(new([c, content()]))
        else:
            p['/Contents'] = c
        if r.random() < 0.3:
            an = new({'/Type': '/Annot', '/Subtype': '/Text', '/Rect': [0, 0, 9, 9], '/Contents': gen.g_lstring(r) if wild else b'(x)',
                      **({'/P': R(k)} if r.random() < 0.5 else {})})
            p['/Annots'] = [R(an)] if r.random() < 0.5 else R(new([R(an)]))
        if r.random() < 0.2 and misc:
            p['/PieceInfo'] = {'/X': r.choice(misc)}
        if r.random() < 0.1 and leaves:
            p['/Link'] = {'/Dest': [R(r.choice(leaves)), '/Fit']}
        objs[k] = (objs[k][0], p)
        leaves.append(k)
        return R(k)

    def node(parent, n, depth):
        k = new(None, ggen())
        v = {'/Type': '/Pages'}
        if parent is not None:
            v['/Parent'] = parent
        inh_attrs(v, 0.5 if depth else 0.6)
        kids, left = [], n
        while left > 0:
            if depth < 3 and r.random() < 0.35:
                m = r.randint(1, left)
                kids.append(node(R(k), m, depth + 1))
                left -= m
            else:
                kids.append(leaf(R(k)))
                left -= 1
        if depth and r.random() < 0.05:
            pass
        v['/Kids'] = R(new(kids)) if wild and r.random() < 0.15 else kids
        v['/Count'] = R(new(n)) if wild and r.random() < 0.1 else n
        objs[k] = (objs[k][0], v)
        return R(k)

    for _ in range(r.randint(0, 3)):
        misc.append(R(new(gen.g_obj(r, 1, refs=False) if wild else r.randint(0, 9), ggen())))
    if misc and wild and r.random() < 0.3:
        misc.append(R(new({'/Self': r.choice(misc), '/L': [r.choice(misc), 1, r.choice(misc)]})))
    if wild and r.random() < 0.15:
        misc.append(R(new(r.choice(misc) if misc else 5)))       # an object that is just a reference
    top = node(None, npg, 0)
    # every page must have a MediaBox and Resources one way or another
    tn = objs[int(top.imag)][1]
    tn.setdefault('/MediaBox', [0, 0, 595, 842])
    tn.setdefault('/Resources', {'/Font': {'/F0': R(fonts[0])}})
    cat = {'/Type': '/Catalog', '/Pages': top}
    if misc:
        cat['/Misc'] = list(misc)
    if r.random() < 0.2:
        cat['/Version'] = '/1.6'
    objs[root] = (0, cat)
    if r.random() < 0.6:
        d.info = new({'/Title': b'(A \\(title\\))', '/Producer': gen.g_lstring(r) if wild else b'(p)'})
    d.revs.append({'set': objs, 'del': []})
    d.pages0 = leaves
    # later revisions
    nrev = r.choice([0, 0, 1, 2]) if nrev is None else nrev
    for _ in range(nrev):
        st = d.state()
        ch, dl = {}, []
        for _ in range(r.randint(1, 3)):
            q = r.random()
            if q < 0.35:
                k = r.choice(leaves)
                g, v = ch.get(k) or st[k]
                v = dict(v)
                v['/Rotate'] = r.choice([0, 90, 180, 270])
                ch[k] = (g, v)
            elif q < 0.55 and misc:
                m = int(r.choice(misc).imag)
                if m in st and m not in dl:
                    ch[m] = (st[m][0], gen.g_obj(r, 1, refs=False))
            elif q < 0.75:
                k = next(nxt, 0) or max(st) + 1
                if k not in st and k not in ch:
                    ch[k] = (0, gen.g_obj(r, 1, refs=False) if wild else 7)
                    g, v = ch.get(root) or st[root]
                    v = dict(v)
                    v['/Misc'] = v.get('/Misc', []) + [ref(k)]
                    ch[root] = (g, v)
            elif q < 0.9 and misc and len(d.revs) >= 1:
                m = r.choice(misc)
                k = int(m.imag)
                if k in st and k not in ch and not any(k == int(x.imag) for x in d.__dict__.get('gone', [])):
                    # drop every mention, then delete
                    used = [n for n, (g, v) in {**st, **ch}.items() if mentions(v, k) and n != root]
                    if not used:
                        g, v = ch.get(root) or st[root]
                        v = dict(v)
                        v['/Misc'] = [x for x in v.get('/Misc', []) if int(x.imag) != k]
                        ch[root] = (g, v)
                        dl.append(k)
                        misc.remove(m)
            else:
                if contents:
                    c = int(r.choice(contents).imag)
                    ch[c] = (st[c][0], stream(b'BT (changed %d) Tj ET' % r.randint(0, 99)))
        if not ch and not dl:
            k = r.choice(leaves)
            g, v = st[k]
            v = dict(v)
            v['/Rotate'] = 90
            ch[k] = (g, v)
        for k in dl:
            ch.pop(k, None)
        d.revs.append({'set': ch, 'del': dl})
    return d


def mentions(v, k):
    if isinstance(v, complex):
        return int(v.imag) == k
    if isinstance(v, PS):
        return mentions(v.d, k)
    if isinstance(v, dict):
        return any(mentions(x, k) for x in v.values())
    if isinstance(v, list):
        return any(mentions(x, k) for x in v)
    return False


# ------------------------------------------------------------------ writer

def g_layout(r, nrev, kinds=None):
    kinds = kinds or r.choice([['table'], ['table'], ['stream'], ['stream'], ['table', 'stream'], ['hybrid']])
    return [{'kind': r.choice(kinds) if not (kinds == ['hybrid'] and i) else 'table', 'objstm': r.random() < 0.7,
             'eol': r.choice([b'\n', b'\n', b'\r\n', b'\r']), 'split': r.random() < 0.4, 'noeol': r.random() < 0.2,
             'comment': r.random() < 0.2, 'style': r.random() < 0.5, 'filter': r.choice(['flate', 'flate', 'none', 'up', 'ahx']),
             'wide': r.choice([0, 0, 1, 2]), 'stmn': r.choice([1, 1, 2]), 'w0': r.random() < 0.2} for i in range(nrev)]


def up_encode(data, cols):
    out, prev = b'', bytes(cols)
    for i in range(0, len(data), cols):
        row = data[i:i + cols]
        out += b'\x02' + bytes((a - b) & 255 for a, b in zip(row, prev))
        prev = row
    return out


class File:
    """Bytes of a document and where everything was put."""

    def __init__(self):
        self.data = b''
        self.ends = []          # end of each revision (after %%EOF and its end of line)
        self.entries = []       # per revision: num -> ('n', offset, gen) | ('c', stm, idx) | ('f', next, gen)
        self.startxref = []
        self.kinds = []
        self.extra = []         # numbers taken by ObjStm / XRef streams


def build(d, r, layout=None, header=None, tamper=None):
    """tamper(revision, entries) may return other entries to write in place of the true ones."""
    lay = layout or g_layout(r, len(d.revs))
    f = File()
    out = bytearray(header or (b'%PDF-1.' + r.choice([b'4', b'5', b'7']) + r.choice([b'\n', b'\r\n', b'\n%\xe2\xe3\xcf\xd3\n'])))
    allnums = set()
    for rv in d.revs:
        allnums |= set(rv['set']) | set(rv['del'])
    top = max(allnums)
    prev = None
    seen = set()
    gens = {}
    for ri, (rv, L) in enumerate(zip(d.revs, lay)):
        eol = L['eol']
        if ri and not out.endswith((b'\n', b'\r')):
            out += eol
        ent = {}
        st = Style(r, tight=0.5) if L['style'] else Style()
        objs = dict(rv['set'])
        inside = []
        kind = L['kind']
        if kind in ('stream', 'hybrid') and L['objstm']:
            inside = [k for k, (g, v) in objs.items() if not isinstance(v, PS) and g == 0 and r.random() < 0.7
                      and (kind == 'stream' or k != d.root and not (isinstance(v, dict) and v.get('/Type') in ('/Pages', '/Page')))]
        stm_nums = []
        if inside:
            r.shuffle(inside)
            nstm = min(L['stmn'], len(inside))
            groups = [inside[i::nstm] for i in range(nstm)]
            for gr in groups:
                top += 1
                stm_nums.append(top)
                body, head = b'', b''
                for k in gr:
                    head += b'%d %d ' % (k, len(body))
                    body += write(objs[k][1], st) + r.choice([b'\n', b' '])
                head += r.choice([b'', b'\n', b'  '])
                raw = head + body
                dd = {'/Type': '/ObjStm', '/N': len(gr), '/First': len(head)}
                if r.random() < 0.7:
                    raw = zlib.compress(raw)
                    dd['/Filter'] = '/FlateDecode'
                dd['/Length'] = len(raw)
                objs[top] = (0, PS(dd, raw))
                for i, k in enumerate(gr):
                    ent[k] = ('c', top, i)
        order = [k for k in objs if k not in inside]
        if r.random() < 0.5:
            r.shuffle(order)
        for k in order:
            g, v = objs[k]
            if L['comment'] and r.random() < 0.1:
                out += b'%a comment' + eol
            ent[k] = ('n', len(out), g)
            out += b'%d %d obj' % (k, g) + r.choice([b'\n', b'\r\n', b' '])
            if isinstance(v, PS):
                out += write(v.d, st) + r.choice([b'\n', b'\r\n']) + b'stream' + r.choice([b'\n', b'\r\n']) + v.raw + \
                    r.choice([b'\n', b'\r\n']) + b'endstream'
            else:
                out += write(v, st)
            out += r.choice([b'\n', b'\r\n']) + b'endobj' + eol
            gens[k] = g
        for k in inside:
            gens[k] = 0
        # free entries
        free = {}
        if ri == 0:
            for k in range(0, top + 1):
                if k not in ent and (k == 0 or kind != 'stream' or r.random() < 0.5):
                    free[k] = 65535 if k == 0 else r.choice([0, 1])
        for k in rv['del']:
            free[k] = gens.get(k, 0) + 1
        if ri and (free or r.random() < 0.5):
            free[0] = 65535
        fl = sorted(free)
        for i, k in enumerate(fl):
            ent[k] = ('f', fl[(i + 1) % len(fl)], free[k])
        trailer = {'/Root': ref(d.root), '/Size': top + 1}
        if d.info:
            trailer['/Info'] = ref(d.info)
        if r.random() < 0.4 or ri and '/ID' in getattr(f, 'tr0', {}):
            trailer['/ID'] = [b'<0123456789ABCDEF>', b'<0123456789abcdef>']
        if ri == 0:
            f.tr0 = trailer
        if prev is not None:
            trailer['/Prev'] = prev
        hyb = {}
        if kind == 'hybrid':
            hyb = {k: e for k, e in ent.items() if e[0] == 'c'}
            if hyb:
                top += 1
                pos = len(out)
                xs = dict(hyb)
                xs[top] = ('n', pos, 0)
                out += xref_stream(r, L, xs, {'/Size': top + 1}, top, st)
                trailer['/XRefStm'] = pos
                f.extra.append(top)
                trailer['/Size'] = top + 1
        if kind == 'stream':
            top += 1
            f.extra.append(top)
            trailer['/Size'] = top + 1
            pos = len(out)
            ent[top] = ('n', pos, 0)
            out += xref_stream(r, L, tamper(ri, dict(ent)) if tamper else ent, trailer, top, st)
        else:
            pos = len(out)
            tab = {k: (e if e[0] != 'c' else ('f', 0, 0)) for k, e in ent.items()}
            if kind == 'hybrid':
                for k in hyb:
                    if r.random() < 0.5:
                        del tab[k]
            out += xref_table(r, L, tamper(ri, tab) if tamper else tab, eol)
            out += b'trailer' + r.choice([eol, b' ', b'']) + write(trailer, st) + eol
        f.extra += stm_nums
        f.startxref.append(pos)
        f.kinds.append(kind)
        f.entries.append(ent)
        out += b'startxref' + eol + b'%d' % pos + eol + b'%%EOF'
        last = ri == len(d.revs) - 1
        if not (L['noeol'] and last):
            out += r.choice([b'\n', b'\r\n', b'\n', b'\r'])
        f.ends.append(len(out))
        prev = pos
    f.data = bytes(out)
    f.top = top
    return f


def runs(nums, split=None):
    res = []
    for k in sorted(nums):
        if res and res[-1][-1] == k - 1 and not (split and split()):
            res[-1].append(k)
        else:
            res.append([k])
    return res


def xref_table(r, L, ent, eol):
    e2 = eol if len(eol) == 2 else b' ' + eol
    out = b'xref' + eol
    for run in runs(ent, (lambda: r.random() < 0.3) if L['split'] else None):
        out += b'%d %d' % (run[0], len(run)) + eol
        for k in run:
            t, a, b = ent[k]
            out += b'%010d %05d %s' % (a, b, t.encode()) + e2
    return out


def xref_stream(r, L, ent, trailer, num, st):
    rows = []
    mx = max(max(a, b) for _, a, b in ent.values())
    w1 = max(1, (max(e[1] for e in ent.values()).bit_length() + 7) // 8) + L['wide']
    w2 = max(1, (max(e[2] for e in ent.values()).bit_length() + 7) // 8) + (L['wide'] > 1)
    w0 = 1
    if L['w0'] and all(e[0] == 'n' for e in ent.values()):
        w0 = 0
    elif L['wide'] == 2:
        w0 = 2
    data = b''
    index = []
    for run in runs(ent, (lambda: r.random() < 0.2) if L['split'] else None):
        index += [run[0], len(run)]
        for k in run:
            t, a, b = ent[k]
            data += {'f': 0, 'n': 1, 'c': 2}[t].to_bytes(w0, 'big') if w0 else b''
            data += a.to_bytes(w1, 'big') + b.to_bytes(w2, 'big')
    d = {'/Type': '/XRef', '/W': [w0, w1, w2]}
    if not (index == [0, trailer['/Size']] and r.random() < 0.5):
        d['/Index'] = index
    d.update(trailer)
    raw = data
    if L['filter'] == 'flate':
        raw = zlib.compress(raw)
        d['/Filter'] = '/FlateDecode'
    elif L['filter'] == 'ahx':
        raw = binascii.hexlify(raw) + b'>'
        d['/Filter'] = '/ASCIIHexDecode'
    elif L['filter'] == 'up':
        raw = zlib.compress(up_encode(raw, w0 + w1 + w2))
        d['/Filter'] = '/FlateDecode'
        d['/DecodeParms'] = {'/Predictor': 12, '/Columns': w0 + w1 + w2}
    d['/Length'] = len(raw)
    return b'%d 0 obj\n' % num + write(d, st) + b'\nstream\n' + raw + b'\nendstream\nendobj\n'


# ------------------------------------------------------------------ strict reader

def decode(ps):
    fl = ps.d.get('/Filter')
    raw = ps.raw
    if fl is None:
        return raw
    fl = [fl] if isinstance(fl, str) else fl
    pm = ps.d.get('/DecodeParms')
    pm = [pm] * len(fl) if not isinstance(pm, list) else pm
    for f, p in zip(fl, pm):
        if f == '/FlateDecode':
            raw = zlib.decompress(raw)
            if isinstance(p, dict) and p.get('/Predictor', 1) != 1:
                c = p['/Columns']
                out, prev = b'', bytes(c)
                for i in range(0, len(raw), c + 1):
                    if raw[i] != 2:
                        raise Bad('predictor tag')
                    prev = bytes((a + b) & 255 for a, b in zip(raw[i + 1:i + 1 + c], prev))
                    out += prev
                raw = out
        elif f == '/ASCIIHexDecode':
            h = b''.join(raw.split(b'>')[0].split())
            raw = binascii.unhexlify(h + b'0' * (len(h) % 2))
        elif f == '/ASCII85Decode':
            import base64
            raw = base64.a85decode(raw, adobe=True)
        else:
            raise Bad(f'filter {f}')
    return raw


class Section:
    def __init__(self, pos, kind, rows, trailer, num=None, heads=None, end=None):
        self.pos, self.kind, self.rows, self.trailer, self.num, self.heads, self.end = pos, kind, rows, trailer, num, heads, end
        self.entries = {}
        for k, e in rows:
            if k in self.entries:
                raise Bad(f'object {k} twice in the section at {pos}')
            self.entries[k] = e


_hdr = re.compile(rb'(\d+) (\d+)[ ]?(\r\n|\n|\r)')
_row = re.compile(rb'(\d{10}) (\d{5}) ([nf])( \n| \r|\r\n)')


def read_section(b, pos):
    if b[pos:pos + 4] == b'xref':
        m = re.compile(rb'xref[ ]?(\r\n|\n|\r)').match(b, pos)
        if not m:
            raise Bad('xref line')
        i = m.end()
        rows, heads = [], []
        while b[i:i + 7] != b'trailer':
            m = _hdr.match(b, i)
            if not m:
                raise Bad(f'subsection header at {i}: {b[i:i+30]!r}')
            s, c = int(m.group(1)), int(m.group(2))
            heads.append((s, c))
            i = m.end()
            for k in range(s, s + c):
                m = _row.match(b, i)
                if not m:
                    raise Bad(f'entry at {i} is not 20 bytes: {b[i:i+30]!r}')
                rows.append((k, (m.group(3).decode(), int(m.group(1)), int(m.group(2)))))
                i = m.end()
        t, e = gen.parse(b, i + 7)
        return Section(pos, 'table', rows, t, None, heads, e)
    num, g, o, e = gen.parse_indirect(b, pos)
    if not isinstance(o, PS) or o.d.get('/Type') != '/XRef':
        raise Bad('no cross-reference section here')
    w = o.d['/W']
    data = decode(o)
    idx = o.d.get('/Index', [0, o.d['/Size']])
    heads = list(zip(idx[::2], idx[1::2]))
    rows, i = [], 0
    for s, c in heads:
        for k in range(s, s + c):
            v = []
            for x in w:
                if i + x > len(data):
                    raise Bad('cross-reference stream too short')
                v.append(int.from_bytes(data[i:i + x], 'big'))
                i += x
            t = v[0] if w[0] else 1
            if t not in (0, 1, 2):
                raise Bad(f'type {t}')
            rows.append((k, ('fnc'[t], v[1], v[2])))
    if i != len(data):
        raise Bad('cross-reference stream longer than its /Index')
    return Section(pos, 'stream', rows, o.d, num, heads, e)


class Doc:
    pass


def read(b, check_links=True):
    """Strictly read a whole file -> Doc(sections newest first, objects: num -> (gen, value), trailer, root, info)."""
    j = b.rfind(b'startxref')
    m = re.compile(rb'startxref\s+(\d+)\s+%%EOF').match(b, j)
    if not m:
        raise Bad('no startxref at the end')
    pos = int(m.group(1))
    secs = []
    seen = set()
    while pos is not None:
        if pos in seen:
            raise Bad('cyclic /Prev')
        seen.add(pos)
        s = read_section(b, pos)
        s.sub = None
        if '/XRefStm' in s.trailer:
            s.sub = read_section(b, s.trailer['/XRefStm'])
        secs.append(s)
        pos = s.trailer.get('/Prev')
    d = Doc()
    d.secs = secs
    d.trailer = secs[0].trailer
    res = {}
    for s in secs:
        for part in ([s, s.sub] if s.sub else [s]):
            for k, e in part.entries.items():
                if part is s and s.sub and k in s.sub.entries and e[0] == 'f':
                    continue
                res.setdefault(k, e)
    d.where = res
    d.objects = {}
    plain = {k: e for k, e in res.items() if e[0] == 'n' and k}
    for k, (t, off, g) in plain.items():
        try:
            num, gg, o, e = gen.parse_indirect(b, off)
        except Bad as x:
            raise Bad(f'entry of object {k} points to {off}: {x}')
        if (num, gg) != (k, g):
            raise Bad(f'entry of object {k} {g} leads to {num} {gg}')
        d.objects[k] = (g, o)
    for k, e in res.items():
        if e[0] != 'c':
            continue
        _, stm, i = e
        if stm not in d.objects:
            raise Bad(f'object {k} is said to be in stream {stm}, which is not an object')
        members = stm_members(d.objects[stm][1])
        if i >= len(members) or members[i][0] != k:
            raise Bad(f'object {k} is not at index {i} of object stream {stm}')
        d.objects[k] = (0, members[i][1])
    return d


def stm_members(ps):
    if not isinstance(ps, PS) or ps.d.get('/Type') != '/ObjStm':
        raise Bad('not an object stream')
    data = decode(ps)
    n, first = ps.d['/N'], ps.d['/First']
    nums = [int(x) for x in data[:first].split()]
    if len(nums) != 2 * n:
        raise Bad('object stream header')
    return [(nums[2 * i], gen.parse(data, first + nums[2 * i + 1])[0]) for i in range(n)]


def visible(st, extra=()):
    """State without the ObjStm / XRef streams."""
    return {k: (g, v) for k, (g, v) in st.items()
            if not (isinstance(v, PS) and v.d.get('/Type') in ('/ObjStm', '/XRef'))}

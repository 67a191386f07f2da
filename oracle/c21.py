"""C21: ToUnicode maps and glyph widths."""
from .core import Fail, n
from . import gen, pdf
from .gen import PS, ref
from pdfsyntax import api
from pdfsyntax.text import apply_tounicode, text_element_to_unicode
from pdfsyntax.docstruct import prepare_w, prepare_widths, get_page_fonts
from pdfsyntax.objects import parse_obj
from pdfsyntax.api import build_text_fragments


def uni(r):
    q = r.random()
    if q < 0.6:
        return chr(r.choice([r.randint(0x21, 0x7e), r.randint(0xa1, 0x17f), 0x20ac, 0xfb01, 0x4e00]))
    if q < 0.8:
        return ''.join(chr(r.randint(0x21, 0x3ff)) for _ in range(r.randint(2, 4)))
    if q < 0.9:
        return chr(r.randint(0x10000, 0x1fbff))
    return chr(r.randint(0x20, 0xff))


def hx(r, b):
    s = b.hex()
    return b'<' + (s.upper() if r.random() < 0.5 else s).encode() + b'>'


def u16(s):
    return s.encode('utf-16-be')


def g_map(r, wl):
    """-> (cmap bytes, {code: text})"""
    top = 256 ** wl - 1
    truth = {}
    out = []

    def code(c):
        return hx(r, c.to_bytes(wl, 'big'))

    def free(a, b):
        return all(c not in truth for c in range(a, b + 1))
    for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
        rows = []
        if r.random() < 0.5:
            for _ in range(r.randint(0, 5)):
                c = r.choice([0, top, r.randint(0, top), r.randint(0, min(top, 300)), 0x41])
                if c in truth:
                    continue
                truth[c] = uni(r)
                rows.append(code(c) + r.choice([b' ', b'']) + hx(r, u16(truth[c])))
            out.append(b'%d beginbfchar\n' % len(rows) + b'\n'.join(rows) + b'\nendbfchar\n')
        else:
            for _ in range(r.randint(0, 4)):
                a = r.choice([0, 0x20, r.randint(0, top), r.randint(0, min(top, 300))])
                b = min(top, a + r.choice([0, 0, 1, 2, 5, 20]))
                if not free(a, b) or (a >> 8) != (b >> 8):
                    continue
                if r.random() < 0.4:
                    ts = [uni(r) for _ in range(a, b + 1)]
                    rows.append(code(a) + b' ' + code(b) + b' [' + b' '.join(hx(r, u16(t)) for t in ts) + b']')
                else:
                    t = uni(r)
                    e = u16(t)
                    if e[-1] + b - a > 255:
                        continue
                    bs = [e[:-1] + bytes([e[-1] + i]) for i in range(b - a + 1)]
                    try:
                        ts = [x.decode('utf-16-be') for x in bs]
                    except UnicodeDecodeError:
                        continue
                    rows.append(code(a) + b' ' + code(b) + r.choice([b' ', b'']) + hx(r, e))
                for c, t in zip(range(a, b + 1), ts):
                    truth[c] = t
            out.append(b'%d beginbfrange\n' % len(rows) + b'\n'.join(rows) + b'\nendbfrange\n')
    head = b'/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n/CIDSystemInfo << /Registry (Adobe) /Ordering (UCS) /Supplement 0 >> def\n' \
        b'/CMapName /Adobe-Identity-UCS def\n/CMapType 2 def\n'
    head = head if r.random() < 0.6 else b''
    cs = b'1 begincodespacerange\n' + code(0) + b' ' + code(top) + b'\nendcodespacerange\n'
    tail = r.choice([b'endcmap\nCMapName currentdict /CMap defineresource pop\nend\nend\n', b'endcmap\n', b'endcmap % the end', b''])
    return head + cs + b''.join(out) + tail, truth


def g_codes(r, truth, wl):
    top = 256 ** wl - 1
    known = list(truth) or [0]
    return [r.choice([r.choice(known), r.choice(known), r.choice(known), r.randint(0, top), max(0, r.choice(known) - 1), min(top, r.choice(known) + 1)])
            for _ in range(r.choice([0, 1, 2, 3, 8, 20]))]


def token(r, data):
    if r.random() < 0.5:
        return hx(r, data)
    o = b'('
    for c in data:
        if c in b'()\\' or c in b'\r\n':
            o += r.choice([b'\\%03o' % c, b'\\' + {40: b'(', 41: b')', 92: b'\\', 13: b'r', 10: b'n'}[c]])
        elif r.random() < 0.1:
            o += b'\\%03o' % c
        else:
            o += bytes([c])
    return o + b')'


def expected(codes, truth):
    return ''.join(truth.get(c, '') for c in codes)


@n(12000)
def maps(r):
    wl = r.choice([1, 2])
    cm, truth = g_map(r, wl)
    cmap = parse_obj(b'[' + cm + b'\n]')
    codes = g_codes(r, truth, wl)
    t = token(r, b''.join(c.to_bytes(wl, 'big') for c in codes))
    us, cs = apply_tounicode(cmap, t, wl == 1)
    if us != expected(codes, truth):
        raise Fail('wrong text', cmap=cm, string=t, result=us, expected=expected(codes, truth))
    if cs != codes:
        raise Fail('wrong codes', cmap=cm, string=t, result=cs, expected=codes)
    us2, _ = apply_tounicode(cmap, t, wl == 1)
    if us2 != us:
        raise Fail('another answer the second time', cmap=cm, string=t)
    return cm, t


def wval(r):
    return r.choice([0, 250, 500, 1000, r.randint(0, 2000), 333.5, -10])


def g_w(r):
    w, truth = [], {}
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        a = r.choice([0, 1, r.randint(0, 400), r.randint(0, 65500)])
        k = r.choice([1, 1, 2, 3, 10])
        if any(c in truth for c in range(a, a + k)):
            continue
        if r.random() < 0.5:
            v = [wval(r) for _ in range(k)]
            w += [a, v]
        else:
            v = [wval(r)] * k
            w += [a, a + k - 1, v[0]]
        truth.update(zip(range(a, a + k), v))
    return w, truth


def probe(r, truth):
    out = list(truth)[:40] + [c + d for c in list(truth)[:20] for d in (-1, 1)] + [0, 255, 256, r.randint(0, 65535)]
    return [c for c in out if 0 <= c <= 65535]


@n(6000)
def cid_widths(r):
    w, truth = g_w(r)
    dw = r.choice([1000, 0, r.randint(0, 2000)])
    f = prepare_w(w if w or r.random() < 0.5 else None, dw)
    for c in probe(r, truth):
        if f(c) != truth.get(c, dw):
            raise Fail(f'width of {c} is {f(c)}', W=w, DW=dw, expected=truth.get(c, dw))
    return w, dw


@n(6000)
def simple_widths(r):
    first = r.choice([0, 1, 32, 65, r.randint(0, 250)])
    ws = [wval(r) for _ in range(r.choice([0, 1, 2, 5, 256 - first]))]
    d = r.choice([500, 0, 77])
    f = prepare_widths(ws, first, d)
    for c in range(256):
        e = ws[c - first] if 0 <= c - first < len(ws) else d
        if f(c) != e:
            raise Fail(f'width of {c} is {f(c)}', Widths=ws, FirstChar=first, default=d, expected=e)
    return ws, first, d


@n(1600)
def fonts(r):
    """Through a document and the text operators."""
    objs = {1: (0, {'/Type': '/Catalog', '/Pages': ref(2)}), 2: (0, {'/Type': '/Pages', '/Kids': [ref(3)], '/Count': 1})}
    nxt = [4]

    def put(v, p=0.5):
        if r.random() > p and not isinstance(v, PS):
            return v
        k = nxt[0]
        nxt[0] += 1
        objs[k] = (0, v)
        return ref(k)
    truth = {}
    fr = {}
    for i in range(r.randint(1, 3)):
        name = f'/F{i}'
        t0 = r.random() < 0.5
        cm, tu = g_map(r, 2 if t0 else 1)
        if not tu and r.random() < 0.7:
            cm = None
        info = {'t0': t0, 'tu': tu if cm is not None else None, 'cm': cm}
        f = {'/Type': '/Font', '/BaseFont': '/Helvetica', '/Subtype': '/Type0' if t0 else r.choice(['/Type1', '/TrueType'])}
        if t0 and cm is None:
            cm = info['cm'] = b'1 begincodespacerange <0000> <FFFF> endcodespacerange'
            info['tu'] = {}
        if cm is not None:
            f['/ToUnicode'] = put(PS({'/Length': len(cm)}, cm))
        if t0:
            w, tw = g_w(r)
            df = {'/Type': '/Font', '/Subtype': '/CIDFontType2', '/BaseFont': '/Helvetica'}
            if w or r.random() < 0.3:
                df['/W'] = put(w)
            dw = 1000
            if r.random() < 0.6:
                dw = r.choice([0, 500, 1200])
                df['/DW'] = put(dw, 0.2)
            f['/DescendantFonts'] = put([put(df)], 0.3)
            info['w'] = lambda c, tw=tw, dw=dw: tw.get(c, dw)
        elif r.random() < 0.8:
            first = r.choice([0, 32, 65])
            ws = [wval(r) for _ in range(r.choice([1, 2, 50, 256 - first]))]
            f['/FirstChar'], f['/LastChar'] = put(first, 0.1), first + len(ws) - 1
            f['/Widths'] = put(ws)
            mw = None
            if r.random() < 0.6:
                mw = r.choice([0, 300, 778])
                f['/FontDescriptor'] = put({'/Type': '/FontDescriptor', '/FontName': '/Helvetica', '/MissingWidth': mw})
            info['w'] = lambda c, ws=ws, first=first, mw=mw: ws[c - first] if 0 <= c - first < len(ws) else mw
        else:
            info['w'] = lambda c: None
        truth[name] = info
        fr[name] = put(f)
    res = put({'/Font': put(fr, 0.3)}, 0.3)
    objs[3] = (0, {'/Type': '/Page', '/Parent': ref(2), '/MediaBox': [0, 0, 100, 100], '/Resources': res})
    d = pdf.D() if hasattr(pdf, 'D') else None
    d = type('D', (), {})()
    d.revs, d.root, d.info = [{'set': objs, 'del': []}], 1, None
    L = pdf.g_layout(r, 1)
    data = pdf.build(d, r, L).data
    doc = api.loads(data)
    fonts = get_page_fonts(doc, [0])[0]
    if set(fonts) != set(truth):
        raise Fail('other fonts', file=data, result=sorted(fonts))
    for name, info in truth.items():
        wl = 2 if info['t0'] else 1
        for _ in range(3):
            codes = g_codes(r, info['tu'] or {}, wl)
            t = token(r, b''.join(c.to_bytes(wl, 'big') for c in codes))
            if info['tu'] is None:
                codes = [c for c in codes if c < 128]
                t = token(r, bytes(codes))
            ts = {'Tf': name}
            us, width = text_element_to_unicode(fonts, [t, 'Tj'], ts)
            us2, width2 = text_element_to_unicode(fonts, [[t], 'TJ'], ts)
            if (us, width) != (us2, width2):
                raise Fail('Tj and TJ differ', file=data, font=name, string=t, Tj=(us, width), TJ=(us2, width2))
            if info['tu'] is not None and us != expected(codes, info['tu']):
                raise Fail('wrong text', file=data, font=name, cmap=info['cm'], string=t, result=us, expected=expected(codes, info['tu']))
            ws = [info['w'](c) for c in codes]
            if None not in ws and abs(width - sum(ws) / 1000) > 1e-6:
                raise Fail('wrong width', file=data, font=name, string=t, result=width, expected=sum(ws) / 1000)
    content(r, data, fonts, truth)
    return data


def content(r, data, fonts, truth):
    """Every text-showing operator of a content stream, in order."""
    names = [x for x in truth if truth[x]['tu'] is not None]
    if not names:
        return
    out, exp = b'', []
    for _ in range(r.randint(1, 3)):
        out += b'BT\n'
        name = None
        for _ in range(r.randint(0, 4)):
            if name is None or r.random() < 0.4:
                name = r.choice(names)
                out += b'%s %d Tf\n' % (name.encode(), r.choice([1, 10, 12]))
            if r.random() < 0.6:
                out += b'%d %d Td\n' % (r.randint(0, 500), r.randint(-50, 500))
            info = truth[name]
            wl = 2 if info['t0'] else 1
            parts = []
            for _ in range(r.choice([1, 1, 2, 3])):
                codes = g_codes(r, info['tu'], wl)
                parts.append((token(r, b''.join(c.to_bytes(wl, 'big') for c in codes)), expected(codes, info['tu'])))
            if r.random() < 0.5:
                out += parts[0][0] + r.choice([b' Tj\n', b'Tj '])
                exp.append(parts[0][1])
            else:
                out += b'[' + r.choice([b'', b' ']).join(t for t, _ in parts) + r.choice([b'] TJ\n', b']TJ '])
                exp.append(''.join(x for _, x in parts))
        out += b'ET\n'
    res = [f[1] for f in build_text_fragments([{'stream': out}], [fonts])]
    if res != exp:
        raise Fail('wrong text shown by a content stream', file=data, content=out, result=res, expected=exp)


CHECKS = [maps, cid_widths, simple_widths, fonts]

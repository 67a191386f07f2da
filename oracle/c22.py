"""C22: nothing taken from a file becomes markup in its HTML view."""
import contextlib
import io
import os
import re
import shutil
import tempfile
from .core import Fail, n
from . import gen, pdf
from .gen import PS, ref
from pdfsyntax.cli import browse

TAG = re.compile(r'</?([a-z][a-z0-9]*)((?: [a-z][a-z-]*="[^"<>]*")*) ?/?>')
ATTR = re.compile(r' ([a-z][a-z-]*)="([^"<>]*)"')
BODY = re.compile(r'<body[^<>]*>')
HOSTILE = [b'<zzq>', b'</zzq>', b'"zzq="', b"'zzq='", b'<zzq onload="zzq">', b'</pre><zzq', b'<!--zzq', b'-->', b'<?zzq', b'"><zzq>', b'&lt;zzq', b'</div>', b'<div>',
           b'&#60;zzq>', b'</details>', b'<a href="zzq">', b' onclick=zzq ', b'<', b'>', b'"', b'&', b'<script>', b'<style>', b'<zz<zzq>', b'<br', b'< zzq', b'</']
VOIDTAGS = {'br', 'hr', 'img', 'meta', 'link', 'input', 'wbr', 'col', 'area', 'base', 'embed', 'source', 'track', 'param'}


def view(data, name):
    d = tempfile.mkdtemp(prefix='c22-')
    try:
        p = os.path.join(d, name)
        with open(p, 'wb') as f:
            f.write(data)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            browse(p)
        return out.getvalue()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(page, data, name):
    m = BODY.search(page)
    if not m or 'zzq' in page[:m.start()]:
        raise Fail('no body after the header', file=data, name=name, page=page[:300])
    i = m.end()
    stack = []
    while True:
        i = page.find('<', i)
        if i < 0:
            break
        around = page[max(0, i - 60):i + 80]
        t = TAG.match(page, i)
        if not t:
            raise Fail('a bare "<" in the page', file=data, name=name, around=around)
        tag, attrs = t.group(1), t.group(2)
        if 'zzq' in tag or any('zzq' in a or a in ('class', 'style') and 'zzq' in v for a, v in ATTR.findall(attrs)):
            raise Fail('a tag made of file content', file=data, name=name, around=around)
        if tag in ('script', 'style', 'iframe', 'object', 'embed', 'form', 'img', 'svg', 'base', 'link', 'meta', 'textarea', 'title', 'xmp', 'plaintext', 'noscript', 'template'):
            raise Fail(f'a <{tag}> tag', file=data, name=name, around=around)
        for a, v in ATTR.findall(attrs):
            if a.startswith('on') or a == 'href' and not re.fullmatch(r'(#.*|https://pdfsyntax\.dev)', v):
                raise Fail(f'an attribute made of file content: {a}={v}', file=data, name=name, around=around)
        if page[i + 1] == '/':
            if tag == 'body':
                pass
            elif not stack or stack.pop() != tag:
                raise Fail(f'</{tag}> closes nothing of the page', file=data, name=name, around=around)
        elif tag not in VOIDTAGS:
            stack.append(tag)
        i = t.end()
    if stack:
        raise Fail(f'<{stack[-1]}> is never closed', file=data, name=name)
    return page


def g_name(r):
    return r.choice(['a.pdf', 'a"onclick=zzq x.pdf', '<zzq>.pdf', "'zzq'.pdf", 'a&lt;zzq.pdf', '"><zzq>', '<img src=zzq>.pdf', 'x\n<zzq>.pdf', '\u00e9<zzq', '..<zzq>'])


def hostile(r):
    return b''.join(r.choice(HOSTILE) for _ in range(r.choice([1, 1, 2, 3])))


def lit(b):
    return b'(' + b.replace(b'\\', b'\\\\').replace(b'(', b'\\(').replace(b')', b'\\)') + b')'


def h_value(r, depth=0):
    q = r.random()
    h = hostile(r)
    pad = r.choice([b'', b'a', b'x' * r.randint(10, 40)])
    if q < 0.35:
        return lit(pad + h)
    if q < 0.5:
        return b'<' + re.sub(rb'[<>]', b'', h + b'48') + b'>'
    if q < 0.65:
        return '/' + (re.sub(rb'[<>()/%\[\]{} ]', b'', h) + r.choice([b'', b'"', b"&'"])).decode() + 'N'
    if q < 0.75 and depth < 2:
        return [h_value(r, depth + 1) for _ in range(r.randint(0, 4))]
    if q < 0.9 and depth < 2:
        return {'/' + (re.sub(rb'[<>()/%\[\]{} ]', b'', hostile(r)) + b'K').decode() if r.random() < 0.5 else r.choice(['/JS', '/S', '/Type', '/Subtype', '/Prev', '/K']):
                h_value(r, depth + 1) for _ in range(r.randint(0, 3))}
    return r.choice([lit(b'zzq' * 20 + h), '/JavaScript', 5, b'(\\<zzq>)', lit(b'\x00\xff' + h), True])


def h_doc(r):
    d = pdf.g_doc(r, maxpages=2)
    for rv in d.revs:
        for k, (g, v) in list(rv['set'].items()):
            if isinstance(v, dict) and isinstance(v.get('/MediaBox'), complex):
                v = dict(v)
                v['/MediaBox'] = [0, 0, 612, 792]
                rv['set'][k] = (g, v)
            if r.random() < 0.4:
                if isinstance(v, PS) and v.d.get('/Type') not in ('/XRef', '/ObjStm') and '/Filter' not in v.d and not isinstance(v.d.get('/Length'), complex):
                    raw = v.raw[:20] + hostile(r) + r.choice([b'', b'\x01', b'\xff'])
                    dd = dict(v.d)
                    dd['/Length'] = len(raw)
                    rv['set'][k] = (g, PS(dd, raw))
                elif isinstance(v, dict):
                    v = dict(v)
                    v[r.choice(['/Zz', '/Info2', '/JS', '/A'])] = h_value(r)
                    rv['set'][k] = (g, v)
    top = max(k for rv in d.revs for k in list(rv['set']) + list(rv['del'])) + 1
    rv = d.revs[0]
    for i in range(r.randint(0, 4)):
        rv['set'][top + i] = (0, h_value(r) if r.random() < 0.7 else (lambda b: PS({'/Length': len(b), '/K': h_value(r)}, b))(hostile(r) * 3))
    return d


def insert(r, data):
    """Hostile bytes put anywhere."""
    data = bytearray(data)
    for _ in range(r.choice([1, 1, 2])):
        q = r.random()
        h = hostile(r)
        if q < 0.3:
            h = b'%' + h + b'\n'
        elif q < 0.4:
            h = b'\n' + h + b'\n'
        spots = [m.start() for m in re.finditer(rb'(?<=[ \n\r])(?=[\w(</%])', bytes(data))] or [0]
        i = r.choice(spots)
        if q > 0.7:
            m = re.compile(rb'[\w.]+').match(data, i)
            if m:
                data[i:m.end()] = h
                continue
        data[i:i] = h
    return bytes(data)


@n(900, 10.0)
def documents(r):
    f = pdf.build(h_doc(r), r)
    name = g_name(r)
    check(view(f.data, name), f.data, name)
    return f.data


@n(2500, 10.0)
def damaged(r):
    data = pdf.build(h_doc(r) if r.random() < 0.5 else pdf.g_doc(r, maxpages=2), r, header=r.choice([None, b'%PDF-1.4' + hostile(r) + b'\n', b'%' + hostile(r) + b'\n%PDF-1.4\n'])).data
    if r.random() < 0.85:
        data = insert(r, data)
    name = g_name(r)
    try:
        page = view(data, name)
    except MemoryError:
        raise
    except Exception:
        return None
    check(page, data, name)
    return data


CHECKS = [documents, damaged]

"""C04: filters, against zlib/binascii/base64 applied step by step."""
import base64
import binascii
import zlib
from .core import Fail, n
from . import gen
from pdfsyntax.filters import encode_stream, decode_stream
from pdfsyntax.objects import forge_stream, parse_obj, serialize, Stream

F = ['/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode']
PLACE = b'#PDFSyntaxException'


def enc1(f, b, r=None):
    if f == F[0]:
        return zlib.compress(b, r.choice([0, 1, 6, 9]) if r else 6)
    if f == F[1]:
        h = binascii.hexlify(b)
        if r:
            k = r.random()
            if k < 0.3:
                h = h.upper()
            if k > 0.5:
                h = b''.join(h[i:i + 2] + r.choice([b'', b'', b' ', b'\n', b'\r\n']) for i in range(0, len(h), 2))
            h += r.choice([b'', b'>', b' >', b'>\n', b'>' if k < 0.9 else b'>ff'])
        return h
    e = base64.a85encode(b) + b'~>'
    return e


def g_filter(r, maxn=4):
    fs = [r.choice(F) for _ in range(r.choice([1, 1, 2, 2, 3, maxn]))]
    if len(fs) == 1 and r.random() < 0.6:
        return fs[0], fs
    return list(fs), fs


def g_bytes(r):
    b = gen.g_content(r)
    return b


@n(5000)
def inverse(r):
    b = g_bytes(r)
    spec, fs = g_filter(r)
    d = {'/Filter': spec}
    e = encode_stream(b, d)
    got = decode_stream(e, d)
    if got != b:
        raise Fail('decode(encode(x)) != x', filter=spec, content=b, encoded=e, decoded=got)
    if d != {'/Filter': spec}:
        raise Fail('the dictionary was modified', filter=spec, after=d)
    x = b
    for f in reversed(fs):
        x = {F[0]: lambda v: None, F[1]: None, F[2]: None} and x
    y = e
    for f in fs:      # an independent decoder undoes the encoding in the order listed
        try:
            if f == F[0]:
                y = zlib.decompress(y)
            elif f == F[1]:
                y = binascii.unhexlify(b''.join(y.rstrip(b'>').split()))
            else:
                y = base64.a85decode(y, adobe=True)
        except Exception as ex:
            raise Fail(f'encoded content is not decodable in the order listed: {ex}', filter=spec, content=b, encoded=e)
    if y != b:
        raise Fail('encoded content decodes to something else', filter=spec, content=b, encoded=e)
    return spec, b


@n(5000)
def chain(r):
    """Content encoded independently decodes, filter by filter."""
    b = g_bytes(r)
    spec, fs = g_filter(r)
    e = b
    for f in reversed(fs):
        e = enc1(f, e, r)
    d = {'/Filter': spec}
    if r.random() < 0.2:
        d['/DecodeParms'] = r.choice([[{} for _ in fs], ['null' for _ in fs]]) if len(fs) > 1 or type(spec) is list else {}
    got = decode_stream(e, d)
    if got != b:
        raise Fail('wrong decoded content', dictionary=d, content=b, encoded=e, decoded=got)
    return spec, b


@n(4000)
def total(r):
    """Undecodable data or an unsupported filter gives placeholder bytes, no exception."""
    b = r.choice([b'', b'x', b'zz', b'\xff' * 5, b'<~', b'~>', b'<~zzzzzz~>', b'123', b'G1', zlib.compress(b'abcdef')[:-3], zlib.compress(b'abc')[:4],
                  gen.g_content(r)])
    k = r.random()
    if k < 0.5:
        spec, fs = g_filter(r)
        bad = None
    else:
        bad = r.choice(['/DCTDecode', '/LZWDecode', '/Crypt', '/JPXDecode', '/RunLengthDecode', '/Foo', '/flatedecode'])
        fs = [bad] if r.random() < 0.5 else [bad, r.choice(F)]
        spec = bad if len(fs) == 1 and r.random() < 0.5 else fs
    try:
        got = decode_stream(b, {'/Filter': spec})
    except Exception as e:
        raise Fail(f'decoding raises {type(e).__name__}: {e}', filter=spec, data=b)
    if not isinstance(got, bytes):
        raise Fail('decoded content is not bytes', filter=spec, data=b, decoded=got)
    ref, ok = b, True
    for f in fs:
        try:
            if f == F[0]:
                ref = zlib.decompress(ref)
            elif f == F[1]:
                h = b''.join(ref.split(b'>')[0].split())
                ref = binascii.unhexlify(h + b'0' * (len(h) % 2))
            elif f == F[2]:
                ref = base64.a85decode(ref, adobe=True)
            else:
                ok = False
        except Exception:
            ok = False
        if not ok:
            break
    if ok and got != ref:
        raise Fail('wrong decoded content', filter=spec, data=b, decoded=got, expected=ref)
    if not ok and not got.startswith(PLACE):
        raise Fail('undecodable data does not give the placeholder', filter=spec, data=b, decoded=got)
    if bad:
        e = encode_stream(b, {'/Filter': spec})
        if not isinstance(e, bytes) or not e.startswith(PLACE):
            raise Fail('encoding with an unsupported filter does not give the placeholder', filter=spec, result=e)
    if r.random() < 0.3:
        if decode_stream(b, {}) != b or encode_stream(b, {}) != b:
            raise Fail('content without filter changes', data=b)
    return spec, b


@n(2500)
def forged(r):
    b = g_bytes(r)
    spec, fs = g_filter(r)
    d = {'/Filter': spec, '/K': 1}
    s, ln = forge_stream(dict(d), b)
    if s['stream'] != b or ln != len(s['encoded']) or s['entries']['/Length'] != ln or s['entries']['/Filter'] != spec:
        raise Fail('forged stream is inconsistent', filter=spec, content=b, stream=s)
    if decode_stream(s['encoded'], s['entries']) != b:
        raise Fail('forged stream does not decode to its content', filter=spec, content=b, stream=s)
    p = parse_obj(serialize(s))
    if p['stream'] != b or p['encoded'] != s['encoded']:
        raise Fail('forged stream does not read back', filter=spec, content=b, parsed=p)
    return spec, b


CHECKS = [inverse, chain, total, forged]

"""C05: PNG Up predictor."""
import zlib
from .core import Fail, n
from pdfsyntax.filters import decode_predictor, decode_stream
from pdfsyntax.objects import parse_obj


def up(rows, cols, tag):
    prev = [0] * cols
    out = b''
    for row in rows:
        out += bytes([tag]) + bytes((a - b) & 255 for a, b in zip(row, prev))
        prev = list(row)
    return out


def rows_of(r):
    cols = r.choice([1, 1, 2, 3, 4, 5, 7, 16, 40, 255, 300])
    nr = r.choice([0, 1, 1, 2, 3, 5, 9])
    hi = r.choice([2, 256])
    return cols, [bytes(r.choice([0, 255, 128, r.randrange(hi)]) for _ in range(cols)) for _ in range(nr)]


@n(4000)
def direct(r):
    cols, rows = rows_of(r)
    data = up(rows, cols, 2)
    got = decode_predictor(data, 12, cols)
    if got != b''.join(rows):
        raise Fail('wrong rows', data=data, columns=cols, result=got, expected=b''.join(rows))
    return cols, data


@n(3000)
def arbitrary(r):
    """Any encoded bytes (any tag byte), the last row may be cut short."""
    cols = r.choice([1, 2, 3, 5, 8])
    data = bytes(r.choice([2, 2, 0, 255, r.randrange(256)]) for _ in range(r.randint(0, 60)))
    out, prev = b'', [0] * cols
    for i in range(0, len(data), cols + 1):
        row = data[i + 1:i + 1 + cols]
        dec = [(a + b) & 255 for a, b in zip(row, prev)]
        out += bytes(dec)
        prev = dec + [0] * (cols - len(dec))
    got = decode_predictor(data, 12, cols)
    if got != out:
        raise Fail('wrong rows', data=data, columns=cols, result=got, expected=out)
    return cols, data


@n(2500)
def in_stream(r):
    cols, rows = rows_of(r)
    e = zlib.compress(up(rows, cols, 2))
    parms = {'/Predictor': r.choice([12, 12, 12]), '/Columns': cols}
    extra = r.choice([0, 1])
    k = r.random()
    if k < 0.4:
        d = {'/Filter': '/FlateDecode', '/DecodeParms': parms}
    elif k < 0.7:
        d = {'/Filter': ['/FlateDecode'], '/DecodeParms': [parms]}
    else:
        import binascii
        e = binascii.hexlify(e)
        d = {'/Filter': ['/ASCIIHexDecode', '/FlateDecode'], '/DecodeParms': ['null', parms] if extra else [{}, parms]}
    got = decode_stream(e, d)
    if got != b''.join(rows):
        raise Fail('wrong rows in a stream', dictionary=d, data=e, result=got, expected=b''.join(rows))
    return d, e


CHECKS = [direct, arbitrary, in_stream]

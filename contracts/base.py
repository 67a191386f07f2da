"""Spec functions giving the meaning of Python's own conversions, and general lemmas about them."""
import base64
import zlib
from pyvc.api import *
from pyvc.core import *


@spec(['int'], 'str')
def dec(n):
    """Decimal representation (str(n))."""
    if n < 0:
        return '-' + dec(0 - n)
    if n < 10:
        return chr(48 + n)
    return dec(n // 10) + chr(48 + n % 10)


@lemma({'n': 'int', 'j': 'int'}, props=['C02'])
class dec_ascii:
    """Digits and a sign."""
    def requires(n, j):
        return 0 <= j and j < len(dec(n))

    def ensures(n, j):
        return 45 <= ord(dec(n)[j]) and ord(dec(n)[j]) <= 57

    def measure(n, j):
        return 0 - 2 * n if n < 0 else n

    def hints(n, j):
        return {'ih': implies(n >= 10, ih(n // 10, j)), 'neg': implies(n < 0, ih(0 - n, j - 1))}


@spec(['bytes'], 'bool', opaque=True)
def is_int(s):
    try:
        int(s)
        return True
    except ValueError:
        return False


@spec(['bytes'], 'int', opaque=True)
def int_val(s):
    return int(s)


@spec(['bytes'], 'bool', opaque=True)
def is_real(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


@spec(['bytes'], 'real', opaque=True)
def real_val(s):
    return float(s)


@spec(['bytes', 'int'], 'any', opaque=True)
def parsed(text, start):
    """The object read at a position of a text (parse_obj's own result; C01 and C02 say what it is)."""
    import pdfsyntax.objects
    return pdfsyntax.objects.parse_obj(text, start)


# ---- the keys of a dictionary, in some fixed order
DICT = dct('str', 'any')


def _ax_nkeys(d, r):
    return r >= 0


@spec([DICT], 'int', opaque=True, axioms=_ax_nkeys)
def nkeys(d):
    """How many keys a dictionary has."""
    return len(d)


def _ax_key_at(d, i, r):
    return implies(0 <= i and i < nkeys(d), r in d and key_pos(d, r) == i)


@spec([DICT, 'int'], 'str', opaque=True, axioms=_ax_key_at)
def key_at(d, i):
    """The i-th key of a dictionary, in the order of iteration: each key once."""
    return list(d)[i]


def _ax_key_pos(d, k, r):
    return implies(k in d, 0 <= r and r < nkeys(d) and key_at(d, r) == k)


@spec([DICT, 'str'], 'int', opaque=True, axioms=_ax_key_pos)
def key_pos(d, k):
    """The place of a key in the order of iteration."""
    return list(d).index(k)


# ---- digits
@spec(['bytes'], 'bool', inline=True)
def is_oct(s):
    """One to three octal digits: among what int(s, 8) accepts, all the code relies on."""
    n = len(s)
    return (1 <= n and n <= 3 and 48 <= s[0] and s[0] <= 55 and (n < 2 or (48 <= s[1] and s[1] <= 55))
            and (n < 3 or (48 <= s[2] and s[2] <= 55)))


@spec(['bytes'], 'int', inline=True)
def oct_val(s):
    n = len(s)
    if n == 1:
        return s[0] - 48
    if n == 2:
        return (s[0] - 48) * 8 + s[1] - 48
    return ((s[0] - 48) * 8 + s[1] - 48) * 8 + s[2] - 48


# ---- joining
@spec([lst('str'), 'int'], 'str')
def cat_str(xs, n):
    """''.join(xs[:n])"""
    if n <= 0:
        return ''
    return cat_str(xs, n - 1) + xs[n - 1]


@spec([lst('bytes'), 'int'], 'bytes')
def cat_bytes(xs, n):
    if n <= 0:
        return b''
    return cat_bytes(xs, n - 1) + xs[n - 1]


@spec(['str'], 'str', opaque=True)
def fixed_point(s):
    """A decimal number written without exponent: f'{Decimal(s):f}'"""
    from decimal import Decimal
    return f'{Decimal(s):f}'


# ---- hexadecimal
@spec(['bytes', 'bytes'], 'bytes')
def drop_bytes(s, cs):
    """s.translate(None, cs)"""
    if len(s) == 0:
        return b''
    return (b'' if s[0:1] in cs else s[0:1]) + drop_bytes(s[1:], cs)


@spec(['int'], 'bool', inline=True)
def hexdigit(c):
    return (48 <= c and c <= 57) or (65 <= c and c <= 70) or (97 <= c and c <= 102)


@spec(['int'], 'int', inline=True)
def digit_val(c):
    return c - 48 if c <= 57 else (c - 55 if c <= 70 else c - 87)


@spec(['bytes'], 'bool')
def all_hex(s):
    """Hexadecimal digits only."""
    if len(s) == 0:
        return True
    return hexdigit(s[len(s) - 1]) and all_hex(s[:len(s) - 1])


@spec(['bytes'], 'bytes')
def unhex(s):
    """Bytes given by pairs of hexadecimal digits."""
    if len(s) < 2:
        return b''
    return bytes([16 * digit_val(s[0]) + digit_val(s[1])]) + unhex(s[2:])


@spec(['str'], 'bytes')
def fromhex(s):
    """bytes.fromhex of digits only."""
    return unhex(s.encode('latin-1'))


@spec(['str'], 'bool')
def is_hex(s):
    return all_hex(s.encode('latin-1')) and len(s) % 2 == 0


@spec(['bytes'], 'str', opaque=True)
def dec_utf16be(s):
    return s.decode('utf-16be')


@spec(['bytes'], 'bool', opaque=True)
def ok_utf16be(s):
    try:
        s.decode('utf-16be')
        return True
    except UnicodeDecodeError:
        return False


# ---- splitting (Python's own, of which only these facts are used)
@spec(['bytes', 'bytes'], 'bool', inline=True)
def apart(s, sep):
    """sep (one byte) does not occur in s."""
    return forall(0, len(s), lambda k: s[k] != sep[0])


@spec(['int'], 'bool', inline=True)
def white(c):
    return c == 32 or (9 <= c and c <= 13)


def _ax_split(s, sep):
    return implies(len(sep) == 1, len(split_bytes(s, sep)) >= 1 and
                   implies(forall(0, len(s), lambda k: s[k] != sep[0]), split_bytes(s, sep) == [s]))


@spec(['bytes', 'bytes'], lst('bytes'), opaque=True, axioms=_ax_split)
def split_bytes(s, sep):
    return s.split(sep)


def _ax_split_ws(s):
    return {'one': implies(len(s) > 0 and forall(0, len(s), lambda k: not (s[k] == 32 or (9 <= s[k] and s[k] <= 13))),
                           split_ws_bytes(s) == [s]),
            'none': implies(len(s) == 0, len(split_ws_bytes(s)) == 0)}


@spec(['bytes'], lst('bytes'), opaque=True, axioms=_ax_split_ws)
def split_ws_bytes(s):
    return s.split()


def _ax_split_ws_str(s):
    return implies(len(s) > 0 and forall(0, len(s), lambda k: ord(s[k]) > 32 and ord(s[k]) < 127), split_ws_str(s) == [s])


@spec(['str'], lst('str'), opaque=True, axioms=_ax_split_ws_str)
def split_ws_str(s):
    return s.split()


# ---- library codecs
def _ax_zlib(s):
    return ok_zlib_decompress(zlib_compress(s)) and zlib_decompress(zlib_compress(s)) == s


@spec(['bytes'], 'bytes', opaque=True, axioms=_ax_zlib)
def zlib_compress(s):
    return zlib.compress(s)


@spec(['bytes'], 'bytes', opaque=True)
def zlib_decompress(s):
    return zlib.decompress(s)


@spec(['bytes'], 'bool', opaque=True)
def ok_zlib_decompress(s):
    try:
        zlib.decompress(s)
        return True
    except zlib.error:
        return False


def _ax_a85(s):
    return ok_a85_decode_adobe(a85_encode_adobe(s)) and a85_decode_adobe(a85_encode_adobe(s)) == s


@spec(['bytes'], 'bytes', opaque=True, axioms=_ax_a85)
def a85_encode_adobe(s):
    return base64.a85encode(s, adobe=True)


@spec(['bytes'], 'bytes', opaque=True)
def a85_decode_adobe(s):
    return base64.a85decode(s, adobe=True)


@spec(['bytes'], 'bool', opaque=True)
def ok_a85_decode_adobe(s):
    try:
        base64.a85decode(s, adobe=True)
        return True
    except ValueError:
        return False


# ---- hexadecimal output
@spec(['int'], 'int', inline=True)
def hex_char(d):
    return 48 + d if d < 10 else 87 + d


@spec(['bytes'], 'bytes')
def hexlify(s):
    if len(s) == 0:
        return b''
    return bytes([hex_char(s[0] // 16), hex_char(s[0] % 16)]) + hexlify(s[1:])


@spec(['bytes'], 'bytes')
def upper_bytes(s):
    if len(s) == 0:
        return b''
    return bytes([s[0] - 32 if 97 <= s[0] and s[0] <= 122 else s[0]]) + upper_bytes(s[1:])


@spec(['bytes'], 'bytes')
def unhexlify(s):
    return unhex(s)


@spec(['bytes'], 'bool')
def ok_unhexlify(s):
    return len(s) % 2 == 0 and all_hex(s)


# ---- padding (format with a width)
@spec(['int'], 'str')
def spaces(n):
    if n <= 0:
        return ''
    return spaces(n - 1) + ' '


@spec(['int'], 'str')
def newlines(n):
    if n <= 0:
        return ''
    return newlines(n - 1) + '\n'


@spec(['int'], 'str')
def zeros(n):
    if n <= 0:
        return ''
    return zeros(n - 1) + '0'


@spec(['int', 'int'], 'str', inline=True)
def pad0(n, w):
    """format(n, '0w')"""
    d = dec(n if n >= 0 else 0 - n)
    return zeros(w - len(d)) + d if n >= 0 else '-' + zeros(w - 1 - len(d)) + d


@spec(['str', 'int'], 'str', inline=True)
def padl(s, w):
    return spaces(w - len(s)) + s


@spec(['str', 'int'], 'str', inline=True)
def padr(s, w):
    return s + spaces(w - len(s))


# ---- text of values
@spec(['any'], 'str', opaque=True)
def any_str(v):
    return str(v)


@spec(['real'], 'str', opaque=True)
def float_str(v):
    return str(v)


@spec(['str'], 'str', opaque=True)
def basename(s):
    import os
    return os.path.basename(s)


@spec(['bytes'], 'str', inline=True)
def hexs(s):
    return hexlify(s).decode('latin-1')


@spec(['str'], 'str')
def escaped(s):
    """html.escape(s)"""
    if len(s) == 0:
        return ''
    c = s[len(s) - 1]
    return escaped(s[:len(s) - 1]) + ('&amp;' if c == '&' else '&lt;' if c == '<' else '&gt;' if c == '>' else
                                      '&quot;' if c == '"' else '&#x27;' if c == "'" else c)


@spec(['str'], 'str')
def escaped_text(s):
    """html.escape(s, quote=False)"""
    if len(s) == 0:
        return ''
    c = s[len(s) - 1]
    return escaped_text(s[:len(s) - 1]) + ('&amp;' if c == '&' else '&lt;' if c == '<' else '&gt;' if c == '>' else c)


@spec(['str', 'str', 'str'], 'str')
def replace_str(s, a, b):
    """s.replace(a, b) where a is one character."""
    if len(s) == 0:
        return ''
    c = s[len(s) - 1]
    return replace_str(s[:len(s) - 1], a, b) + (b if c == a else c)


@spec(['bytes'], 'int')
def be_int(s):
    """Unsigned number, most significant byte first."""
    if len(s) == 0:
        return 0
    return be_int(s[:len(s) - 1]) * 256 + s[len(s) - 1]


@spec(['int', 'int'], 'bool')
def fits(n, w):
    """n can be written with w bytes."""
    return n == 0 if w <= 0 else n >= 0 and fits(n // 256, w - 1)


@spec(['int', 'int'], 'bytes')
def be_bytes(n, w):
    """n written with w bytes, most significant first."""
    if w <= 0:
        return b''
    return be_bytes(n // 256, w - 1) + bytes([n % 256])


@lemma({'n': 'int', 'w': 'int'}, props=['C06', 'C08'])
class be_round:
    """What is written with enough bytes reads back."""
    def requires(n, w):
        return w >= 0 and fits(n, w)

    def ensures(n, w):
        return {'value': be_int(be_bytes(n, w)) == n, 'width': len(be_bytes(n, w)) == w}

    def measure(w):
        return w

    def hints(n, w):
        b = be_bytes(n, w)
        return {'ih': implies(w > 0, ih(n // 256, w - 1)),
                'last': implies(w > 0, b[len(b) - 1] == n % 256 and b[:len(b) - 1] == be_bytes(n // 256, w - 1))}

"""String objects (C03)."""
from pyvc.api import *
from pyvc.core import *
from contracts.base import *


@spec(['bytes', 'int'], 'bool', inline=True)
def octal_at(s, i):
    return i < len(s) and 48 <= s[i] and s[i] <= 55


@spec(['bytes', 'int'], 'int', inline=True)
def esc_len(s, i):
    """Number of bytes of s making up the element at i of a literal string."""
    if s[i] == 92:
        if octal_at(s, i + 1):
            return 4 if octal_at(s, i + 2) and octal_at(s, i + 3) else (3 if octal_at(s, i + 2) else 2)
        if i + 2 < len(s) and s[i + 1] == 13 and s[i + 2] == 10:
            return 3
        if i + 1 < len(s) and s[i + 1] in (40, 41, 110, 114, 116, 98, 102, 92, 10, 13):
            return 2
        return 1
    if s[i] == 13 and i + 1 < len(s) and s[i + 1] == 10:
        return 2
    return 1


@spec(['bytes', 'int'], 'bytes', inline=True)
def esc_val(s, i):
    """What that element denotes (7.3.4.2)."""
    if s[i] == 92:
        if octal_at(s, i + 1):
            a = s[i + 1] - 48
            if octal_at(s, i + 2):
                a = a * 8 + s[i + 2] - 48
                if octal_at(s, i + 3):
                    a = a * 8 + s[i + 3] - 48
            return bytes([a % 256])
        if i + 1 >= len(s):
            return b''
        c = s[i + 1]
        if c == 40 or c == 41 or c == 92:
            return bytes([c])
        if c == 110:
            return b'\n'
        if c == 114:
            return b'\r'
        if c == 116:
            return b'\t'
        if c == 98:
            return b'\b'
        if c == 102:
            return b'\f'
        return b''
    if s[i] == 13:
        return b'\n'
    return bytes([s[i]])


@spec(['bytes', 'int'], 'bytes')
def denoted(s, i):
    """Bytes the content of a literal string denotes, from i on."""
    if i < 0 or i >= len(s):
        return b''
    return esc_val(s, i) + denoted(s, i + esc_len(s, i))


@contract('text.unescape_literal_string', {'string': 'bytes'}, 'bytes', props=['C03'], raises='no')
class unescape_c:
    def ensures(string, result):
        return result == denoted(string, 0)

    def _inv(string, ret, i):
        return {'i': 0 <= i, 'rest': ret + denoted(string, i) == denoted(string, 0)}

    def _var(string, i):
        return len(string) - i

    def _inv1(string, i, n):
        return {'n': 1 <= n and n <= 3 and i + n < len(string),
                'oct': octal_at(string, i + 1) and implies(n >= 2, octal_at(string, i + 2))
                and implies(n >= 3, octal_at(string, i + 3))}

    def _var1(n):
        return 3 - n
    loops = {0: Loop(_inv, _var), 1: Loop(_inv1, _var1)}


# ---- PDFDocEncoding (Annex D)
PDFDOC = (list(range(0x18)) + [0x2d8, 0x2c7, 0x2c6, 0x2d9, 0x2dd, 0x2db, 0x2da, 0x2dc] + list(range(0x20, 0x80))
          + [0x2022, 0x2020, 0x2021, 0x2026, 0x2014, 0x2013, 0x192, 0x2044, 0x2039, 0x203a, 0x2212, 0x2030, 0x201e,
             0x201c, 0x201d, 0x2018, 0x2019, 0x201a, 0x2122, 0xfb01, 0xfb02, 0x141, 0x152, 0x160, 0x178, 0x17d, 0x131,
             0x142, 0x153, 0x161, 0x17e, 0x9f, 0x20ac] + list(range(0xa1, 0x100)))


@spec(['bytes', 'int'], 'str')
def pdfdoc_text(s, n):
    """Characters of the first n bytes."""
    if n <= 0:
        return ''
    return pdfdoc_text(s, n - 1) + chr(PDFDOC[s[n - 1]])


@lemma({'xs': lst('str'), 's': 'bytes', 'n': 'int'}, props=['C03'])
class pdfdoc_cat:
    def requires(xs, s, n):
        return {'n': 0 <= n and n <= len(s) and len(xs) == len(s),
                'all': forall(0, len(s), lambda k: xs[k] == chr(PDFDOC[s[k]]))}

    def ensures(xs, s, n):
        return cat_str(xs, n) == pdfdoc_text(s, n)

    def measure(n):
        return n

    def hints(xs, s, n):
        return ih(xs, s, n - 1)


@contract('text.decode_pdfdoc', {'string': 'bytes'}, 'str', props=['C03'], raises='no')
class decode_pdfdoc_c:
    def ensures(string, result):
        return result == pdfdoc_text(string, len(string))

    def hints(string, chars):
        return pdfdoc_cat(chars, string, len(string))


@spec(['bytes'], 'bytes', inline=True)
def hex_denoted(s):
    """Bytes a hexadecimal string denotes: white space is ignored, a missing last digit is 0."""
    h = drop_bytes(s[1:len(s) - 1], b'\r\n\x00\x09\x0c\x20')
    return unhex(h + b'0' * (len(h) % 2))


@spec(['bytes'], 'bytes')
def string_denoted(s):
    """Bytes a literal or hexadecimal string denotes."""
    return hex_denoted(s) if s[0] == 60 else denoted(s[1:len(s) - 1], 0)


@spec(['bytes'], 'bool')
def string_ok(s):
    """A complete string object."""
    return len(s) >= 2 and (s[0] == 40 or (
        s[0] == 60 and all_hex(drop_bytes(s[1:len(s) - 1], b'\r\n\x00\x09\x0c\x20'))))


@lemma({'h': 'bytes'}, props=['C03'])
class hex_ascii:
    def requires(h):
        return all_hex(h)

    def ensures(h):
        return forall(0, len(h), lambda k: 0 <= h[k] and h[k] < 128)

    def measure(h):
        return len(h)

    def hints(h):
        return ih(h[:len(h) - 1])


@lemma({'h': 'bytes'}, props=['C03'])
class hex_pad:
    def requires(h):
        return all_hex(h)

    def ensures(h):
        p = h + b'0' * (len(h) % 2)
        return {'hex': all_hex(p), 'even': len(p) % 2 == 0}


@contract('text.string_bytes', {'string': 'bytes'}, 'bytes', props=['C03', 'C21'], raises='no')
class string_bytes_c:
    def requires(string):
        return string_ok(string)

    def entry_hints(string):
        h = drop_bytes(string[1:len(string) - 1], b'\r\n\x00\x09\x0c\x20')
        return implies(string[0] == 60, hex_pad(h) and hex_ascii(h + b'0' * (len(h) % 2)))

    def ensures(string, result):
        return result == string_denoted(string)


@contract('text.text_string', {'string': 'bytes'}, 'str', props=['C03'], raises='no')
class text_string_c:
    def requires(string):
        d = string_denoted(string)
        return string_ok(string) and (not (d[:2] == b'\xfe\xff') or ok_utf16be(d[2:]))

    def ensures(string, result):
        d = string_denoted(string)
        return {'utf-16': implies(d[:2] == b'\xfe\xff', result == dec_utf16be(d[2:])),
                'pdfdoc': implies(d[:2] != b'\xfe\xff', result == pdfdoc_text(d, len(d)))}


@spec(['bytes', 'int', 'int'], lst('int'))
def codes(s, w, k):
    """The first k character codes of w bytes each."""
    if k <= 0:
        return []
    return codes(s, w, k - 1) + [be_int(s[(k - 1) * w:(k - 1) * w + w])]


@lemma({'xs': lst('int'), 's': 'bytes', 'w': 'int', 'k': 'int'}, props=['C21'])
class codes_all:
    def requires(xs, s, w, k):
        return 0 <= k and k <= len(xs) and forall(0, len(xs), lambda j: xs[j] == be_int(s[j * w:j * w + w]))

    def ensures(xs, s, w, k):
        return xs[:k] == codes(s, w, k)

    def measure(k):
        return k

    def hints(xs, s, w, k):
        return {'ih': implies(k > 0, ih(xs, s, w, k - 1)), 'cut': implies(k > 0, xs[:k] == xs[:k - 1] + [xs[k - 1]])}


@contract('text.tokenize_string', {'string': 'bytes', 'word_l': const(1)}, lst('int'), props=['C21'], raises='no',
          name='text.tokenize_string[1]')
class tokenize_one_c:
    """One code per byte."""
    def requires(string):
        return string_ok(string)

    def ensures(string, result):
        d = string_denoted(string)
        return result == codes(d, 1, len(d))

    def hints(string, result):
        d = string_denoted(string)
        return {'n': len(result) == len(d), 'all': codes_all(result, d, 1, len(d)), 'whole': result[:len(d)] == result}


@contract('text.tokenize_string', {'string': 'bytes', 'word_l': const(2)}, lst('int'), props=['C21'], raises='no',
          name='text.tokenize_string[2]')
class tokenize_two_c:
    """One code per pair of bytes."""
    def requires(string):
        return string_ok(string)

    def ensures(string, result):
        d = string_denoted(string)
        return result == codes(d, 2, (len(d) + 1) // 2)

    def hints(string, result):
        d = string_denoted(string)
        n = (len(d) + 1) // 2
        return {'n': len(result) == n, 'all': codes_all(result, d, 2, n), 'whole': result[:n] == result}

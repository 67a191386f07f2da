"""Stream filters (C04)."""
from pyvc.api import *
from pyvc.core import *
from contracts.base import *

ANYS = lst('any')
PLACEHOLDER = b'#PDFSyntaxException'


# ---- ASCIIHex
@lemma({'s': 'bytes'})
class all_hex_front:
    """all_hex from the front."""
    def requires(s):
        return len(s) >= 1 and hexdigit(s[0]) and all_hex(s[1:])

    def ensures(s):
        return all_hex(s)

    def measure(s):
        return len(s)

    def hints(s):
        return implies(len(s) >= 2, ih(s[:len(s) - 1]))


@spec(['bytes'], 'bytes')
def hex_out(s):
    """ASCIIHex as written."""
    return upper_bytes(hexlify(s))


@spec(['int'], 'int', inline=True)
def HEX(d):
    return 48 + d if d < 10 else 55 + d


@lemma({'s': 'bytes'})
class upper_step:
    def requires(s):
        return len(s) >= 1

    def ensures(s):
        return upper_bytes(s) == bytes([s[0] - 32 if 97 <= s[0] and s[0] <= 122 else s[0]]) + upper_bytes(s[1:])


@lemma({'s': 'bytes'})
class hex_step:
    def requires(s):
        return len(s) >= 1

    def ensures(s):
        return hex_out(s) == bytes([HEX(s[0] // 16), HEX(s[0] % 16)]) + hex_out(s[1:])

    def hints(s):
        h = hexlify(s)
        return {'h': h[2:] == hexlify(s[1:]) and h[0] == hex_char(s[0] // 16) and h[1] == hex_char(s[0] % 16)
                and len(h) >= 2,
                'u': upper_step(h), 'u2': upper_step(h[1:]), 'tail': h[1:][1:] == hexlify(s[1:])}


@lemma({'s': 'bytes'}, props=['C04'])
class hex_out_ok:
    """Upper-case digits only, an even number, and back."""
    def ensures(s):
        h = hex_out(s)
        return {'len': len(h) == 2 * len(s),
                'all_hex': all_hex(h),
                'back': unhex(h) == s}

    def measure(s):
        return len(s)

    def hints(s):
        h = hex_out(s)
        n = len(s) >= 1
        return {'ih': implies(n, ih(s[1:])), 'step': implies(n, hex_step(s)),
                't': implies(n, h[2:] == hex_out(s[1:])), 't1': implies(n, h[1:][1:] == hex_out(s[1:])),
                'f': implies(n, all_hex_front(h[1:])), 'g': implies(n, all_hex_front(h))}


@spec(['int'], 'bool', inline=True)
def CAP(c):
    return (48 <= c and c <= 57) or (65 <= c and c <= 70)


@lemma({'s': 'bytes', 'k': 'int'}, props=['C04'])
class hex_out_at:
    """Nothing but upper-case digits."""
    def requires(s, k):
        return 0 <= k and k < 2 * len(s)

    def ensures(s, k):
        return CAP(hex_out(s)[k])

    def measure(s, k):
        return len(s)

    def hints(s, k):
        return {'len': hex_out_ok(s), 'ih': implies(k >= 2, ih(s[1:], k - 2)), 'step': hex_step(s)}


@contract('filters.asciihex', {'stream': 'bytes', 'columns': 'none'}, 'bytes', props=['C04'], raises='no')
class asciihex_c:
    def ensures(stream, columns, result):
        return result == hex_out(stream)


# ---- one filter
@spec(['any'], 'bool', inline=True)
def supported(f):
    return f == '/FlateDecode' or f == '/ASCIIHexDecode' or f == '/ASCII85Decode'


@spec(['any', 'bytes'], 'bytes')
def filter_out(f, x):
    """x encoded for filter f."""
    if f == '/FlateDecode':
        return zlib_compress(x)
    if f == '/ASCIIHexDecode':
        return hex_out(x)
    return a85_encode_adobe(x)


@spec(['bytes'], 'bytes')
def hex_digits(y):
    """The digits that count in ASCIIHex data: before the end marker, without white space, completed with 0."""
    p = split_ws_bytes(split_bytes(y, b'>')[0])
    d = cat_bytes(p, len(p))
    return d + b'0' * (len(d) % 2)


@spec(['any', 'bytes'], 'bool')
def filter_ok(f, y):
    if f == '/FlateDecode':
        return ok_zlib_decompress(y)
    if f == '/ASCIIHexDecode':
        return ok_unhexlify(hex_digits(y))
    return f == '/ASCII85Decode' and ok_a85_decode_adobe(y)


@spec(['any', 'bytes'], 'bytes')
def filter_in(f, y):
    if f == '/FlateDecode':
        return zlib_decompress(y)
    if f == '/ASCIIHexDecode':
        return unhexlify(hex_digits(y))
    return a85_decode_adobe(y)


@lemma({'x': 'bytes'}, props=['C04'], unfold=4)
class hex_digits_of:
    """What is written as ASCIIHex consists of digits that count."""
    def ensures(x):
        return hex_digits(hex_out(x)) == hex_out(x)

    def hints(x):
        h = hex_out(x)
        return {'ok': hex_out_ok(x), 'at': forall(0, 2 * len(x), lambda k: hex_out_at(x, k)),
                'gt': forall(0, len(h), lambda k: h[k] != 62),
                'ws': forall(0, len(h), lambda k: not (h[k] == 32 or (9 <= h[k] and h[k] <= 13))),
                'one': split_bytes(h, b'>') == [h], 'first': split_bytes(h, b'>')[0] == h, 'cat': cat_bytes([h], 1) == h,
                'sp': implies(len(h) > 0, split_ws_bytes(h) == [h])}


@lemma({'f': 'any', 'x': 'bytes'}, props=['C04'])
class filter_inverse:
    """Every supported filter decodes what it encoded."""
    def requires(f):
        return supported(f)

    def ensures(f, x):
        return filter_ok(f, filter_out(f, x)) and filter_in(f, filter_out(f, x)) == x

    def hints(x):
        return {'d': hex_digits_of(x), 'ok': hex_out_ok(x), 'z': zlib_decompress(zlib_compress(x)) == x,
                'a': a85_decode_adobe(a85_encode_adobe(x)) == x}


# ---- chains
@spec([ANYS, 'int', 'bytes'], 'bytes')
def chain_out(fs, i, x):
    """x encoded by filters i, i + 1, ..., the last of them first."""
    if i < 0 or i >= len(fs):
        return x
    return filter_out(fs[i], chain_out(fs, i + 1, x))


@spec([ANYS, 'int', 'bytes'], 'bool')
def chain_ok(fs, i, y):
    """Every step of decoding y by filters i, i + 1, ... in order succeeds."""
    if i < 0 or i >= len(fs):
        return True
    return filter_ok(fs[i], y) and chain_ok(fs, i + 1, filter_in(fs[i], y))


@spec([ANYS, 'int', 'bytes'], 'bytes')
def chain_in(fs, i, y):
    if i < 0 or i >= len(fs):
        return y
    return chain_in(fs, i + 1, filter_in(fs[i], y))


@lemma({'fs': ANYS, 'i': 'int', 'x': 'bytes'}, props=['C04'])
class chain_inverse:
    """Decoding a chain undoes its encoding."""
    def requires(fs, i):
        return 0 <= i and i <= len(fs) and forall(0, len(fs), lambda k: supported(fs[k]))

    def ensures(fs, i, x):
        return {'ok': chain_ok(fs, i, chain_out(fs, i, x)), 'same': chain_in(fs, i, chain_out(fs, i, x)) == x}

    def measure(fs, i):
        return len(fs) - i

    def hints(fs, i, x):
        return implies(i < len(fs), ih(fs, i + 1, x) and filter_inverse(fs[i], chain_out(fs, i + 1, x)))


DICT = dct('str', 'any')


@contract('filters.encode_stream', {'stream': 'bytes', 'stream_def': DICT}, 'bytes', props=['C04'],
          raises='no', name='filters.encode_stream[array]')
class encode_array_c:
    def requires(stream_def):
        return '/Filter' in stream_def and type(stream_def['/Filter']) == list

    def ensures(stream, stream_def, result):
        fs = as_list(stream_def['/Filter'])
        ok = forall(0, len(fs), lambda k: supported(fs[k]))
        return {'chain': implies(ok, result == chain_out(fs, 0, stream)),
                'placeholder': implies(not ok, result[:len(PLACEHOLDER)] == PLACEHOLDER)}

    def _inv(stream, stream_def, filters, res, _k):
        fs = as_list(stream_def['/Filter'])
        n = len(fs)
        return {'fs': type(stream_def['/Filter']) == list and filters == fs,
                'res': res == chain_out(fs, n - _k, stream),
                'sup': forall(n - _k, n, lambda k: supported(fs[k]))}
    loops = {0: Loop(_inv)}


@contract('filters.decode_stream', {'stream': 'bytes', 'stream_def': DICT}, 'bytes', props=['C04'],
          raises='no', name='filters.decode_stream[array]', unfold=4)
class decode_array_c:
    def requires(stream_def):
        return '/Filter' in stream_def and type(stream_def['/Filter']) == list and '/DecodeParms' not in stream_def

    def ensures(stream, stream_def, result):
        fs = as_list(stream_def['/Filter'])
        ok = chain_ok(fs, 0, stream)
        return {'chain': implies(ok, result == chain_in(fs, 0, stream)),
                'placeholder': implies(not ok, result[:len(PLACEHOLDER)] == PLACEHOLDER)}

    def _inv(stream, stream_def, filters, res, parms, _k):
        fs = as_list(stream_def['/Filter'])
        return {'fs': type(stream_def['/Filter']) == list and filters == fs,
                'parms': len(parms) == len(fs) and forall(0, len(fs), lambda k: parms[k] is None),
                'ok': iff(chain_ok(fs, 0, stream), chain_ok(fs, _k, res)),
                'res': chain_in(fs, 0, stream) == chain_in(fs, _k, res)}
    loops = {0: Loop(_inv)}


@contract('filters.encode_stream', {'stream': 'bytes', 'stream_def': DICT}, 'bytes', props=['C04'],
          raises='no', name='filters.encode_stream[name]', unfold=3)
class encode_name_c:
    """/Filter given as one name."""
    def requires(stream_def):
        return '/Filter' in stream_def and type(stream_def['/Filter']) == str and supported(stream_def['/Filter'])

    def ensures(stream, stream_def, result):
        return result == filter_out(stream_def['/Filter'], stream)

    def _inv(stream, stream_def, filters, res, _k):
        f = stream_def['/Filter']
        return {'fs': len(filters) == 1 and filters[0] == f,
                'res': res == (stream if _k == 0 else filter_out(f, stream))}
    loops = {0: Loop(_inv)}


@contract('filters.decode_stream', {'stream': 'bytes', 'stream_def': DICT}, 'bytes', props=['C04'],
          raises='no', name='filters.decode_stream[name]', unfold=4)
class decode_name_c:
    def requires(stream_def):
        return '/Filter' in stream_def and type(stream_def['/Filter']) == str and supported(stream_def['/Filter']) and \
            '/DecodeParms' not in stream_def

    def ensures(stream, stream_def, result):
        f = stream_def['/Filter']
        ok = filter_ok(f, stream)
        return {'decoded': implies(ok, result == filter_in(f, stream)),
                'placeholder': implies(not ok, result[:len(PLACEHOLDER)] == PLACEHOLDER)}

    def _inv(stream, stream_def, filters, res, parms, _k):
        f = stream_def['/Filter']
        return {'fs': len(filters) == 1 and filters[0] == f,
                'parms': len(parms) == 1 and parms[0] is None,
                'res': res == (stream if _k == 0 else filter_in(f, stream)),
                'ok': _k == 0 or filter_ok(f, stream)}
    loops = {0: Loop(_inv)}


@contract('filters.encode_stream', {'stream': 'bytes', 'stream_def': DICT}, 'bytes', props=['C04'],
          raises='no', name='filters.encode_stream[none]')
class encode_none_c:
    def requires(stream_def):
        return '/Filter' not in stream_def

    def ensures(stream, result):
        return result == stream


@contract('filters.decode_stream', {'stream': 'bytes', 'stream_def': DICT}, 'bytes', props=['C04'],
          raises='no', name='filters.decode_stream[none]')
class decode_none_c:
    def requires(stream_def):
        return '/Filter' not in stream_def

    def ensures(stream, result):
        return result == stream

"""Objects to bytes and back (C02)."""
from pyvc.api import *
from pyvc.core import *
from contracts.base import *


@trusted('objects.parse_obj', {'text': 'bytes', 'start': 'int'}, 'any')
class parse_obj_c:
    why = 'parse_obj is a function of its arguments (no state); an array text gives a list'

    def ensures(text, start, result):
        return {'fn': result == parsed(text, start),
                'list': implies(len(text) > 0 and start == 0 and text[0] == 91, type(result) == list)}


# ---- atoms
@contract('objects.to_str', {'obj': 'int'}, 'bytes', props=['C02'], raises='no', name='objects.to_str[int]')
class to_str_int_c:
    """The decimal digits."""
    def ensures(obj, result):
        return result == dec(obj).encode("ascii")


@contract('objects.to_str', {'obj': 'bool'}, 'bytes', props=['C02'], raises='no', name='objects.to_str[bool]')
class to_str_bool_c:
    def ensures(obj, result):
        return result == (b'true' if obj else b'false')


@contract('objects.to_str', {'obj': 'bytes'}, 'bytes', props=['C02'], raises='no', name='objects.to_str[bytes]')
class to_str_bytes_c:
    """Strings are kept as they are, delimiters included."""
    def ensures(obj, result):
        return result == obj


@contract('objects.to_str', {'obj': 'ref'}, 'bytes', props=['C02'], raises='no', name='objects.to_str[ref]')
class to_str_ref_c:
    """Number, then generation."""
    def ensures(obj, result):
        return result == dec(int(obj.imag)).encode("ascii") + b' ' + dec(int(obj.real)).encode("ascii") + b' R'


@contract('objects.to_str', {'obj': 'str'}, 'bytes', props=['C02'], raises='no', name='objects.to_str[name]')
class to_str_name_c:
    """One byte per character."""
    def requires(obj):
        return forall(0, len(obj), lambda i: 0 <= ord(obj[i]) and ord(obj[i]) < 256)

    def ensures(obj, result):
        return len(result) == len(obj) and forall(0, len(obj), lambda i: result[i] == ord(obj[i]))


ITEMS = lst('any')


@spec([ITEMS, 'int'], 'bool', inline=True)
def ref_at_token(xs, i):
    return i + 2 < len(xs) and xs[i + 2] == 'R'


@spec([ITEMS, 'int'], ITEMS)
def joined(xs, i):
    """Tokens from position i on, number, generation and R joined into a reference."""
    if i >= len(xs):
        return []
    if i + 2 < len(xs) and xs[i + 2] == 'R':
        return [complex(as_int(xs[i + 1]), as_int(xs[i]))] + joined(xs, i + 3)
    return [xs[i]] + joined(xs, i + 1)


@contract('objects.replace_ref', {'tokens': ITEMS}, ITEMS, props=['C02'], raises='any')
class replace_ref_c:
    """Every sequence number generation R becomes one reference with that number and generation; the rest is kept."""
    def requires(tokens):
        return forall(0, len(tokens), lambda i: implies(i + 2 < len(tokens) and tokens[i + 2] == 'R',
                                                        type(tokens[i]) == int and type(tokens[i + 1]) == int))

    def ensures(tokens, result):
        return result == joined(tokens, 0)

    def _inv(tokens, new_list, i):
        return {'i': i >= 0, 'l': new_list + joined(tokens, i) == joined(tokens, 0)}

    def _var(tokens, i):
        return len(tokens) - i
    loops = {0: Loop(_inv, types={'new_list': ITEMS}, variant=_var)}


# ---- whole objects
@spec(['any'], 'bytes')
def atom(v):
    """An object other than an array, a dictionary or a stream."""
    if type(v) == bool:
        return b'true' if as_bool(v) else b'false'
    if type(v) == int:
        return dec(as_int(v)).encode('ascii')
    if type(v) == float:
        s = fixed_point(float_str(as_real(v)))
        return (s if '.' in s else s + '.0').encode('ascii')
    if type(v) == str:
        return as_str(v).encode('latin-1')
    if type(v) == complex:
        r = as_ref(v)
        return dec(int(r.imag)).encode('ascii') + b' ' + dec(int(r.real)).encode('ascii') + b' R'
    return as_bytes(v)


@spec(['any', 'int'], 'bytes')
def serialized(v, depth):
    """The bytes of an object."""
    if type(v) == Stream:
        s = as_stream(v)
        return serialized_dict(s['entries'], depth) + b'\nstream\n' + s['encoded'] + b'\nendstream'
    if type(v) == dict:
        return serialized_dict(as_dict(v), depth)
    if type(v) == list:
        return b'[ ' + serialized_items(as_list(v), len(as_list(v))) + b']'
    return atom(v)


@spec([DICT, 'int'], 'bytes')
def serialized_dict(d, depth):
    return b'<< ' + serialized_pairs(d, nkeys(d), depth) + b' ' * depth + b'>>'


@spec([DICT, 'int', 'int'], 'bytes')
def serialized_pairs(d, n, depth):
    """Every key once, each with its value."""
    if n <= 0:
        return b''
    k = key_at(d, n - 1)
    return serialized_pairs(d, n - 1, depth) + b' ' * depth + k.encode('latin-1') + b' ' \
        + serialized(d[k], depth + 1) + b' '


@spec([ITEMS, 'int'], 'bytes')
def serialized_items(xs, n):
    """Every item in order."""
    if n <= 0:
        return b''
    return serialized_items(xs, n - 1) + serialized(xs[n - 1], 0) + b' '


@contract('objects.to_str', {'obj': 'any'}, 'bytes', props=['C02'])
class to_str_c:
    def ensures(obj, result):
        return result == atom(obj)


@contract('objects.serialize', {'obj': 'any', 'depth': 'int'}, 'bytes', props=['C02', 'C07'])
class serialize_c:
    """Arrays and dictionaries with every item, in order, at any depth; a stream with its dictionary and its bytes."""
    def ensures(obj, obj_0, depth, result):
        return result == serialized(obj_0, depth)

    def _inv1(obj, depth, ret, _k, keys):
        d = as_dict(obj)
        return type(obj) == dict and len(keys) == nkeys(d) and ret == b'<< ' + serialized_pairs(d, _k, depth)

    def _hints1(obj, keys, _k):
        return keys[_k - 1] == key_at(as_dict(obj), _k - 1)

    def _inv2(obj, ret, _k, _n):
        return type(obj) == list and _n == len(as_list(obj)) and ret == b'[ ' + serialized_items(as_list(obj), _k)
    loops = {0: Loop(_inv1, hints=_hints1), 1: Loop(_inv2)}

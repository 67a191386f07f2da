"""Fonts: widths and ToUnicode maps (C21)."""
from pyvc.api import *
from pyvc.core import *
from contracts.base import *

ANYS = lst('any')


# ---- widths of simple fonts
@contract('docstruct.prepare_widths.char_width_table',
          {'@widths': ANYS, '@first_char': 'int', '@default_w': 'any', 'character_num': 'int'}, 'any',
          props=['C21'], raises='no')
class char_width_table_c:
    def ensures(widths, first_char, default_w, character_num, result):
        inside = first_char <= character_num and character_num < first_char + len(widths)
        return {'declared': implies(inside, result == widths[character_num - first_char]),
                'default': implies(not inside, result == default_w)}


# ---- widths of composite fonts
@spec([ANYS, 'int'], 'bool')
def w_ok(w, i):
    """From i on the array is made of 'c [w1 .. wn]' and 'first last w' groups."""
    if i >= len(w):
        return i == len(w)
    if not (i + 1 < len(w) and type(w[i]) == int):
        return False
    if type(w[i + 1]) == list:
        return w_ok(w, i + 2)
    return type(w[i + 1]) == int and i + 2 < len(w) and w_ok(w, i + 3)


@spec([ANYS, 'int', 'int'], 'bool')
def w_has(w, i, c):
    """The array declares a width for code c at position i or later."""
    if i < 0 or i + 1 >= len(w):
        return False
    if type(w[i + 1]) == list:
        return (as_int(w[i]) <= c and c < as_int(w[i]) + len(as_list(w[i + 1]))) or w_has(w, i + 2, c)
    return (i + 2 < len(w) and as_int(w[i]) <= c and c <= as_int(w[i + 1])) or w_has(w, i + 3, c)


@spec([ANYS, 'int', 'int'], 'any')
def w_decl(w, i, c):
    """That width; a later group wins over an earlier one."""
    if i < 0 or i + 1 >= len(w):
        return None
    if type(w[i + 1]) == list:
        if w_has(w, i + 2, c):
            return w_decl(w, i + 2, c)
        return as_list(w[i + 1])[c - as_int(w[i])]
    if w_has(w, i + 3, c):
        return w_decl(w, i + 3, c)
    return w[i + 2]


@contract('docstruct.prepare_w', {'w': ANYS, 'default_w': 'any'}, None, props=['C21'], raises='no',
          ghosts={'c': 'int'}, unfold=2)
class prepare_w_c:
    """For every code c: the declared width, or else the default."""
    def requires(w):
        return w_ok(w, 0)

    def ensures(w, default_w, c, result):
        h, d = w_has(w, 0, c), w_decl(w, 0, c)
        return {'declared': implies(h, result(c) == d),
                'default': implies(not h, result(c) == default_w)}

    def _inv0(w, i, c, width):
        t = w_decl(w, 0, c)
        return {'i': 0 <= i and w_ok(w, i),
                'later': implies(w_has(w, i, c), w_has(w, 0, c) and t == w_decl(w, i, c)),
                'so-far': implies(not w_has(w, i, c),
                                  iff(c in width, w_has(w, 0, c)) and implies(c in width, width[c] == t))}

    def _var0(w, i):
        return len(w) - i

    def _inv1(w, i, c, width, current, _k, width_at1):
        n = as_int(w[i])
        return {'cur': type(current) == int and current == n + _k,
                'in': iff(c in width, (n <= c and c < n + _k) or c in width_at1),
                'new': implies(n <= c and c < n + _k, width[c] == as_list(w[i + 1])[c - n]),
                'old': implies(c in width and not (n <= c and c < n + _k), width[c] == width_at1[c])}

    def _inv2(w, i, c, width, _k, width_at2, first, x):
        n = as_int(w[i])
        return {'in': iff(c in width, (n <= c and c < n + _k) or c in width_at2),
                'new': implies(n <= c and c < n + _k, width[c] == x),
                'old': implies(c in width and not (n <= c and c < n + _k), width[c] == width_at2[c])}
    loops = {0: Loop(_inv0, _var0, types={'width': dct('int', 'any')}),
             1: Loop(_inv1), 2: Loop(_inv2)}

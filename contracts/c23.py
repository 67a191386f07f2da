"""Spatial layout of text (C23)."""
from pyvc.api import *
from pyvc.core import *
from contracts.base import *

FRAG = record('Frag', {'x': ('real', False), 'y': ('real', False), 'width': ('real', False), 'scaling': ('real', False),
                       'text': ('str', False)})
FRAGS = lst(FRAG)


@spec(['str'], 'str', hom=('squeeze_cat', {'spaces': 'squeeze_spaces', 'newlines': 'squeeze_newlines'}))
def squeeze(s):
    """What is left without spaces and line ends."""
    if len(s) == 0:
        return ''
    c = s[len(s) - 1]
    return squeeze(s[:len(s) - 1]) + ('' if c == ' ' or c == '\n' else c)


@lemma({'a': 'str', 'b': 'str'}, props=['C23'])
class squeeze_cat:
    def ensures(a, b):
        return squeeze(a + b) == squeeze(a) + squeeze(b)

    def measure(b):
        return len(b)

    def hints(a, b):
        return {'ih': implies(len(b) > 0, ih(a, b[:len(b) - 1])),
                's': implies(len(b) > 0, (a + b)[:len(a + b) - 1] == a + b[:len(b) - 1] and
                             (a + b)[len(a + b) - 1] == b[len(b) - 1])}


@lemma({'n': 'int'}, props=['C23'])
class squeeze_spaces:
    def ensures(n):
        return squeeze(spaces(n)) == ''

    def measure(n):
        return n if n > 0 else 0

    def hints(n):
        return {'ih': implies(n > 0, ih(n - 1)), 'c': implies(n > 0, squeeze_cat(spaces(n - 1), ' '))}


@lemma({'n': 'int'}, props=['C23'])
class squeeze_newlines:
    def ensures(n):
        return squeeze(newlines(n)) == ''

    def measure(n):
        return n if n > 0 else 0

    def hints(n):
        return {'ih': implies(n > 0, ih(n - 1)), 'c': implies(n > 0, squeeze_cat(newlines(n - 1), '\n'))}


@spec([FRAGS], FRAGS, opaque=True)
def downwards(fs):
    """From top to bottom: list.sort by this key."""
    return sorted(fs, key=lambda f: -f['y'])


@spec([FRAGS], FRAGS, opaque=True)
def rightwards(fs):
    """From left to right."""
    return sorted(fs, key=lambda f: f['x'])


def _key_y(f):
    return -f['y']


def _key_x(f):
    return f['x']


Sorting(downwards, _key_y)
Sorting(rightwards, _key_x)


@spec(['real', 'real', 'real'], 'bool', inline=True)
def near(a, b, tol):
    return not (a - b > tol or b - a > tol)


@spec([FRAGS, 'real', 'real'], FRAGS)
def on_line(fs, y, tol):
    """The first fragments, as long as they stay on the line at y."""
    if len(fs) == 0 or not near(y, fs[0]['y'], tol):
        return []
    return [fs[0]] + on_line(fs[1:], y, tol)


@spec([FRAGS, 'real', 'real'], FRAGS)
def below(fs, y, tol):
    """The others."""
    if len(fs) == 0 or not near(y, fs[0]['y'], tol):
        return fs
    return below(fs[1:], y, tol)


@lemma({'fs': FRAGS, 'y': 'real', 'tol': 'real'}, props=['C23'])
class lines_partition:
    """A line and what is below it make up all fragments, each once; what is below starts off the line."""
    def ensures(fs, y, tol):
        b = below(fs, y, tol)
        return {'all': on_line(fs, y, tol) + b == fs, 'off': implies(len(b) > 0, not near(y, b[0]['y'], tol))}

    def measure(fs):
        return len(fs)

    def hints(fs, y, tol):
        return {'ih': implies(len(fs) > 0, ih(fs[1:], y, tol)), 's': implies(len(fs) > 0, [fs[0]] + fs[1:] == fs)}


@spec([FRAGS, 'int'], 'str')
def texts(fs, n):
    """Text of the first n fragments."""
    if n <= 0:
        return ''
    return texts(fs, n - 1) + squeeze(fs[n - 1]['text'])


@spec([FRAGS, 'real'], 'str')
def reading(fs, tol):
    """Text line by line, from left to right, of fragments sorted from top to bottom."""
    if len(fs) == 0:
        return ''
    line = rightwards([fs[0]] + on_line(fs[1:], fs[0]['y'], tol))
    return texts(line, len(line)) + reading(below(fs[1:], fs[0]['y'], tol), tol)


@contract('layout.minimum_x', {'text_blocks': FRAGS}, 'real', props=['C23'], raises='no')
class minimum_x_c:
    """-1 for an empty page."""
    def ensures(result):
        return True
    loops = {0: Loop(types={'min_x': 'real'})}


@contract('layout.most_frequent', {'distrib': dct('real', 'int')}, 'real', props=['C23'], raises='no')
class most_frequent_c:
    """A key of the table, or 0."""
    def ensures(distrib, result):
        return result == 0 or result in distrib

    def _inv(distrib, most_frequent):
        return most_frequent == 0 or most_frequent in distrib
    loops = {0: Loop(_inv, types={'most_frequent': 'real', 'max_occur': 'int'})}


@contract('layout.typical_font_size', {'text_blocks': FRAGS}, 'real', props=['C23'], raises='no')
class typical_font_size_c:
    def ensures(result):
        return True
    loops = {0: Loop(types={'distrib': dct('real', 'int')})}


@trusted('layout.typical_line_spacing', {'text_blocks': FRAGS, 'typical_font_size': 'real'}, 'real', props=['C23'], raises='no')
class typical_line_spacing_c:
    def ensures(result):
        return True
    why = 'only that it returns a number and changes nothing is used'


@contract('layout.typical_char_width', {'text_blocks': FRAGS, 'typical_font_size': 'real'}, 'real', props=['C23'], raises='no')
class typical_char_width_c:
    def ensures(result):
        return True
    loops = {0: Loop(types={'distrib': lst('real')})}


@contract('layout.basic_spatial_layout', {'text_blocks': FRAGS}, 'str', props=['C23'], raises='any', owned=['text_blocks'],
          modifies=['text_blocks'], shallow=['text_blocks'], outs={'tol': 'real'})
class basic_spatial_layout_c:
    """Every fragment once, lines from top to bottom, fragments of a line from left to right."""
    def witness(spacing):
        return {'tol': spacing * 0.9}

    def ensures(text_blocks_0, tol, result):
        return squeeze(result) == reading(downwards(text_blocks_0), tol)

    def _inv0(text_blocks, text_blocks_0, res, spacing):
        return squeeze(res) + reading(text_blocks, spacing * 0.9) == reading(downwards(text_blocks_0), spacing * 0.9)

    def _inv1(line_items, text_blocks, text_blocks_pre0, target_y, spacing):
        bs, tol = text_blocks_pre0, spacing * 0.9
        return {'first': target_y == bs[0]['y'] and len(line_items) >= 1,
                'line': line_items + on_line(text_blocks, target_y, tol) == [bs[0]] + on_line(bs[1:], target_y, tol),
                'rest': below(text_blocks, target_y, tol) == below(bs[1:], target_y, tol)}

    def _inv2(line_string, line_items, i):
        return squeeze(line_string) == texts(line_items, i) and i >= 1 and i <= len(line_items)
    loops = {0: Loop(_inv0, types={'previous_y': 'real', 'res': 'str'}), 1: Loop(_inv1, types={'line_items': FRAGS}), 2: Loop(_inv2)}

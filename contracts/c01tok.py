"""Tokens (C01)."""
from pyvc.api import *
from pyvc.core import *
from contracts.base import *

STOP = b'\r\n\x00\x09\x0c\x20<>[]/(){}%'
LETTERS = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'\""
DIGITS = b'+-.0123456789'
T = 'bytes'


# ---- where a token begins
@spec([T, 'int'], 'int')
def class_at(text, j):
    """What begins at a byte: 0 nothing."""
    if j < 0 or j >= len(text):
        return 0
    c = text[j]
    d = text[j + 1] if j + 1 < len(text) else -1
    return (1 if c == 93 or (c == 62 and d == 62) else 2 if c == 60 and d == 60 else 3 if c == 91 else 4 if c == 47
            else 5 if text[j:j + 6] == b'stream'
            else 6 if c == 43 or c == 45 or c == 46 or (48 <= c and c <= 57)
            else 7 if (97 <= c and c <= 122) or (65 <= c and c <= 90) or c == 39 or c == 34
            else 8 if c == 40 else 9 if c == 60 else 10 if c == 37 else 0)


@spec([T, 'int'], 'int')
def first(text, i):
    """First significant byte from i on (the end of the text when there is none)."""
    if i >= len(text):
        return i
    return i if class_at(text, i) != 0 else first(text, i + 1)


@spec(['int'], 'str')
def state_of(k):
    return ('DICT' if k == 2 else 'ARRAY' if k == 3 else 'NAME' if k == 4 else 'STREAM' if k == 5 else 'VALUE' if k == 6
            else 'KEYWORD' if k == 7 else 'LSTRING' if k == 8 else 'HSTRING' if k == 9 else 'COMMENT' if k == 10
            else 'NONE')


# ---- where each kind of token ends
@spec(['int'], 'bool', inline=True)
def is_stop(c):
    return (c == 13 or c == 10 or c == 0 or c == 9 or c == 12 or c == 32 or c == 60 or c == 62 or c == 91 or c == 93
            or c == 47 or c == 40 or c == 41 or c == 123 or c == 125 or c == 37)


@spec([T, 'int', 'int', 'int'], 'int')
def tail(text, k, j, depth):
    """End of the token of kind k of which everything before j was read, depth levels deep; -1: it is not complete.
    """
    if j >= len(text):
        return -1
    c = text[j]
    d = text[j + 1] if j + 1 < len(text) else -1
    if (k == 2 or k == 3) and (c == 40 or c == 37 or (c == 60 and d != 60)):
        # a string or a comment inside a container: what it holds does not count
        kk = 8 if c == 40 else 10 if c == 37 else 9
        e = tail(text, kk, j + 1, 1)
        return tail(text, k, e if e >= 0 else len(text), depth)
    if k == 2:
        # just past the '>>' that balances the opening ones
        if c == 60:
            return tail(text, k, j + 2, depth + 1)
        if c == 62 and d == 62:
            return j + 2 if depth == 1 else tail(text, k, j + 2, depth - 1)
        return tail(text, k, j + 1, depth)
    if k == 3:
        # just past the ']' that balances the opening ones
        if c == 91:
            return tail(text, k, j + 1, depth + 1)
        if c == 93:
            return j + 1 if depth == 1 else tail(text, k, j + 1, depth - 1)
        return tail(text, k, j + 2 if c == 60 else j + 1, depth)
    if k == 8:
        # just past the parenthesis that balances the opening ones; a backslash escapes the byte after it
        if c == 92 and d >= 0:
            return tail(text, k, j + 2, depth)
        if c == 40:
            return tail(text, k, j + 1, depth + 1)
        if c == 41:
            return j + 1 if depth == 1 else tail(text, k, j + 1, depth - 1)
        return tail(text, k, j + 1, depth)
    if k == 9:
        # just past the first '>'
        return j + 1 if c == 62 else tail(text, k, j + 1, depth)
    if k == 10:
        # the first end of line
        return j if c == 10 or c == 13 else tail(text, k, j + 1, depth)
    if k == 5:
        # just past the first endstream
        if text[j:j + 11] == b'\r\nendstream':
            return j + 11
        if text[j:j + 10] == b'\nendstream' or text[j:j + 10] == b'\rendstream':
            return j + 10
        if text[j:j + 9] == b'endstream':
            return j + 9
        return tail(text, k, j + 1, depth)
    # the first white space or delimiter
    return j if is_stop(c) else tail(text, k, j + 1, depth)


@spec([T, 'int'], 'int')
def close_of(text, s):
    """End of the token that begins at s; -1 when it is not complete."""
    k = class_at(text, s)
    return tail(text, k, s + 2 if k == 2 else s + 1, 1)


@spec([T, 'int', 'int'], opt('str'))
def kind_of(text, s, e):
    """Kind of the token from s to e."""
    k = class_at(text, s)
    return ('DICT' if k == 2 else 'ARRAY' if k == 3 else 'NAME' if k == 4 else 'STREAM' if k == 5
            else ('REAL' if b'.' in text[s:e] else 'INTEGER') if k == 6
            else ('TRUE' if text[s:e] == b'true' else 'FALSE' if text[s:e] == b'false' else 'KEYWORD') if k == 7
            else 'COMMENT' if k == 10 else 'STRING')


@spec([T, 'int'], 'bool')
def tok_found(text, i):
    """A complete token follows."""
    s = first(text, i)
    return s < len(text) and class_at(text, s) != 1 and close_of(text, s) >= 0


@spec([T, 'int'], 'int')
def tok_end(text, i):
    s = first(text, i)
    if s >= len(text):
        return s
    if class_at(text, s) == 1:
        return s + 1
    e = close_of(text, s)
    return e if e >= 0 else len(text)


@spec([T, 'int'], 'int')
def tok_begin(text, i):
    """The significant byte, or (no token) the byte before the first one that may not begin a token."""
    s = first(text, i)
    return s if s < len(text) and class_at(text, s) >= 2 else (s - 1 if s > i else i)


@contract('objects.next_token', {'text': T, 'i': 'int'}, tup('int', 'int', opt('str')), props=['C01'], raises='no')
class next_token_c:
    """Exactly one complete token, from the first significant byte to its own end; its end is past the position."""
    def requires(text, i):
        return 0 <= i and i <= len(text)

    def measure(text, i):
        return len(text) - i

    def ensures(text, i, result):
        h, j, t = result
        s = first(text, i)
        return {'inside': i <= h and h <= j and j <= len(text), 'advance': implies(i < len(text), i < j),
                'begin': h == tok_begin(text, i), 'end': j == tok_end(text, i),
                'kind': iff(t is None, not tok_found(text, i)),
                'token': implies(tok_found(text, i), h == s and t == kind_of(text, s, j))}

    def _inv(text, i, i_0, h, search, nested):
        s = first(text, i_0)
        k = class_at(text, s)
        return {'in': i_0 <= h and h <= i and i <= len(text) and nested >= 1,
                'tbd': implies(search == 'TBD', first(text, i) == s and nested == 1
                               and h == (i - 1 if i > i_0 else i_0)),
                'found': implies(search != 'TBD', h == s and s < i and s < len(text) and k >= 2),
                'state': search == 'TBD' or search == state_of(k),
                'close': implies(search != 'TBD', close_of(text, s) == tail(text, k, i, nested))}

    def _var(text, i):
        return len(text) - i
    def _h(text, i, i_pre0):
        j = i_pre0
        k = class_at(text, j)
        e = close_of(text, j)
        return {'own': implies(j < len(text) and k >= 8, first(text, j) == j and e == tail(text, k, j + 1, 1)
                               and tok_end(text, j) == (e if e >= 0 else len(text)))}
    loops = {0: Loop(_inv, variant=_var, hints=_h)}


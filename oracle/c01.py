"""C01: next_token / next_line against an independent lexer."""
from .core import Fail, n
from . import gen
from .gen import WS, DEL, REG
from pdfsyntax.objects import next_token, next_line

ATOMS = [b'(', b')', b'<', b'>', b'<<', b'>>', b'[', b']', b'/', b'%', b'{', b'}', b'\\', b'\n', b'\r', b'\r\n', b' ', b'\x00', b'\t',
         b'stream', b'endstream', b'endobj', b'true', b'false', b'null', b'R', b'obj', b'1', b'-2', b'+.5', b'3.14', b'.', b'-', b'/Name',
         b'(a)', b'<41>', b"'", b'"', b'T*', b'abc', b'\xff', b'\x80', b'#', b'!', b'_', b'\\)', b'\\(', b'\\\\', b'%c\n', b'9']


def soup(r, m=12):
    return b''.join(r.choice(ATOMS) for _ in range(r.randint(0, m)))


def ws(r, m=3):
    return bytes(r.choice(WS) for _ in range(r.randint(0, m)))


def call(t, i):
    x = next_token(t, i)
    if not (isinstance(x, tuple) and len(x) == 3):
        raise Fail('not a (begin, end, type) triple', text=t, start=i, result=x)
    return x


@n(6000)
def progress(r):
    """Any buffer, any start: the span lies inside, and input is consumed."""
    t = soup(r, r.choice([1, 2, 3, 6, 14]))
    if not t:
        return None
    i = r.randrange(len(t))
    h, j, k = call(t, i)
    if not (i <= h <= j <= len(t)) or j <= i:
        raise Fail('span outside of the buffer or no progress', text=t, start=i, result=(h, j, k))
    if k is not None:
        for c in t[i:h]:
            if k != 'STREAM' and chr(c).isalnum() and c < 128:
                raise Fail('significant byte skipped', text=t, start=i, result=(h, j, k))
    return t, i


@n(3000)
def walk(r):
    """Repeated calls reach the end of any buffer."""
    t = soup(r, 25)
    i = 0
    while i < len(t):
        h, j, k = call(t, i)
        if j <= i or j > len(t):
            raise Fail('no progress or out of the buffer', text=t, start=i, result=(h, j, k))
        i = j
    return t


def regular(r):
    k = r.random()
    if k < 0.3:
        return b'/' + bytes(r.choice(REG) for _ in range(r.choice([0, 1, 3, 9, 30]))), 'NAME'
    if k < 0.6:
        s = r.choice([b'', b'+', b'-']) + bytes(r.choice(b'0123456789') for _ in range(r.randint(1, 12)))
        return s, 'INTEGER'
    if k < 0.75:
        s = r.choice([b'', b'+', b'-']) + bytes(r.choice(b'0123456789') for _ in range(r.randint(0, 4)))
        return s + b'.' + bytes(r.choice(b'0123456789') for _ in range(r.randint(0 if len(s) > 1 else 1, 4))), 'REAL'
    if k < 0.9:
        w = r.choice([b'true', b'false', b'null', b'obj', b'endobj', b'xref', b'trailer', b'startxref', b'R', b'Tj', b'TJ', b'T*', b'q', b"'", b'"',
                      b're', b'BT', b'f*', b'b*', b'Z', b'endstream', b'strea', b'xstream', b'true1', b'falsey', b'trues', b'd0', b'b\xe9'])
        return w, 'TRUE' if w == b'true' else 'FALSE' if w == b'false' else 'KEYWORD'
    return b'%' + bytes(c for c in (r.randrange(256) for _ in range(r.randint(0, 20))) if c not in b'\r\n'), 'COMMENT'


@n(5000)
def regular_tokens(r):
    t, k = regular(r)
    pre = b'x ' * r.randint(0, 2)
    lead = ws(r)
    if k == 'COMMENT':
        end = bytes([r.choice(b'\r\n')])
    else:
        end = bytes([r.choice(WS + DEL)])
    text = pre + lead + t + end + soup(r, 5)
    b = len(pre) + len(lead)
    got = call(text, len(pre))
    if tuple(got) != (b, b + len(t), k):
        raise Fail('wrong token', text=text, start=len(pre), result=got, expected=(b, b + len(t), k))
    return text


@n(4000)
def string_tokens(r):
    t = gen.g_lstring(r) if r.random() < 0.7 else gen.g_hstring(r)
    if r.random() < 0.1:
        t = b'<' + bytes(c for c in (r.randrange(256) for _ in range(6)) if c not in b'<>') + b'>'
        if t == b'<>':
            t = b'<a>'
    pre, lead = b'1 ' * r.randint(0, 1), ws(r)
    text = pre + lead + t + soup(r, 5)
    b = len(pre) + len(lead)
    got = call(text, len(pre))
    if tuple(got) != (b, b + len(t), 'STRING'):
        raise Fail('wrong string token', text=text, start=len(pre), result=got, expected=(b, b + len(t), 'STRING'))
    return text


@n(5000)
def containers(r):
    while True:
        o = gen.g_obj(r, 0, null=True)
        if isinstance(o, (dict, list)):
            break
        if r.random() < 0.5:
            o = [o, gen.g_obj(r, 1)] if r.random() < 0.5 else {gen.g_name(r): o}
            break
    t = gen.write(o, gen.Style(r, comments=True))
    k = 'DICT' if isinstance(o, dict) else 'ARRAY'
    lead = ws(r)
    text = lead + t + r.choice([b'', soup(r, 5)])
    got = call(text, 0)
    if tuple(got) != (len(lead), len(lead) + len(t), k):
        raise Fail('wrong container token', text=text, result=got, expected=(len(lead), len(lead) + len(t), k))
    return text


@n(1500)
def unterminated(r):
    """An unclosed construct is reported as no token, never as a complete one."""
    t = r.choice([b'(' + gen.g_lstring_body(r), b'<' + b'41' * r.randint(0, 3), b'[ 1 (a]) ', b'<< /A [ 1 ] >', b'[ [ ] ', b'<< /B << >> ',
                  b'[ <41', b'[ (]', b'[ %]', b'<< %>>', b'<< /A (>>', b'[ (\\)]', b'<< /A (\\)>>'])
    text = ws(r) + t
    h, j, k = call(text, 0)
    if k is not None or not (0 <= h <= j <= len(text)):
        if t.endswith(b'\\'):
            return None
        raise Fail('incomplete token reported as complete', text=text, result=(h, j, k))
    return text


@n(3000)
def lines(r):
    t = b''.join(r.choice([b'a', b'bc', b'\n', b'\r', b'\r\n', b' ', b'xyz 1']) for _ in range(r.randint(0, 9)))
    i = r.randint(0, len(t))
    b = i
    while b < len(t) and t[b] in b'\r\n':
        b += 1
    e = b
    while e < len(t) and t[e] not in b'\r\n':
        e += 1
    exp = (b, e) if e < len(t) else (None, None)
    got = next_line(t, i)
    if tuple(got) != exp:
        raise Fail('wrong line span', text=t, start=i, result=got, expected=exp)
    return t, i


CHECKS = [progress, walk, regular_tokens, string_tokens, containers, unterminated, lines]

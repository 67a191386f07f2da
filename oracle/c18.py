"""C18: content streams, against a plain interpreter of the PDF operators."""
from fractions import Fraction
from .core import Fail, n
from . import gen
from .gen import Style, write, same, model
from pdfsyntax.graphics import parse_stream_content, apply_command, multiply_matrices, trm

OPS = ['b', 'B', 'b*', 'B*', 'BDC', 'BMC', 'BT', 'BX', 'c', 'cm', 'CS', 'cs', 'd', 'd0', 'd1', 'Do', 'DP', 'EMC', 'ET', 'EX', 'f', 'F',
       'f*', 'G', 'g', 'gs', 'h', 'i', 'j', 'J', 'K', 'k', 'l', 'm', 'M', 'MP', 'n', 'q', 'Q', 're', 'RG', 'rg', 'ri', 's', 'S', 'SC', 'sc',
       'SCN', 'scn', 'sh', 'T*', 'Tc', 'Td', 'TD', 'Tf', 'Tj', 'TJ', 'TL', 'Tm', 'Tr', 'Ts', 'Tw', 'Tz', 'v', 'w', 'W', 'W*', 'y', "'", '"']


def operand(r):
    v = gen.g_obj(r, 2, refs=False, null=True)
    return v


@n(7000)
def commands(r):
    st = Style(r, comments=True, tight=0.5)
    out, exp = st.ws(False), []
    prev = b''
    for _ in range(r.choice([0, 1, 2, 5, 12])):
        cmd = [operand(r) for _ in range(r.choice([0, 0, 1, 1, 2, 4]))]
        op = r.choice(OPS)
        for v in cmd + [None]:
            s = op.encode() if v is None else write(v, st)
            need = bool(prev) and prev[-1:] not in (b')', b'>', b']') and s[:1] not in (b'(', b'<', b'[', b'/')
            out += (st.ws(need) if prev else b'') + s
            prev = s
        exp.append(cmd + [op])
    out += st.ws(False) if r.random() < 0.8 else b'%end'
    got = parse_stream_content(out)
    if not same([[model(x) for x in c] for c in got], exp):
        raise Fail('wrong commands', content=out, result=got, expected=exp)
    return out


def mul(a, b):
    return [a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3],
            a[4] * b[0] + a[5] * b[2] + b[4], a[4] * b[1] + a[5] * b[3] + b[5]]


ID = [1, 0, 0, 1, 0, 0]
PAR = {'Tc': 0, 'Tw': 0, 'Th': 100, 'Tl': 0, 'Tf': None, 'Tfs': None, 'Tmode': 0, 'Trise': 0}
SET = {'Tc': 'Tc', 'Tw': 'Tw', 'Tz': 'Th', 'TL': 'Tl', 'Tr': 'Tmode', 'Ts': 'Trise'}


class Machine:
    def __init__(self):
        self.ctm, self.tm, self.tlm, self.par, self.stack = ID, ID, ID, dict(PAR), []

    def do(self, c):
        op, a = c[-1], c[:-1]
        if op == 'q':
            self.stack.append((self.ctm, dict(self.par)))
        elif op == 'Q':
            self.ctm, self.par = self.stack.pop()
        elif op == 'cm':
            self.ctm = mul(a, self.ctm)
        elif op in SET:
            self.par[SET[op]] = a[0]
        elif op == 'Tf':
            self.par['Tf'], self.par['Tfs'] = a
        elif op == 'BT':
            self.tm = self.tlm = ID
        elif op == 'Td':
            self.tm = self.tlm = mul([1, 0, 0, 1] + a, self.tlm)
        elif op == 'TD':
            self.par['Tl'] = -a[1]
            self.do(a + ['Td'])
        elif op == 'Tm':
            self.tm = self.tlm = a
        elif op == 'T*':
            self.do([0, -self.par['Tl'], 'Td'])
        elif op == "'":
            self.do(['T*'])
        elif op == '"':
            self.par['Tw'], self.par['Tc'] = a[0], a[1]
            self.do(['T*'])


def num(r):
    return r.choice([0, 1, -1, 2, 3, 7, 12, -5, 100, 0.5, -0.25, 1.5, r.randint(-50, 50)])


def command(r, depth, text):
    k = r.choice(['q', 'Q', 'cm', 'cm', 'Tc', 'Tw', 'Tz', 'TL', 'TL', 'Tr', 'Ts', 'Tf', 'BT', 'ET', 'Td', 'Td', 'TD', 'Tm', 'T*', 'T*', "'", '"',
                  'Tj', 're', 'w', 'Do', 'BDC', 'EMC', 'TJ'])
    if k == 'Q' and not depth:
        k = 'q'
    if k in ('cm', 'Tm'):
        return [num(r) for _ in range(6)] + [k]
    if k in SET:
        return [num(r), k]
    if k == 'Tf':
        return [r.choice(['/F1', '/F2']), num(r), k]
    if k in ('Td', 'TD'):
        return [num(r), num(r), k]
    if k in ("'", 'Tj'):
        return [b'(a)', k]
    if k == '"':
        return [num(r), num(r), b'(a)', k]
    if k == 're':
        return [1, 2, 3, 4, k]
    if k == 'w':
        return [num(r), k]
    if k == 'Do':
        return ['/X', k]
    if k == 'TJ':
        return [[b'(a)', -3], k]
    if k == 'BDC':
        return ['/P', {'/MCID': 1}, k]
    return [k]


def close(a, b):
    if a is None or b is None or isinstance(a, str):
        return a == b
    return abs(a - b) <= 1e-9 * (1 + abs(b))


def state(m, gs, ts, cmds):
    if not gs and m.stack == [] and m.ctm == ID:
        pass
    else:
        if len(gs) != len(m.stack) + 1:
            raise Fail('wrong number of saved states', commands=cmds, stack=gs)
        if not all(close(x, y) for x, y in zip(gs[-1]['ctm'], m.ctm)):
            raise Fail('wrong transformation matrix', commands=cmds, result=gs[-1]['ctm'], expected=m.ctm)
    if ts:
        for k in ('tm', 'tlm'):
            if len(ts[k]) != 6 or not all(close(x, y) for x, y in zip(ts[k], getattr(m, k))):
                raise Fail(f'wrong {k}', commands=cmds, result=ts[k], expected=getattr(m, k))
        for k, v in m.par.items():
            if not close(ts[k], v):
                raise Fail(f'wrong {k}', commands=cmds, result=ts[k], expected=v)


@n(7000)
def execution(r):
    m, gs, ts = Machine(), [], {}
    cmds = []
    inside = False
    for _ in range(r.choice([1, 3, 8, 20])):
        c = command(r, len(m.stack), inside)
        cmds.append(c)
        m.do(c)
        apply_command(list(c), gs, ts)
        state(m, gs, ts, cmds)
    while m.stack:
        cmds.append(['Q'])
        m.do(['Q'])
        apply_command(['Q'], gs, ts)
        state(m, gs, ts, cmds)
    if ts.get('Tfs') is not None:
        t = mul(mul([m.par['Tfs'] * m.par['Th'] / 100, 0, 0, m.par['Tfs'], 0, m.par['Trise']], m.tm), m.ctm)
        if not all(close(x, y) for x, y in zip(trm(ts, gs), t)):
            raise Fail('wrong text rendering matrix', commands=cmds, result=trm(ts, gs), expected=t)
    # what ran before leaves no trace
    gs2, ts2, m2 = [], {}, Machine()
    apply_command([1, 2, 'Td'], gs2, ts2)
    m2.do([1, 2, 'Td'])
    state(m2, gs2, ts2, cmds + ['(new run)', [1, 2, 'Td']])
    return cmds


@n(2000)
def matrices(r):
    a, b = [[r.randint(-99, 99) for _ in range(6)] for _ in range(2)]
    a0, b0 = list(a), list(b)
    got = multiply_matrices(a, b)
    if got != mul(a0, b0) or a != a0 or b != b0:
        raise Fail('wrong product', a=a0, b=b0, result=got, expected=mul(a0, b0))
    return a0, b0


CHECKS = [commands, execution, matrices]

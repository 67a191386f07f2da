"""Content streams: matrices, commands, state (C18)."""
from pyvc.api import *
from pyvc.core import *
from contracts.base import *

MAT = lst('real')


@contract('graphics.multiply_matrices', {'m1': MAT, 'm2': MAT}, MAT, props=['C18'], raises='no')
class multiply_matrices_c:
    """Row-vector product of two affine 3x3 matrices, entry by entry."""
    def requires(m1, m2):
        return len(m1) >= 6 and len(m2) >= 6

    def ensures(m1, m2, result):
        return {
            'six': len(result) == 6,
            'a': result[0] == m1[0] * m2[0] + m1[1] * m2[2] ,
            'b': result[1] == m1[0] * m2[1] + m1[1] * m2[3] ,
            'c': result[2] == m1[2] * m2[0] + m1[3] * m2[2] ,
            'd': result[3] == m1[2] * m2[1] + m1[3] * m2[3] ,
            'e': result[4] == m1[4] * m2[0] + m1[5] * m2[2] + m2[4],
            'f': result[5] == m1[4] * m2[1] + m1[5] * m2[3] + m2[5],
        }

# ---- the state machine
SAVED = record('Saved', {'Tc': ('real', False), 'Tw': ('real', False), 'Th': ('real', False), 'Tl': ('real', False),
                         'Tf': ('any', False), 'Tfs': (opt('real'), False), 'Tmode': ('real', False),
                         'Trise': ('real', False)})
TS = record('TS', {'tm': (MAT, True), 'tlm': (MAT, True), 'Tc': ('real', True), 'Tw': ('real', True),
                   'Th': ('real', True), 'Tl': ('real', True), 'Tf': ('any', True), 'Tfs': (opt('real'), True),
                   'Tmode': ('real', True), 'Trise': ('real', True)})
GS = record('GS', {'ctm': (MAT, False), 'text': (SAVED, True)})
STACK = lst(GS)


@spec([MAT, MAT], MAT, inline=True)
def mul(m1, m2):
    return [m1[0] * m2[0] + m1[1] * m2[2], m1[0] * m2[1] + m1[1] * m2[3],
            m1[2] * m2[0] + m1[3] * m2[2], m1[2] * m2[1] + m1[3] * m2[3],
            m1[4] * m2[0] + m1[5] * m2[2] + m2[4], m1[4] * m2[1] + m1[5] * m2[3] + m2[5]]


@spec([TS], 'bool', inline=True)
def ready(t):
    return ('tm' in t and 'tlm' in t and 'Tc' in t and 'Tw' in t and 'Th' in t and 'Tl' in t and 'Tf' in t
            and 'Tfs' in t and 'Tmode' in t and 'Trise' in t and len(t['tm']) == 6 and len(t['tlm']) == 6)


@spec([MAT, MAT], 'bool', inline=True)
def same_m(a, b):
    return (len(a) == 6 and len(b) == 6 and a[0] == b[0] and a[1] == b[1] and a[2] == b[2] and a[3] == b[3]
            and a[4] == b[4] and a[5] == b[5])


OPS = {}


def op(name, *operands, empty=False):
    return lambda body: contract(
        'graphics.apply_command', {'command': ('fix',) + operands + (('const', name),),
                                   'graphics_state_stack': STACK, 'text_state': TS}, None, props=['C18'],
        raises='no', modifies=['graphics_state_stack', 'text_state'], name=f'graphics.apply_command[{name}]',
        inline=['graphics.multiply_matrices'] if name in ('cm', 'Tm') else [])(body)


@spec([STACK, TS], 'bool', inline=True)
def started(gs, ts):
    return len(gs) > 0 and ready(ts) and len(gs[-1]['ctm']) == 6 and 'text' not in gs[-1]


@op('Tc', 'real')
class _c_Tc:
    def requires(graphics_state_stack, text_state):
        return started(graphics_state_stack, text_state)

    def ensures(command, graphics_state_stack, graphics_state_stack_0, text_state, text_state_0):
        return {'set': text_state == {**text_state_0, 'Tc': command[0]},
                'stack': graphics_state_stack == graphics_state_stack_0}


@op('Tw', 'real')
class _c_Tw:
    def requires(graphics_state_stack, text_state):
        return started(graphics_state_stack, text_state)

    def ensures(command, graphics_state_stack, graphics_state_stack_0, text_state, text_state_0):
        return {'set': text_state == {**text_state_0, 'Tw': command[0]},
                'stack': graphics_state_stack == graphics_state_stack_0}


@op('Tz', 'real')
class _c_Tz:
    def requires(graphics_state_stack, text_state):
        return started(graphics_state_stack, text_state)

    def ensures(command, graphics_state_stack, graphics_state_stack_0, text_state, text_state_0):
        return {'set': text_state == {**text_state_0, 'Th': command[0]},
                'stack': graphics_state_stack == graphics_state_stack_0}


@op('TL', 'real')
class _c_TL:
    def requires(graphics_state_stack, text_state):
        return started(graphics_state_stack, text_state)

    def ensures(command, graphics_state_stack, graphics_state_stack_0, text_state, text_state_0):
        return {'set': text_state == {**text_state_0, 'Tl': command[0]},
                'stack': graphics_state_stack == graphics_state_stack_0}


@op('Tr', 'real')
class _c_Tr:
    def requires(graphics_state_stack, text_state):
        return started(graphics_state_stack, text_state)

    def ensures(command, graphics_state_stack, graphics_state_stack_0, text_state, text_state_0):
        return {'set': text_state == {**text_state_0, 'Tmode': command[0]},
                'stack': graphics_state_stack == graphics_state_stack_0}


@op('Ts', 'real')
class _c_Ts:
    def requires(graphics_state_stack, text_state):
        return started(graphics_state_stack, text_state)

    def ensures(command, graphics_state_stack, graphics_state_stack_0, text_state, text_state_0):
        return {'set': text_state == {**text_state_0, 'Trise': command[0]},
                'stack': graphics_state_stack == graphics_state_stack_0}


@op('Tf', 'any', 'real')
class _c_Tf:
    def requires(graphics_state_stack, text_state):
        return started(graphics_state_stack, text_state)

    def ensures(command, graphics_state_stack, graphics_state_stack_0, text_state, text_state_0):
        return {'set': text_state == {**text_state_0, 'Tf': command[0], 'Tfs': command[1]},
                'stack': graphics_state_stack == graphics_state_stack_0}


@spec([TS, TS], 'bool', inline=True)
def same_params(t, u):
    """Everything but the two matrices."""
    return (t['Tc'] == u['Tc'] and t['Tw'] == u['Tw'] and t['Th'] == u['Th'] and t['Tl'] == u['Tl']
            and t['Tf'] == u['Tf'] and t['Tfs'] == u['Tfs'] and t['Tmode'] == u['Tmode']
            and t['Trise'] == u['Trise'])


@op('BT')
class _c_BT:
    def requires(graphics_state_stack, text_state):
        return started(graphics_state_stack, text_state)

    def ensures(graphics_state_stack, graphics_state_stack_0, text_state, text_state_0):
        return {'identity': same_m(text_state['tm'], [1, 0, 0, 1, 0, 0]) and same_m(text_state['tlm'], [1, 0, 0, 1, 0, 0]),
                'params': ready(text_state) and same_params(text_state, text_state_0),
                'stack': graphics_state_stack == graphics_state_stack_0}


@op('Td', 'real', 'real')
class _c_Td:
    def requires(graphics_state_stack, text_state):
        return started(graphics_state_stack, text_state)

    def ensures(command, graphics_state_stack, graphics_state_stack_0, text_state, text_state_0):
        m = mul([1, 0, 0, 1, command[0], command[1]], text_state_0['tlm'])
        return {'moved': same_m(text_state['tm'], m) and same_m(text_state['tlm'], m),
                'params': ready(text_state) and same_params(text_state, text_state_0),
                'stack': graphics_state_stack == graphics_state_stack_0}


@op('TD', 'real', 'real')
class _c_TD:
    def requires(graphics_state_stack, text_state):
        return started(graphics_state_stack, text_state)

    def ensures(command, graphics_state_stack, graphics_state_stack_0, text_state, text_state_0):
        m = mul([1, 0, 0, 1, command[0], command[1]], text_state_0['tlm'])
        return {'moved': same_m(text_state['tm'], m) and same_m(text_state['tlm'], m),
                'leading': text_state['Tl'] == 0 - command[1],
                'params': ready(text_state) and same_params(text_state, {**text_state_0, 'Tl': text_state['Tl']}),
                'stack': graphics_state_stack == graphics_state_stack_0}


@op('Tm', 'real', 'real', 'real', 'real', 'real', 'real')
class _c_Tm:
    def requires(graphics_state_stack, text_state):
        return started(graphics_state_stack, text_state)

    def ensures(command, graphics_state_stack, graphics_state_stack_0, text_state, text_state_0):
        m = [command[0], command[1], command[2], command[3], command[4], command[5]]
        return {'set': same_m(text_state['tm'], m) and same_m(text_state['tlm'], m),
                'params': ready(text_state) and same_params(text_state, text_state_0),
                'stack': graphics_state_stack == graphics_state_stack_0}


@op('T*')
class _c_Tstar:
    def requires(graphics_state_stack, text_state):
        return started(graphics_state_stack, text_state)

    def ensures(graphics_state_stack, graphics_state_stack_0, text_state, text_state_0):
        m = mul([1, 0, 0, 1, 0, 0 - text_state_0['Tl']], text_state_0['tlm'])
        return {'next-line': same_m(text_state['tm'], m) and same_m(text_state['tlm'], m),
                'params': ready(text_state) and same_params(text_state, text_state_0),
                'stack': graphics_state_stack == graphics_state_stack_0}


@op("'", 'bytes')
class _c_quote:
    def requires(graphics_state_stack, text_state):
        return started(graphics_state_stack, text_state)

    def ensures(graphics_state_stack, graphics_state_stack_0, text_state, text_state_0):
        m = mul([1, 0, 0, 1, 0, 0 - text_state_0['Tl']], text_state_0['tlm'])
        return {'next-line': same_m(text_state['tm'], m) and same_m(text_state['tlm'], m),
                'params': ready(text_state) and same_params(text_state, text_state_0),
                'stack': graphics_state_stack == graphics_state_stack_0}


@op('"', 'real', 'real', 'bytes')
class _c_dquote:
    def requires(graphics_state_stack, text_state):
        return started(graphics_state_stack, text_state)

    def ensures(command, graphics_state_stack, graphics_state_stack_0, text_state, text_state_0):
        m = mul([1, 0, 0, 1, 0, 0 - text_state_0['Tl']], text_state_0['tlm'])
        return {'next-line': same_m(text_state['tm'], m) and same_m(text_state['tlm'], m),
                'params': ready(text_state)
                and same_params(text_state, {**text_state_0, 'Tw': command[0], 'Tc': command[1]}),
                'stack': graphics_state_stack == graphics_state_stack_0}


@op('cm', 'real', 'real', 'real', 'real', 'real', 'real')
class _c_cm:
    def requires(graphics_state_stack, text_state):
        return started(graphics_state_stack, text_state)

    def ensures(command, graphics_state_stack, graphics_state_stack_0, text_state, text_state_0):
        n = len(graphics_state_stack_0)
        m = mul([command[0], command[1], command[2], command[3], command[4], command[5]],
                graphics_state_stack_0[n - 1]['ctm'])
        return {'ctm': len(graphics_state_stack) == n and same_m(graphics_state_stack[n - 1]['ctm'], m)
                and 'text' not in graphics_state_stack[n - 1],
                'below': graphics_state_stack[:n - 1] == graphics_state_stack_0[:n - 1],
                'text': text_state == text_state_0}


@op('q')
class _c_q:
    """The saved entry keeps the matrix and the text parameters; a copy of the matrix goes on top."""
    def requires(graphics_state_stack, text_state):
        return started(graphics_state_stack, text_state)

    def ensures(graphics_state_stack, graphics_state_stack_0, text_state, text_state_0):
        n = len(graphics_state_stack_0)
        top = graphics_state_stack[n]
        saved = graphics_state_stack[n - 1]
        return {'pushed': len(graphics_state_stack) == n + 1 and top['ctm'] == graphics_state_stack_0[n - 1]['ctm']
                and 'text' not in top,
                'saved': saved['ctm'] == graphics_state_stack_0[n - 1]['ctm'] and 'text' in saved
                and same_params({**saved['text']}, text_state_0),
                'below': graphics_state_stack[:n - 1] == graphics_state_stack_0[:n - 1],
                'text': text_state == text_state_0}


@op('Q')
class _c_Q:
    """Back to the matrix and text parameters of the entry below."""
    def requires(graphics_state_stack, text_state):
        n = len(graphics_state_stack)
        return (started(graphics_state_stack, text_state) and n > 1 and 'text' in graphics_state_stack[n - 2]
                and len(graphics_state_stack[n - 2]['ctm']) == 6)

    def ensures(graphics_state_stack, graphics_state_stack_0, text_state, text_state_0):
        n = len(graphics_state_stack_0)
        saved = graphics_state_stack_0[n - 2]
        return {'popped': len(graphics_state_stack) == n - 1
                and graphics_state_stack[n - 2]['ctm'] == saved['ctm'] and 'text' not in graphics_state_stack[n - 2],
                'below': graphics_state_stack[:n - 2] == graphics_state_stack_0[:n - 2],
                'restored': ready(text_state) and same_params(text_state, saved['text']),
                'matrices': text_state['tm'] == text_state_0['tm'] and text_state['tlm'] == text_state_0['tlm']}


@contract('graphics.apply_command', {'command': fix(const('BT')), 'graphics_state_stack': STACK, 'text_state': EMPTY},
          None, props=['C18'], raises='no', modifies=['graphics_state_stack', 'text_state'],
          name='graphics.apply_command[first]')
class _c_first:
    """The first command starts from the initial state."""
    def requires(graphics_state_stack):
        return len(graphics_state_stack) == 0

    def ensures(graphics_state_stack, text_state):
        return {'ctm': len(graphics_state_stack) == 1 and same_m(graphics_state_stack[0]['ctm'], [1, 0, 0, 1, 0, 0])
                and 'text' not in graphics_state_stack[0],
                'text': text_state['Tc'] == 0 and text_state['Tw'] == 0 and text_state['Th'] == 100
                and text_state['Tl'] == 0 and text_state['Trise'] == 0
                and same_m(text_state['tm'], [1, 0, 0, 1, 0, 0]) and same_m(text_state['tlm'], [1, 0, 0, 1, 0, 0])}


@contract('graphics.trm', {'ts': TS, 'gs': STACK}, MAT, props=['C18'], raises='no',
          inline=['graphics.multiply_matrices'])
class trm_c:
    def requires(ts, gs):
        return started(gs, ts) and ts['Tfs'] is not None

    def ensures(ts, gs, result):
        fs = ts['Tfs']
        c = [fs * ts['Th'] / 100, 0, 0, fs, 0, ts['Trise']]
        return same_m(result, mul(mul(c, ts['tm']), gs[-1]['ctm']))


# ---- commands of a content stream
ANYS = lst('any')
CMDS = lst(lst('any'))


@spec(['any'], 'bool')
def is_operator(t):
    return type(t) == str and t[0:1] != '/' and t != 'null'


@spec([CMDS], ANYS)
def flat(cs):
    """All items of the commands, in order."""
    if len(cs) == 0:
        return []
    return cs[0] + flat(cs[1:])


@spec([ANYS, 'int'], 'bool')
def operands(c, n):
    """The first n items are operands."""
    if n <= 0:
        return True
    return not is_operator(c[0]) and operands(c[1:], n - 1)


@spec([CMDS], 'bool')
def well_cut(cs):
    """Each command is operands followed by one operator; the last may lack its operator."""
    if len(cs) == 0:
        return True
    return (len(cs[0]) > 0 and operands(cs[0], len(cs[0]) - 1)
            and (is_operator(cs[0][len(cs[0]) - 1]) or len(cs) == 1) and well_cut(cs[1:]))


@lemma({'c': ANYS, 'r': CMDS}, props=['C18'])
class flat_cons:
    def ensures(c, r):
        return flat([c] + r) == c + flat(r)


@lemma({'xs': ANYS, 'i': 'int'}, props=['C18'])
class suffix_step:
    def requires(xs, i):
        return 0 <= i and i < len(xs)

    def ensures(xs, i):
        return xs[i:] == [xs[i]] + xs[i + 1:]


@contract('graphics.parse_stream_content', {'content_stream': 'bytes'}, CMDS, props=['C18'], unfold=3)
class parse_stream_content_c:
    def ensures(content_stream, result):
        tokens = as_list(parsed(b'[' + content_stream + b'\n]', 0))
        return {'all': flat(result) == tokens,
                'cut': well_cut(result)}

    def _inv(tokens, ret, current, i):
        n = len(current)
        return {'i': -1 <= i and i < len(tokens),
                'flat': current + flat(ret) == as_list(tokens)[i + 1:],
                'cut': well_cut(ret),
                'cur': n == 0 or (operands(current, n - 1) and (is_operator(current[n - 1]) or len(ret) == 0)),
                'end': n > 0 or len(ret) == 0}

    def _var(i):
        return i + 1
    def _hint(tokens, i, current, ret):
        return [suffix_step(as_list(tokens), i + 1), implies(len(ret) > 0, flat_cons(ret[0], ret[1:]))]
    loops = {0: Loop(_inv, _var, types={'ret': CMDS, 'current': ANYS}, hints=_hint)}

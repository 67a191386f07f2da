"""C23: spatial text output."""
from .core import Fail, n
from pdfsyntax.layout import basic_spatial_layout, simplify_horizontal_text_elements


def fragments(r):
    k = r.choice([0, 1, 2, 3, 6, 12])
    ys = [r.choice([0, 700, 712.5, 688, -20, r.randint(-50, 800), r.uniform(0, 800)]) for _ in range(r.randint(1, max(1, k)))]
    xs = [r.choice([0, 50, 72, -10, r.randint(-50, 600), r.uniform(0, 600)]) for _ in range(r.randint(1, max(1, k)))]
    sc = [r.choice([12, 10, 8.5, 24, 1, -12, 0]) for _ in range(r.choice([1, 1, 2]))]
    out = []
    for i in range(k):
        t = r.choice([f'<{i}>'] * 6 + ['', ' ', '   ', f' <{i}>', f'<{i}> ', f'<{i}>' * 1 + 'x' * r.randint(0, 30)])
        out.append({'x': r.choice(xs), 'y': r.choice(ys) + r.choice([0, 0, 0, 1, -2, 0.01]), 'width': r.choice([0, 5, 30.5, len(t) * 6, -8]),
                    'scaling': r.choice(sc), 'text': t})
    return out


def check(fr, out):
    lines = out.split('\n')
    where = {}
    for i, f in enumerate(fr):
        t = f['text']
        if not t.strip():
            continue
        m = f'<{i}>'
        c = out.count(m)
        if c != 1:
            raise Fail(f'fragment {i} appears {c} times', fragments=fr, output=out)
        if t.rstrip() not in out:
            raise Fail(f'fragment {i} is cut', fragments=fr, output=out)
        ln = [j for j, l in enumerate(lines) if m in l][0]
        where[i] = (ln, lines[ln].index(m))
    for i in where:
        for j in where:
            if i == j:
                continue
            a, b = fr[i], fr[j]
            if a['y'] == b['y'] and where[i][0] != where[j][0]:
                raise Fail(f'fragments {i} and {j} of one line are separated', fragments=fr, output=out)
            if where[i][0] == where[j][0]:
                if a['x'] < b['x'] and where[i][1] > where[j][1]:
                    raise Fail(f'fragments {i} and {j} are not from left to right', fragments=fr, output=out)
            elif where[i][0] < where[j][0] and a['y'] < b['y']:
                raise Fail(f'fragments {i} and {j} are not from top to bottom', fragments=fr, output=out)
    rest = out
    for f in fr:
        rest = rest.replace(f['text'].strip(), '', 1) if f['text'].strip() else rest
    if rest.strip():
        raise Fail('other text appears', fragments=fr, output=out)


@n(6000)
def layout(r):
    fr = fragments(r)
    out = basic_spatial_layout([dict(f) for f in fr])
    check(fr, out)
    return fr


@n(3000)
def short(r):
    """Lines of one or a few characters."""
    k = r.randint(1, 6)
    cs = r.sample('ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.,-', k)
    fr = [{'x': r.choice([0, 10, 10, 50.5, -3]), 'y': r.choice([700, 500, 300, 100, 700 - 12 * i]), 'width': r.choice([0, 5, 6]),
           'scaling': r.choice([12, 12, 9]), 'text': c} for i, c in enumerate(cs)]
    fr += [{'x': r.choice([0, 10]), 'y': r.choice([700, 310]), 'width': 3, 'scaling': 12, 'text': ' '} for _ in range(r.choice([0, 0, 1, 2]))]
    r.shuffle(fr)
    out = basic_spatial_layout([dict(f) for f in fr])
    got = sorted(out.replace(' ', '').replace('\n', ''))
    if got != sorted(cs):
        raise Fail('fragments are lost, repeated or altered', fragments=fr, output=out)
    at = {c: (i, l.index(c)) for i, l in enumerate(out.split('\n')) for c in cs if c in l}
    pos = {f['text']: f for f in fr if f['text'] != ' '}
    for a in cs:
        for b in cs:
            if at[a][0] < at[b][0] and pos[a]['y'] < pos[b]['y']:
                raise Fail('not from top to bottom', fragments=fr, output=out)
            if at[a][0] == at[b][0] and pos[a]['x'] < pos[b]['x'] and at[a][1] > at[b][1]:
                raise Fail('not from left to right', fragments=fr, output=out)
    return fr


@n(3000)
def elements(r):
    """From text elements with their matrices."""
    fr = fragments(r)
    tfs = [[[f['scaling'], 0, 0, f['scaling'], f['x'], f['y']], f['text'], [f['scaling'], 0, 0, f['scaling'], f['x'] + f['width'], f['y']]]
           for f in fr]
    simplify_horizontal_text_elements(tfs)
    for f, t in zip(fr, tfs):
        if (t['x'], t['y'], t['text']) != (f['x'], f['y'], f['text']) or abs(t['width'] - f['width']) > 1e-6:
            raise Fail('wrong fragment', fragment=f, result=t)
    out = basic_spatial_layout(tfs)
    check(fr, out)
    return fr


CHECKS = [layout, short, elements]

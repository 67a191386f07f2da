"""C02: serialize then parse."""
from .core import Fail, n
from . import gen
from .gen import PS, same, model
from pdfsyntax.objects import serialize, parse_obj, Stream, forge_stream, parse_indirect_obj
from pdfsyntax.filestruct import serialize_fragment


@n(8000)
def roundtrip(r):
    o = gen.g_obj(r)
    if r.random() < 0.5:
        o = [o, gen.g_obj(r, 1), o] if r.random() < 0.5 else {gen.g_name(r): o, gen.g_name(r): gen.g_obj(r, 1)}
    s = serialize(o)
    try:
        b = parse_obj(s)
    except Exception as e:
        raise Fail(f'parsing the serialization fails: {type(e).__name__}: {e}', object=o, serialized=s)
    if not same(model(b), o):
        raise Fail('parse(serialize(x)) != x', object=o, serialized=s, parsed=b)
    b2 = parse_obj(b' \n' + s + b'\nendobj', r.choice([0, 1, 2]))
    if not same(model(b2), o):
        raise Fail('parse(serialize(x)) != x within a file', object=o, serialized=s, parsed=b2)
    return s


@n(6000)
def independent(r):
    """The serialization means the same thing to an independent parser."""
    o = gen.g_obj(r)
    s = serialize(o)
    try:
        b, e = gen.parse(s)
    except gen.Bad as x:
        raise Fail(f'serialization is not a PDF object: {x}', object=o, serialized=s)
    if gen.skip_ws(s, e) != len(s) or not same(b, o):
        raise Fail('serialization denotes another object', object=o, serialized=s, parsed=b)
    return s


@n(3000)
def refs(r):
    l = [gen.g_ref(r) if r.random() < 0.6 else gen.g_int(r) for _ in range(r.randint(1, 9))]
    o = l if r.random() < 0.5 else {f'/K{i}': v for i, v in enumerate(l)}
    b = parse_obj(serialize(o))
    if not same(model(b), o):
        raise Fail('references or numbers change', object=o, serialized=serialize(o), parsed=b)
    one = gen.g_ref(r)
    b = parse_obj(serialize(one) + b'\nendobj')
    if not same(model(b), one):
        raise Fail('reference changes', object=one, parsed=b)
    return o


@n(2500)
def numbers(r):
    x = gen.g_real(r) if r.random() < 0.7 else gen.g_int(r)
    s = serialize(x)
    b = parse_obj(s)
    b1 = parse_obj(s + b' ')
    if not (same(b, x) and same(b1, x)):
        raise Fail('number changes', value=x, serialized=s, parsed=b)
    if isinstance(x, float) and (b'e' in s or b'E' in s):
        raise Fail('real written with an exponent', value=x, serialized=s)
    return x


@n(5000)
def streams(r):
    raw = gen.g_content(r)
    d = {gen.g_name(r, False): gen.g_obj(r, 2) for _ in range(r.randint(0, 3))}
    for k in ('/Filter', '/Length', '/DecodeParms'):
        d.pop(k, None)
    d['/Length'] = len(raw)
    s = Stream(dict(d), raw, raw)
    t = serialize(s)
    b = parse_obj(t)
    if not same(model(b), PS(d, raw)) or b['stream'] != raw:
        raise Fail('stream changes', entries=d, encoded=raw, serialized=t, parsed=b)
    f, ln = forge_stream(dict(d), raw)
    if ln != len(f['encoded']) or f['entries'].get('/Length') != len(f['encoded']) or f['stream'] != raw:
        raise Fail('forged stream has a wrong /Length or content', entries=f['entries'], encoded=f['encoded'], returned=ln)
    num, g = r.randint(1, 99), r.choice([0, 0, 3])
    blk = serialize_fragment(num, g, s)
    _, e, _, c = parse_indirect_obj(blk + b'5 0 obj\n1\nendobj\n')
    if c['o_num'] != num or c['o_gen'] != g or not same(model(c['obj']), PS(d, raw)):
        raise Fail('indirect stream object changes', block=blk, parsed=c)
    return raw, sorted(d)


@n(2500)
def fragments(r):
    o = gen.g_obj(r)
    num, g = r.randint(1, 10**6), r.choice([0, 0, 1, 65535])
    blk = serialize_fragment(num, g, o)
    n2, g2, b, e = gen.parse_indirect(blk, 0)
    if (n2, g2) != (num, g) or not same(b, o) or blk[e:].strip() != b'':
        raise Fail('indirect object block is wrong', block=blk, object=o)
    p = parse_indirect_obj(blk, 0)
    c = p[3]
    if (c['o_num'], c['o_gen']) != (num, g) or not same(model(c['obj']), o) or p[1] != e:
        raise Fail('indirect object reads differently', block=blk, object=o, parsed=p)
    return blk


CHECKS = [roundtrip, independent, refs, numbers, streams, fragments]

"""Random operations of the library, and what can be observed of a document."""
from . import gen, pdf
from .gen import ref, same, model
from .sim import Sim, write_bytes, lib_value, protected
from pdfsyntax import api
from pdfsyntax.docstruct import (changes, rewind, in_use, flat_page_tree, trailer, catalog, info, force_xref_stream,
                                 group_obj_into_stream, update_version, keep_pages, remove_pages, concat, squash,
                                 number_pages, version, encrypted, hybrid, updates, get_object, update_object,
                                 add_object, commit)


def observe(doc, deep=True, order=None):
    """Everything a user can read of a document."""
    nums = list(range(1, len(doc.index[-1])))
    if order:
        order.shuffle(nums)
    objs = {k: model(get_object(doc, ref(k, (doc.index[-1][k] or {}).get('o_gen', 0)))) for k in nums}
    out = {'objects': objs, 'trailer': model(trailer(doc)), 'changes': list(changes(doc)), 'revisions': len(doc.index),
           'in_use': list(in_use(doc)), 'version': version(doc), 'updates': updates(doc)}
    try:
        out['pages'] = [model(p) for p in api.pages(doc)]
        out['tree'] = [(a, model(b)) for a, b in flat_page_tree(doc)]
        out['count'] = number_pages(doc)
    except Exception as e:
        out['pages'] = repr(e)
    if deep:
        try:
            out['bytes'] = write_bytes(doc)
        except Exception as e:
            out['bytes'] = repr(e)
        try:
            d = doc
            hist = []
            for _ in range(len(doc.index) - 1):
                d = rewind(d)
                hist.append(observe(d, deep=False))
            out['history'] = hist
        except Exception as e:
            out['history'] = repr(e)
    return out


def diff(a, b, path=''):
    """First difference of two observations, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [x for x in b if x not in a]:
            if k not in a or k not in b:
                return f'{path}.{k}', a.get(k, '(absent)'), b.get(k, '(absent)')
            d = diff(a[k], b[k], f'{path}.{k}')
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return path, a, b
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f'{path}[{i}]')
            if d:
                return d
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        return diff(list(a), list(b), path)
    return None if same(a, b) and type(a) == type(b) else (path, a, b)


def scramble(v, r):
    """Modify a value as deeply as possible, in place."""
    if isinstance(v, dict):
        for x in list(v.values()):
            scramble(x, r)
        if r.random() < 0.5 and v:
            v.pop(next(iter(v)))
        v['/Scrambled'] = 1
    elif isinstance(v, list):
        for x in list(v):
            scramble(x, r)
        v.append(99)
    elif hasattr(v, 'items') or type(v).__name__ == 'Stream':
        try:
            scramble(v['entries'], r)
            v['stream'] = b'scrambled'
        except TypeError:
            pass
    elif isinstance(v, tuple):
        for x in v:
            scramble(x, r)


def g_session(r, **kw):
    """A document after a few random steps, and the recipe that makes another one just like it."""
    seed = r.random()
    import random

    def make():
        rr = random.Random(seed)
        s = Sim(rr, **kw)
        for _ in range(rr.choice([0, 0, 1, 3, 6])):
            s.step(read=0.2)
        return s
    return make


def quiet(f):
    """Reading calls may refuse odd documents."""
    def g(d):
        try:
            return f(d)
        except Exception:
            return d
    return g


def g_op(r, s, skip=()):
    """-> (text, function of the document).  The function may be called on any copy of the document."""
    doc = s.doc
    npg = number_pages(doc)
    some = lambda: set(r.sample(range(npg), r.randint(1, max(1, npg - 1))))
    k = r.choice([x for x in OPS if x not in skip])
    if k == 'update':
        nums = s.free_nums()
        if not nums:
            return g_op(r, s, skip)
        x, (lv, mv) = r.choice(nums), s.value()
        return f'update_object({x}, {lv!r})', lambda d: update_object(d, x, lv)
    if k == 'delete':
        nums = s.free_nums()
        if not nums:
            return g_op(r, s, skip)
        x = r.choice(nums)
        return f'update_object({x}, None)', lambda d: update_object(d, x, None)
    if k == 'add':
        lv, mv = s.value()
        return f'add_object({lv!r})', lambda d: add_object(d, lv)[0]
    if k == 'rotate':
        deg, pg = r.choice([90, 180, 270, -90, 450]), r.choice([[], [r.randrange(npg)], list(some())])
        return f'rotate({deg}, {pg})', lambda d: api.rotate(d, deg, pg)
    if k == 'keep':
        pg = some()
        return f'keep_pages({pg})', lambda d: keep_pages(d, set(pg))
    if k == 'keep1':
        x = r.randrange(npg)
        return f'[{x}]', lambda d: d[x]
    if k == 'slice':
        a = r.randrange(npg)
        b = r.randint(a + 1, npg)
        c = r.choice([None, 1, 2])
        return f'[{a}:{b}:{c}]', lambda d: d[a:b:c]
    if k == 'remove':
        if npg < 2:
            return g_op(r, s, skip)
        pg = some()
        if len(pg) == npg:
            pg = {0}
        return f'remove_pages({pg})', lambda d: remove_pages(d, set(pg))
    if k == 'iter':
        return 'list(iter)', lambda d: ([x for x in [next(iter(d))]] or [d])[0]
    if k == 'concat':
        o = g_session(r, maxpages=2)
        left = r.random() < 0.5
        tl = r.random() < 0.6
        def f(d):
            other = o().doc
            return concat(d, other, tl) if left else concat(other, d, tl)
        return f'concat(left={left}, target_left={tl})', f
    if k == 'self':
        tl = r.random() < 0.5
        return f'concat(self, self, {tl})', lambda d: concat(d, d, tl)
    if k == 'annot':
        pg, t = r.randrange(npg), r.choice(['note', 'caf\u00e9', 'a(b)\\c', '\u4e2d\u6587', ''])
        return f'add_text_annotation({pg}, {t!r})', lambda d: api.add_text_annotation(d, pg, t, [0, 0, 10, 10])
    if k == 'filter':
        fl = r.choice(['/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode'])
        return f'apply_filter(all, {fl})', lambda d: api.apply_filter(d, api.list_streams(d), fl)
    if k == 'compress':
        return 'compress()', api.compress
    if k == 'squash':
        return 'squash()', squash
    if k == 'commit':
        return 'commit()', commit
    if k == 'rewind':
        return 'rewind()', rewind
    if k == 'xrefstm':
        pl, fl = r.random() < 0.3, r.choice(['/FlateDecode', '/ASCIIHexDecode', ''])
        return f'force_xref_stream({pl}, {fl!r})', lambda d: force_xref_stream(d, pl, fl)
    if k == 'group':
        return 'group_obj_into_stream()', group_obj_into_stream
    if k == 'version':
        v = r.choice(['1.4', '1.6', '2.0'])
        return f'update_version({v})', lambda d: update_version(d, v)
    if k == 'write':
        def w(d):
            write_bytes(d)
            return d
        return 'writefile()', w
    if k == 'read':
        def f(d):
            api.structure(d)
            api.metadata(d)
            api.page_layouts(d)
            catalog(d)
            info(d)
            repr(d)
            len(d)
            return d
        return 'structure(), metadata() ...', quiet(f)
    if k == 'fonts':
        def f(d):
            for i in range(npg):
                api.get_page_fonts(d, [i])
            api.fonts(d)
            return d
        return 'fonts()', quiet(f)
    if k == 'text':
        pg = r.randrange(npg)
        def f(d):
            api.extract_page_text(d, pg)
            return d
        return f'extract_page_text({pg})', quiet(f)
    raise KeyError(k)


OPS = ['update', 'update', 'delete', 'add', 'rotate', 'rotate', 'keep', 'keep1', 'slice', 'remove', 'remove', 'iter', 'concat', 'concat',
       'self', 'annot', 'annot', 'filter', 'compress', 'squash', 'commit', 'commit', 'rewind', 'rewind', 'xrefstm', 'group', 'version',
       'write', 'read', 'fonts', 'text']


def lib_state(doc):
    """-> (state {num: (gen, value)}, root, info) as read through the library."""
    st = {int(x.imag): (int(x.real), model(get_object(doc, x))) for x in in_use(doc)}
    t = trailer(doc)
    return st, t.get('/Root'), t.get('/Info')


def refs_in(v, skip=('/Parent',)):
    if isinstance(v, complex):
        yield v
    elif isinstance(v, gen.PS):
        yield from refs_in(v.d, skip)
    elif isinstance(v, list):
        for x in v:
            yield from refs_in(x, skip)
    elif isinstance(v, dict):
        for k, x in v.items():
            if k not in skip:
                yield from refs_in(x, skip)


def is_page_node(v):
    return isinstance(v, dict) and v.get('/Type') in ('/Page', '/Pages') and ('/Kids' in v or '/Parent' in v)


def needed(st, vals):
    """Numbers of the objects reached from values without crossing a page or a tree node."""
    seen, todo = set(), list(vals)
    while todo:
        v = todo.pop()
        for x in refs_in(v):
            k = int(x.imag)
            if k in seen or k not in st or is_page_node(st[k][1]):
                continue
            seen.add(k)
            todo.append(st[k][1])
    return seen


def is_infra(v):
    return isinstance(v, gen.PS) and v.d.get('/Type') in ('/XRef', '/ObjStm')


class Iso:
    """Follows two documents in parallel; the numbering must be one to one."""

    def __init__(self, sa, sb, ok_null=(), decoded=False, skip=()):
        self.sa, self.sb, self.fwd, self.bwd = sa, sb, {}, {}
        self.ok_null = set(ok_null)      # numbers of the first document that may read null in the second
        self.decoded = decoded
        self.skip = set(skip)            # (number of the first document, key) not compared
        self.todo = []

    def get(self, st, r):
        g, v = st.get(int(r.imag), (None, None))
        return v if g == int(r.real) else None

    def values(self, a, b, path):
        """None or a description of the first difference."""
        self.todo.append((a, b, path, None))
        while self.todo:
            a, b, path, num = self.todo.pop()
            d = self.one(a, b, path, num)
            if d:
                return d
        return None

    def one(self, a, b, path, num):
        if isinstance(a, complex):
            va = self.get(self.sa, a)
            if va is None or va == 'null' or int(a.imag) in self.ok_null or is_infra(va):
                nb = self.get(self.sb, b) if isinstance(b, complex) else b
                if nb is None or nb == 'null':
                    return None
                if va is None or va == 'null':
                    return path, a, b, 'reads null in the first document', nb
            if not isinstance(b, complex):
                return path, a, b, 'not a reference any more'
            ka, kb = int(a.imag), int(b.imag)
            if ka in self.fwd or kb in self.bwd:
                if self.fwd.get(ka) != kb or self.bwd.get(kb) != ka:
                    return path, a, b, 'renumbering is not one to one', self.fwd.get(ka), self.bwd.get(kb)
                return None
            self.fwd[ka], self.bwd[kb] = kb, ka
            vb = self.get(self.sb, b)
            if vb is None:
                return path, a, b, 'leads to a missing object'
            self.todo.append((va, vb, path + f'>{ka}', ka))
            return None
        if isinstance(a, gen.PS):
            if not isinstance(b, gen.PS):
                return path, a, b
            da, db = dict(a.d), dict(b.d)
            if self.decoded:
                try:
                    ca = pdf.decode(self.plain(self.sa, a))
                except Exception:
                    ca = None
                if ca is not None:
                    try:
                        cb = pdf.decode(self.plain(self.sb, b))
                    except Exception as e:
                        cb = repr(e)
                    if ca != cb:
                        return path, a, b, 'other stream content', ca, cb
                    for x in ('/Filter', '/DecodeParms', '/Length'):
                        da.pop(x, None)
                        db.pop(x, None)
                elif a.raw != b.raw:
                    return path, a, b, 'other stream bytes'
            elif a.raw != b.raw:
                return path, a, b, 'other stream bytes'
            return self.one(da, db, path, num)
        if isinstance(a, dict) and isinstance(b, dict):
            for k in list(a) + [x for x in b if x not in a]:
                if (num, k) in self.skip:
                    continue
                if k not in a or k not in b:
                    return path + k, a.get(k, '(absent)'), b.get(k, '(absent)')
                d = self.one(a[k], b[k], path + k, None)
                if d:
                    return d
            return None
        if isinstance(a, list) and isinstance(b, list):
            if len(a) != len(b):
                return path, a, b
            for i, (x, y) in enumerate(zip(a, b)):
                d = self.one(x, y, f'{path}[{i}]', None)
                if d:
                    return d
            return None
        return None if same(a, b) else (path, a, b)

    @staticmethod
    def plain(st, ps):
        d = {k: pdf.deref(st, v) for k, v in ps.d.items() if k in ('/Filter', '/DecodeParms', '/Length')}
        if isinstance(d.get('/Filter'), list):
            d['/Filter'] = [pdf.deref(st, x) for x in d['/Filter']]
        return gen.PS(d, ps.raw)

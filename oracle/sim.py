"""Random editing sessions carried out on the library's document and on a model side by side."""
import os
import tempfile
from .core import Fail
from . import gen, pdf
from .gen import PS, ref, same, model
from pdfsyntax import api
from pdfsyntax.objects import forge_stream, Stream


def write_bytes(doc):
    """Bytes of the file that writefile produces (in a scratch file removed afterwards)."""
    fd, p = tempfile.mkstemp(prefix='pdfsyntax-check-')
    os.close(fd)
    try:
        api.writefile(doc, p)
        with open(p, 'rb') as f:
            return f.read()
    finally:
        os.unlink(p)


def lib_value(v):
    """A model value as the library represents it."""
    if isinstance(v, PS):
        return Stream(dict(v.d), pdf.decode(v), v.raw)
    return v


def protected(st, root):
    """Numbers that hold the document together: catalog, tree nodes, pages, indirect kids and counts."""
    keep = {int(root.imag)}

    def walk(r):
        while isinstance(r, complex):
            keep.add(int(r.imag))
            v = st[int(r.imag)][1]
            if isinstance(v, complex):
                r = v
                continue
            break
        node = pdf.deref(st, r)
        if node['/Type'] == '/Pages':
            for key in ('/Kids', '/Count'):
                x = node[key]
                while isinstance(x, complex):
                    keep.add(int(x.imag))
                    x = st[int(x.imag)][1]
            for k in pdf.deref(st, node['/Kids']):
                walk(k)
    walk(pdf.deref(st, root)['/Pages'])
    return keep


class Sim:
    def __init__(self, r, kinds=None, blank=None, nrev=None, maxpages=4, wild=True):
        self.r = r
        self.log = []
        if blank if blank is not None else r.random() < 0.15:
            self.file = None
            size = r.choice(['A4', 'A5', 'US Letter'])
            self.doc = api.blank(size)
            x, y = api.PAPER_SIZES[size]
            self.st = {1: (0, {'/Type': '/Catalog', '/Pages': 2j}), 2: (0, {'/Type': '/Pages', '/Kids': [3j], '/Count': 1}),
                       3: (0, {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, x, y], '/Resources': {}})}
            self.root, self.info = 1j, None
            self.base = b''
            self.extra = set()
            self.kind = 'table'
            self.log.append(f'blank({size})')
            self.states = [dict(self.st)]
            self.top = 3
        else:
            d = pdf.g_doc(r, maxpages, nrev=nrev, wild=wild)
            lay = pdf.g_layout(r, len(d.revs), kinds)
            self.file = pdf.build(d, r, lay)
            self.d = d
            self.doc = api.loads(self.file.data)
            self.st = d.state()
            self.root, self.info = ref(d.root), (ref(d.info) if d.info else None)
            self.base = self.file.data
            self.extra = set(self.file.extra)
            self.kind = 'stream' if lay[0]['kind'] == 'stream' else 'table'
            self.log.append(f'loads({self.file.data!r})')
            self.states = [d.state(i) for i in range(len(d.revs))]
            self.top = self.file.top
        self.pending = {}        # num -> 'a' | 'u' | 'd' since the last commit
        self.committed_changes = []
        self.gone = set()

    # -- edits
    def free_nums(self):
        keep = protected(self.st, self.root)
        return [k for k in self.st if k not in keep and k not in self.extra]

    def value(self):
        r = self.r
        if r.random() < 0.25:
            raw = gen.g_content(r)
            ent = {'/K': r.randint(0, 9)}
            if r.random() < 0.5:
                ent['/Filter'] = r.choice(['/FlateDecode', '/ASCIIHexDecode', ['/ASCIIHexDecode', '/FlateDecode'], '/ASCII85Decode'])
            s, _ = forge_stream(ent, raw)
            return s, PS(dict(s['entries']), s['encoded'])
        v = gen.g_obj(r, 1)
        while isinstance(v, complex) or v is None:
            v = gen.g_obj(r, 1)
        v = fix_refs(v, r, self.st)
        return v, v

    def update(self):
        nums = self.free_nums()
        if not nums:
            return self.add()
        k = self.r.choice(nums)
        lv, mv = self.value()
        self.log.append(f'update_object({k}, {lv!r})')
        self.doc = api.update_object(self.doc, k, lv)
        self.st = {**self.st, k: (self.st[k][0], mv)}
        self.pending[k] = 'a' if self.pending.get(k) == 'a' else 'u'

    def update_page(self):
        keep = [k for k, (g, v) in self.st.items() if isinstance(v, dict) and v.get('/Type') == '/Page']
        if not keep:
            return
        k = self.r.choice(keep)
        g, v = self.st[k]
        v = {**v, '/Rotate': self.r.choice([0, 90, 180, 270]), '/Mark': self.r.randint(0, 99)}
        self.log.append(f'update_object({k}, {v!r})')
        self.doc = api.update_object(self.doc, k, dict(v))
        self.st = {**self.st, k: (g, v)}
        self.pending[k] = 'a' if self.pending.get(k) == 'a' else 'u'

    def add(self):
        lv, mv = self.value()
        self.doc, ir = api.add_object(self.doc, lv)
        k = int(ir.imag)
        self.log.append(f'add_object({lv!r}) -> {k}')
        if k in self.st or k in self.extra or ir.real != 0:
            raise Fail('a new object took a number in use', log=self.log, number=ir)
        self.st = {**self.st, k: (0, mv)}
        self.pending[k] = 'a'
        self.top = max(self.top, k)

    def delete(self):
        nums = [k for k in self.free_nums()]
        if not nums:
            return
        k = self.r.choice(nums)
        self.log.append(f'update_object({k}, None)')
        self.doc = api.update_object(self.doc, k, None)
        self.st = {a: b for a, b in self.st.items() if a != k}
        self.pending[k] = 'x' if self.pending.get(k) == 'a' else 'd'
        self.gone.add(k)

    def read(self):
        nums = list(self.st) + list(self.gone) + [self.top + 5]
        for k in self.r.sample(nums, min(len(nums), 3)):
            self.expect(k)

    def expect(self, k):
        g, v = self.st.get(k, (0, None))
        got = model(api.get_object(self.doc, ref(k, g)))
        if k not in self.st and isinstance(got, PS) and got.d.get('/Type') in ('/XRef', '/ObjStm'):
            return
        if not same(got, v):
            raise Fail(f'object {k} reads wrong', log=self.log, read=got, expected=v)

    def commit(self):
        n = len(self.doc.index)
        self.log.append('commit()')
        self.doc = api.commit(self.doc)
        if self.pending:
            self.committed_changes.append(dict(self.pending))
            self.states.append(dict(self.st))
        elif len(self.doc.index) != n:
            raise Fail('committing without changes adds a revision', log=self.log)
        self.pending = {}

    def step(self, commit=0.15, read=0.15):
        k = self.r.random()
        if k < commit:
            self.commit()
        elif k < commit + read:
            self.read()
        else:
            self.r.choice([self.update, self.update, self.update_page, self.add, self.add, self.delete])()

    def check_all(self, doc=None, st=None, what='object'):
        doc = doc or self.doc
        st = self.st if st is None else st
        nums = list(st)
        self.r.shuffle(nums)
        for k in nums:
            g, v = st[k]
            got = model(api.get_object(doc, ref(k, g)))
            if not same(got, v):
                raise Fail(f'{what} {k} reads wrong', log=self.log, read=got, expected=v)
        for k in self.gone | set(range(1, self.top + 2)):
            if k not in st and k not in self.extra:
                got = api.get_object(doc, ref(k))
                if got is not None and not (isinstance(got, Stream) and got['entries'].get('/Type') in ('/XRef', '/ObjStm')):
                    raise Fail(f'deleted or unknown {what} {k} does not read as missing', log=self.log, read=got)

    def check_pages(self, doc=None, st=None):
        check_pages(doc or self.doc, self.st if st is None else st, self.root, self.log)


def check_pages(doc, st, root, log):
    pl = pdf.page_list(st, root)
    got = api.flat_page_tree(doc)
    if [int(x[0].imag) for x in got] != [k for k, _ in pl]:
        raise Fail('wrong page list', log=log, pages=got, expected=[k for k, _ in pl])
    for (k, eff), p in zip(pl, api.pages(doc)):
        own = st[k][1]
        p = model(p)
        for a in pdf.INH:
            if not same(p.get(a), eff.get(a)):
                raise Fail(f'wrong {a} of page {k}', log=log, read=p.get(a), expected=eff.get(a))
        rest = {a: v for a, v in p.items() if a not in pdf.INH}
        if not same(rest, {a: v for a, v in own.items() if a not in pdf.INH}):
            raise Fail(f'page {k} differs', log=log, read=p, expected=own)
    if api.number_pages(doc) != len(pl):
        raise Fail('wrong number of pages', log=log, read=api.number_pages(doc), expected=len(pl))


def fix_refs(v, r, st):
    """Point the references of a generated value to existing objects."""
    if isinstance(v, complex):
        k = r.choice(list(st))
        return ref(k, st[k][0])
    if isinstance(v, list):
        return [fix_refs(x, r, st) for x in v]
    if isinstance(v, dict):
        return {k: fix_refs(x, r, st) for k, x in v.items()}
    return v

"""Registration of contracts, spec functions and lemmas.

A contract is a class body of plain Python functions whose parameter names select what they see:
  requires(...)            precondition over parameters
  ensures(...)             postcondition over parameters (entry values), `result`, ghosts
  loops = {k: Loop(...)}   loop k of the function in source order (nested loops counted too)
Clauses return a bool or a dict name -> bool.  The same functions run under CPython when a contract is
checked on concrete executions.
"""
import inspect
import textwrap
import ast

CONTRACTS = {}     # 'module.func' -> Contract
SPECS = {}         # name -> Spec
LEMMAS = {}        # name -> Lemma


class Clause:
    """A plain Python function of a contract file, with its source."""

    def __init__(self, fn, owner_globals=None):
        self.fn = fn
        self.name = fn.__name__
        src = textwrap.dedent(inspect.getsource(fn))
        tree = ast.parse(src)
        node = tree.body[0]
        self.node = node
        self.params = [a.arg for a in node.args.args]
        self.globals = fn.__globals__
        self.src = src


class Loop:
    """inv, variant: functions; types: declared types of locals havocked by the loop;
    hints: lemma applications assumed at the end of the body (function returning lemma instances)."""

    def __init__(self, inv=None, variant=None, types=None, hints=None, entry_hints=None, unroll=None, ghosts=None):
        self.inv = Clause(inv) if inv else None
        self.variant = Clause(variant) if variant else None
        self.types = types or {}
        self.hints = Clause(hints) if hints else None
        self.entry_hints = Clause(entry_hints) if entry_hints else None
        self.unroll = unroll


class Contract:
    def __init__(self, target, params, returns, body, props=(), raises='any', modifies=(), owned=(), ghosts=None,
                 unfold=2, recursive=False, timeout=None, terminates=None, name=None, use=None, result_own='deep',
                 inline=(), opaque=(), split=None, modular=True, outs=None, shallow=(), same=None, quick=400):
        self.quick = quick    # milliseconds for deciding whether a path is possible (undecided: it is explored)
        self.same = same      # a parameter: when it is a container, it is changed and is itself the result
        self.shallow = tuple(shallow)      # lists whose elements must not be changed
        self.outs = outs or {}      # values the postcondition names, given by the clause `witness` at each return
        self.modular = modular      # False: callers see the body instead (results share cells with arguments)
        self.target = target
        self.params = params
        self.returns = returns
        self.props = props
        self.raises = raises
        self.modifies = tuple(modifies) + ((same,) if same else ())
        self.owned = tuple(owned)
        self.ghosts = ghosts or {}
        self.unfold = unfold
        self.timeout = timeout
        self.name = name or target
        self.use = use
        self.result_own = result_own
        self.inline = tuple(inline)
        self.opaque = tuple(opaque)
        g = body.__dict__
        self.requires = Clause(g['requires']) if 'requires' in g else None
        self.ensures = Clause(g['ensures']) if 'ensures' in g else None
        self.measure = Clause(g['measure']) if 'measure' in g else None
        self.hints = Clause(g['hints']) if 'hints' in g else None
        self.entry_hints = Clause(g['entry_hints']) if 'entry_hints' in g else None
        self.witness = Clause(g['witness']) if 'witness' in g else None
        self.on_raise = Clause(g['on_raise']) if 'on_raise' in g else None
        self.loops = g.get('loops', {})
        self.trusted = False
        self.why = g.get('why')


def contract(target, params, returns, **kw):
    def deco(body):
        c = Contract(target, params, returns, body, **kw)
        CONTRACTS[c.name] = c
        body._contract = c
        return body
    return deco


def trusted(target, params, returns, **kw):
    """Contract assumed, not proved (external or out of reach): reported as such."""
    def deco(body):
        c = Contract(target, params, returns, body, **kw)
        c.trusted = True
        CONTRACTS[c.name] = c
        return body
    return deco


class Spec:
    def __init__(self, fn, params, returns, axioms=None, opaque=False):
        self.fn = fn
        self.name = fn.__name__
        self.ptypes = params
        self.returns = returns
        self.opaque = opaque
        self.decl = None
        self.clause = None if opaque and not inspect.isfunction(fn) else Clause(fn)
        self.inline = False
        self.axioms = axioms       # Clause giving facts for every ground application
        self.lemmas = None         # Clause: lemma instances for every ground application (proved, not assumed)
        self.hom = None
        self.fold = None           # (states, spec giving the state, name of the lemma f(a + b, m) = ...)

    def __call__(self, *a):
        return self.fn(*a)


def spec(params, returns, inline=False, opaque=False, axioms=None, fold=None, hom=None):
    """Spec function.  inline: expanded at each use; opaque: uninterpreted with the given axioms.
    fold=(states, state spec or None for itself, lemma): f(s, m) runs through s from state m; on a concatenation it is
    evaluated piece by piece, which the named lemma (proved like any other) justifies.
    hom=(lemma, {spec: lemma}): f(a + b) = f(a) + f(b), and what it gives on applications of other specs."""
    def deco(fn):
        s = Spec(fn, params, returns, opaque=opaque)
        s.inline = inline
        s.fold = fold
        s.hom = hom
        s.axioms = Clause(axioms) if axioms else None
        assert s.name not in SPECS, s.name
        SPECS[s.name] = s
        return s
    return deco


def always(sp):
    """Lemmas used wherever the spec function is applied."""
    def deco(fn):
        sp.lemmas = Clause(fn)
        return fn
    return deco


class Lemma:
    """forall params. requires => ensures, proved by induction on measure (when given)."""

    def __init__(self, body, params, props=(), unfold=2, timeout=None, auto=None, assumed=None):
        self.assumed = assumed      # reason why it is taken without proof
        self.name = body.__name__
        self.params = params
        self.props = props
        self.unfold = unfold
        self.timeout = timeout
        g = body.__dict__
        self.requires = Clause(g['requires']) if 'requires' in g else None
        self.ensures = Clause(g['ensures'])
        self.measure = Clause(g['measure']) if 'measure' in g else None
        self.hints = Clause(g['hints']) if 'hints' in g else None
        self.cases = Clause(g['cases']) if 'cases' in g else None

    def __call__(self, *a):
        """Concrete evaluation: the lemma instance as a bool."""
        d = dict(zip(self.params, a))
        if self.requires and not _allof(self.requires.fn(*[d[p] for p in self.requires.params])):
            return True
        return _allof(self.ensures.fn(*[d[p] for p in self.ensures.params]))


def lemma(params, **kw):
    def deco(body):
        l = Lemma(body, params, **kw)
        LEMMAS[l.name] = l
        return l
    return deco


def _allof(r):
    if isinstance(r, dict):
        return all(r.values())
    if isinstance(r, (list, tuple)):
        return all(r)
    return bool(r)


# ---- vocabulary usable in clauses, with concrete meaning

def forall(lo, hi, p):
    return all(p(k) for k in range(lo, hi))


def exists(lo, hi, p):
    return any(p(k) for k in range(lo, hi))


def implies(a, b):
    return (not a) or b


def iff(a, b):
    return bool(a) == bool(b)


class Sorting:
    """spec f is list.sort (or sorted) by this key: f(xs) stands for the sorted list."""
    ALL = []

    def __init__(self, sp, key):
        self.spec = sp
        self.key = Clause(key)
        Sorting.ALL.append(self)


class View:
    """A dynamically typed value seen as one kind, in clauses (the identity at run time)."""

    def __init__(self, kind):
        self.kind = kind

    def __call__(self, x):
        return x


as_list, as_str, as_bytes, as_dict = View('list'), View('str'), View('bytes'), View('dict')
as_int, as_real, as_stream, as_ref, as_bool = View('int'), View('float'), View('Stream'), View('complex'), View('bool')


class SourceView(View):
    """The bytes behind a byte access function."""

    def __call__(self, f):
        return f(0, -1)[0]


as_source = SourceView('source')

"""Byte access functions (what bdata_provider and merge_fdata return).

`window` states what such a function does for its source; C20 proves it of the three implementations, and every
function that receives one is verified against it (never against a particular implementation)."""
import ast
import z3
from pyvc.api import *
from pyvc.core import *


@spec(['int', 'int'], 'int', inline=True)
def win_start(p, size):
    """Start of the bytes asked for by position p: negative positions count from the end, never outside."""
    q = p if p >= 0 else p + size
    return 0 if q < 0 else (size if q > size else q)


@spec(['int', 'int', 'int'], 'int', inline=True)
def win_len(p, n, size):
    """Number of bytes delivered: those asked for, or all that remain."""
    q = p if p >= 0 else p + size
    s = 0 if q < 0 else (size if q > size else q)
    return size - s if n == -1 or n > size - s else n


@spec(['bytes', 'int', 'int', 'bytes', 'int', 'int', 'int'], 'bool', inline=True)
def window(src, p, n, buf, i, o, m):
    """(buf, i, o, m) answers (p, n) for the source src."""
    s = win_start(p, len(src))
    k = win_len(p, n, len(src))
    return m == k and i >= 0 and i + k <= len(buf) and o == s - i and buf[i:i + k] == src[s:s + k]


def _ax_buf(f, p, n, buf):
    return window(as_source(f), p, n, buf, fd_at(f, p, n), fd_off(f, p, n), fd_len(f, p, n))


@spec(['fdata', 'int', 'int'], 'int', opaque=True)
def fd_at(f, p, n):
    return f(p, n)[1]


@spec(['fdata', 'int', 'int'], 'int', opaque=True)
def fd_off(f, p, n):
    return f(p, n)[2]


@spec(['fdata', 'int', 'int'], 'int', opaque=True)
def fd_len(f, p, n):
    return f(p, n)[3]


@spec(['fdata', 'int', 'int'], 'bytes', opaque=True, axioms=_ax_buf)
def fd_buf(f, p, n):
    """The bytes an access function hands out when asked for (p, n): the same ones every time."""
    return f(p, n)[0]


def model(it, f, args, n):
    """Result of calling a byte access function: any tuple that the window specification allows."""
    p, ln = args
    src = from_term(f.t, 'bytes')
    if isinstance(p, O):
        p = it.force(p, n)
    if p is None:
        it.oblige('fdata length query', it.eq(ln, -1), n)
        return (None, None, None, mkI(z3.Length(f.t)))
    it.oblige('fdata length argument', it.order(ast.GtE(), ln, -1, n), n)
    buf = it.call_spec(fd_buf, [f, p, ln])
    i, o, m = (it.call_spec(x, [f, p, ln]) for x in (fd_at, fd_off, fd_len))
    it.assume(it.truth(it.call_spec(window, [src, p, ln, buf, i, o, m])))
    return (buf, i, o, m)

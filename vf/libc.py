"""Assumed contracts of the C library functions that the code calls.  Every handler: h(ex, st, args, ins) -> [(state, value)]."""
import z3
from .core import *
from .smt import *


def cstr(ex, st, p, limit=4096):
    """concrete C string at p, or None"""
    out = []
    if not isinstance(p, Ptr) or isinstance(p.b, Fam) or p.b is NULLOBJ or not isinstance(p.off, int):
        return None
    c = ex.content(st, p.b)
    if c is None or c.flds is not None:
        return None
    for i in range(limit):
        v = ex.rd_byte(c, p.off + i)
        if not isinstance(v, int):
            return None
        if v == 0:
            return bytes(out)
        out.append(v)
    return None


def log(st, *ev):
    st.ghost['log'] = st.ghost.get('log', ()) + (ev,)


# ---- allocation -----------------------------------------------------------------------------------------
def h_malloc(ex, st, a, ins):
    s2 = st.copy()
    p = ex.malloc(st, a[0])
    out = [(st, p)]
    if not ex.no_alloc_fail:
        s2.ghost['oom'] = True
        out.append((s2, NULL))
    return out


def h_calloc(ex, st, a, ins):
    n = Mul(a[0], a[1], 64)
    s2 = st.copy()
    p = ex.malloc(st, n)
    ex.fill_range(st, p, n, 0)
    s2.ghost['oom'] = True
    return [(st, p), (s2, NULL)]


def h_realloc(ex, st, a, ins):
    p, n = a
    s2 = st.copy()
    s2.ghost['oom'] = True
    out = []
    if isinstance(p.b, Fam):
        r = p.b.realloc(ex, st, p, n)
        return [(s, v) for (s, v) in r] + [(s2, NULL)]
    if p.b is NULLOBJ:
        ex.oblige(st, Eq(off64(p.off), 0, 64), 'realloc of a valid block')
        return [(st, ex.malloc(st, n)), (s2, NULL)]
    old = ex.content(st, p.b)
    if old is None:
        ex.oblige(st, False, 'realloc of a live block')
    ex.oblige(st, p.b.kind == 'heap', 'realloc of a heap block')
    ex.oblige(st, Eq(off64(p.off), 0, 64), 'realloc of the start of a block')
    q = ex.malloc(st, n)
    if old.flds is not None or q.b.stride > 1:
        c = st.mem[q.b].copy()
        if old.flds is not None and c.flds is None:
            raise Unsupported('realloc changes the element layout')
        if old.flds is None:
            raise Unsupported('realloc changes the element layout')
        c.flds = dict(old.flds)     # bytes beyond the old size are arbitrary: the old stores say nothing there
        st.mem[q.b] = c
    elif isinstance(n, int) and isinstance(p.b.size, int):
        k = min(n, p.b.size)
        if k:
            ex.copy_range(st, Ptr(q.b, 0), Ptr(p.b, 0), k)
    else:
        c = old.copy()
        st.mem[q.b] = Content(dict(old.cells), old.bg if old.bg is not None else uf_store(fresh_name('uninit'), 8, 64))
    del st.mem[p.b]
    return [(st, q), (s2, NULL)]


def h_free(ex, st, a, ins):
    ex.free(st, a[0])
    return [(st, None)]


# ---- strings --------------------------------------------------------------------------------------------
def byte_at(ex, st, p, i):
    """safety checked read of byte i (int) at p"""
    alts = ex.load(st, padd(p, i), INT8, None_mod)
    if len(alts) != 1:
        raise Unsupported('byte with alternatives')
    return alts[0][1]


class _M:
    def resolve(self, t):
        return t

    def size(self, t):
        return t.w // 8 if t.k == 'int' else 8


None_mod = _M()
from . import ir as _ir
INT8 = _ir.INT(8)
INT32 = _ir.INT(32)
INT64 = _ir.INT(64)
PTRT = _ir.PTR


def h_memcmp(ex, st, a, ins):
    p, q, n = a
    if not isinstance(n, int):
        raise Unsupported('memcmp of symbolic length')
    if n == 0:
        return [(st, 0)]
    # word-wise view of strided objects
    eqs = []
    lt = None
    bs = []
    sp = ex.stride_of(st, p)
    sq = ex.stride_of(st, q)
    for i in range(n):
        bs.append((i,))
    if sp > 1 or sq > 1:
        for i in range(0, n, 4):
            x = ex.load(st, padd(p, i), INT32, None_mod)[0][1]
            y = ex.load(st, padd(q, i), INT32, None_mod)[0][1]
            ex.need(st, x, 'memcmp'); ex.need(st, y, 'memcmp')
            eqs.append(Eq(x, y, 32))
        r = fresh(32, 'memcmp')
        st.assume(S(tb(Iff(Eq(r, 0, 32), And(*eqs)))))
        return [(st, r)]
    res = 0
    parts = []
    for i in range(n):
        x = byte_at(ex, st, p, i)
        y = byte_at(ex, st, q, i)
        ex.need(st, x, 'memcmp'); ex.need(st, y, 'memcmp')
        parts.append((x, y))
    for (x, y) in reversed(parts):
        res = If(Eq(x, y, 8), res, If(ULT(x, y, 8), mask(-1, 32), 1, 32), 32)
    if not isinstance(res, int):
        res = S(res)
    return [(st, res)]


def strings_cmp(ex, st, p, q, n, fold):
    """strcmp-like comparison where at least one side is a concrete string; reads byte by byte and stops like the libc"""
    c = cstr(ex, st, q)
    swap = False
    if c is None:
        c = cstr(ex, st, p)
        p, q = q, p
        swap = True
    if c is None:
        raise Unsupported('comparison of two unknown strings')
    # read p up to the first difference: byte i is read only when bytes < i were equal (and non-zero)
    s = c + b'\0'
    out = []
    cur = st
    for i, ch in enumerate(s):
        if n is not None and i >= n:
            return out + [(cur, 0)]
        x = byte_at(ex, cur, p, i)
        ex.need(cur, x, 'string byte')
        if fold and chr(ch).isalpha():
            e = Or(Eq(x, ord(chr(ch).lower()), 8), Eq(x, ord(chr(ch).upper()), 8))
        else:
            e = Eq(x, ch, 8)
        d = ex.decide(cur, e)
        if d is False:
            r = fresh(32, 'cmp')
            cur.assume(r != 0)
            return out + [(cur, r)]
        if d is not True:
            s2 = cur.copy()
            s2.assume(Not(d))
            r = fresh(32, 'cmp')
            s2.assume(r != 0)
            out.append((s2, r))
            cur.assume(d)
        if ch == 0:
            return out + [(cur, 0)]
    return out + [(cur, 0)]


def h_strcmp(ex, st, a, ins):
    return strings_cmp(ex, st, a[0], a[1], None, False)


def h_strncmp(ex, st, a, ins):
    if not isinstance(a[2], int):
        raise Unsupported('strncmp with symbolic length')
    return strings_cmp(ex, st, a[0], a[1], a[2], False)


def h_strcasecmp(ex, st, a, ins):
    return strings_cmp(ex, st, a[0], a[1], None, True)


def h_strlen(ex, st, a, ins):
    c = cstr(ex, st, a[0])
    if c is None:
        raise Unsupported('strlen of an unknown string')
    return [(st, len(c))]


def h_exit(ex, st, a, ins):
    st.done = ('stop', 'exit')
    log(st, 'exit')
    return [(st, None)]


def h_assert_fail(ex, st, a, ins):
    c = cstr(ex, st, a[0])
    ex.oblige(st, False, 'assertion %s' % (c.decode() if c else '?'))
    raise PathEnd('assert')


def h_setjmp(ex, st, a, ins):
    buf = a[0]
    if isinstance(buf.b, Fam) or buf.b not in st.mem:
        ex.oblige(st, False, 'setjmp buffer alive')
    rec = JumpRec()
    fr = st.fr
    rec.fid = fr.id
    rec.blk = fr.blk
    rec.idx = ins.idx + 1
    rec.res = ins.res
    rec.snap = {}
    for r in fr.f.regallocas:
        o = fr.allocamap.get(r)
        if o is not None and o in st.mem:
            rec.snap[o] = dict(st.mem[o].cells)
    st.jumps = dict(st.jumps)
    st.jumps[buf.b] = rec
    return [(st, 0)]


def h_longjmp(ex, st, a, ins):
    ex.longjmp(st, a[0], a[1] if isinstance(a[1], int) else 1)
    return [(st, THROWN)]


def h_puts(ex, st, a, ins):
    return [(st, fresh(32, 'io'))]


def snprintf_msg(ex, st, a, ins):
    """snprintf into a buffer whose text is not interpreted: bytes arbitrary, terminated; arguments that are strings unchecked"""
    buf, n, fmt = a[0], a[1], a[2]
    f = cstr(ex, st, fmt)
    ex.snprintf_hook(st, f, a)
    if isinstance(n, int) and n == 0:
        return [(st, fresh(32, 'len'))]
    c = ex.access_range(st, buf, n, 'store')
    t = uf_store(fresh_name('text'), 8, 64)
    if not isinstance(n, int) or isinstance(buf.b, Fam):
        raise Unsupported('formatted text into a symbolic buffer')
    if buf.off == 0 and n == buf.b.size and c.flds is None:
        st.mem[buf.b] = Content({}, t)
    else:
        ex.write_range(st, buf, n, lambda k: t.read(k))
    return [(st, fresh(32, 'len'))]


LIBC = {
    'malloc': h_malloc, 'calloc': h_calloc, 'realloc': h_realloc, 'free': h_free,
    'memcmp': h_memcmp, 'strcmp': h_strcmp, 'strncmp': h_strncmp, 'strcasecmp': h_strcasecmp, 'strlen': h_strlen,
    'exit': h_exit, 'abort': h_exit, '__assert_fail': h_assert_fail, '_setjmp': h_setjmp, 'setjmp': h_setjmp,
    'longjmp': h_longjmp, 'puts': h_puts, 'snprintf': snprintf_msg,
}


def memcpy_like(ex, st, a, ins):
    ex.copy_range(st, a[0], a[1], a[2])
    return [(st, a[0])]


def memset_like(ex, st, a, ins):
    ex.fill_range(st, a[0], a[2], TR(a[1], 32, 8))
    return [(st, a[0])]


LIBC['memcpy'] = LIBC['memmove'] = memcpy_like
LIBC['memset'] = memset_like

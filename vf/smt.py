"""Solver layer: terms, folding operators, queries with ground instantiation of universally quantified facts."""
import os, time, subprocess, tempfile
import z3

z3.set_param('smt.random_seed', 1)

TIMEOUT_MS = int(os.environ.get('VF_TIMEOUT_MS', '20000'))


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.maxt = 0.0
        self.by = {'z3': 0, 'cvc5': 0, 'syntactic': 0}


STATS = Stats()
_ctr = [0]


def fresh_name(p):
    _ctr[0] += 1
    return "%s!%d" % (p, _ctr[0])


def fresh(w, p='t'):
    return z3.BitVec(fresh_name(p), w)


def fresh_bool(p='b'):
    return z3.Bool(fresh_name(p))


def bv(v, w):
    return z3.BitVecVal(v, w) if isinstance(v, int) else v


def mask(v, w):
    return v & ((1 << w) - 1)


def sx(v, w):
    """signed value of the w-bit int v"""
    return v - (1 << w) if v >> (w - 1) & 1 else v


def lit(e):
    """Return a Python value when the z3 term is a literal."""
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def S(e):
    if isinstance(e, (int, bool)):
        return e
    return lit(z3.simplify(e))


def tb(c):
    """to z3 Bool"""
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if isinstance(c, int):
        return z3.BoolVal(bool(c))
    return c


def And(*a):
    l = []
    for x in a:
        if x is True:
            continue
        if x is False:
            return False
        l.append(x)
    if not l:
        return True
    if len(l) == 1:
        return l[0]
    return z3.And(*l)


def Or(*a):
    l = []
    for x in a:
        if x is False:
            continue
        if x is True:
            return True
        l.append(x)
    if not l:
        return False
    if len(l) == 1:
        return l[0]
    return z3.Or(*l)


def Not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def If(c, a, b, w=None):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) and a == b:
        return a
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
        return z3.If(c, tb(a), tb(b))
    if w is None:
        w = a.size() if not isinstance(a, int) else b.size()
    a = bv(a, w)
    b = bv(b, w)
    if a.eq(b):
        return lit(a)
    return z3.If(c, a, b)


# folding bit vector operators, w = width of the operands
def Add(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return mask(a + b, w)
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return S(bv(a, w) + bv(b, w))


def Sub(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return mask(a - b, w)
    if isinstance(b, int) and b == 0:
        return a
    return S(bv(a, w) - bv(b, w))


def Mul(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return mask(a * b, w)
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    return S(bv(a, w) * bv(b, w))


def Eq(a, b, w=None):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a == b
    if w is None:
        x = a if not isinstance(a, (int, bool)) else b
        if z3.is_bool(x):
            return S(tb(a) == tb(b))
        w = x.size()
    return S(bv(a, w) == bv(b, w))


def ULT(a, b, w=None):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    if w is None:
        w = (a if not isinstance(a, int) else b).size()
    return S(z3.ULT(bv(a, w), bv(b, w)))


def ULE(a, b, w=None):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    if w is None:
        w = (a if not isinstance(a, int) else b).size()
    return S(z3.ULE(bv(a, w), bv(b, w)))


def ZX(a, w, to):
    if isinstance(a, int):
        return a
    if to == w:
        return a
    return S(z3.ZeroExt(to - w, a))


def SX(a, w, to):
    if isinstance(a, int):
        return mask(sx(a, w), to)
    if to == w:
        return a
    return S(z3.SignExt(to - w, a))


def TR(a, w, to):
    if isinstance(a, int):
        return mask(a, to)
    if to == w:
        return a
    # extract of a zero extension is common (index terms)
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONCAT and a.num_args() == 2 and a.arg(1).size() == to:
        return lit(a.arg(1))
    return S(z3.Extract(to - 1, 0, a))


def byte_of(v, w, i):
    """byte i (little endian) of the w-bit value v"""
    if isinstance(v, int):
        return (v >> (8 * i)) & 0xff
    if w == 8:
        return v
    return S(z3.Extract(8 * i + 7, 8 * i, v))


def concat_bytes(bs):
    """little-endian list of byte values -> integer value"""
    if all(isinstance(b, int) for b in bs):
        r = 0
        for i, b in enumerate(bs):
            r |= b << (8 * i)
        return r
    if len(bs) == 1:
        return bs[0]
    return S(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))


# ---- linear normal form over 64-bit terms -----------------------------------------------------------------
def lin(t, w=64):
    """term -> (const, {ast_id: (coef, atom)}) ; arithmetic mod 2^w"""
    if isinstance(t, int):
        return mask(t, w), {}
    k = t.decl().kind() if z3.is_app(t) else None
    if z3.is_bv_value(t):
        return t.as_long(), {}
    if k == z3.Z3_OP_BADD:
        c = 0
        d = {}
        for x in t.children():
            cc, dd = lin(x, w)
            c = mask(c + cc, w)
            for i, (co, at) in dd.items():
                o = d.get(i, (0, at))[0]
                d[i] = (mask(o + co, w), at)
        return c, {i: x for i, x in d.items() if x[0]}
    if k == z3.Z3_OP_BMUL and t.num_args() == 2:
        a, b = t.arg(0), t.arg(1)
        if z3.is_bv_value(b):
            a, b = b, a
        if z3.is_bv_value(a):
            c, d = lin(b, w)
            m = a.as_long()
            return mask(c * m, w), {i: (mask(co * m, w), at) for i, (co, at) in d.items() if mask(co * m, w)}
    return 0, {t.get_id(): (1, t)}


def div_exact(t, stride):
    """offset term -> (index term, field offset) such that t == stride*index + field for small signed coefficients; None if
    the linear form is not of this shape."""
    c, d = lin(t)
    c = sx(c, 64)
    fld = c % stride
    idx = (c - fld) // stride
    r = mask(idx, 64)
    for (co, at) in d.values():
        co = sx(co, 64)
        if co % stride:
            return None
        r = Add(r, Mul(mask(co // stride, 64), at, 64), 64)
    return r, fld


# ---- queries ----------------------------------------------------------------------------------------------
def _cvc5(smt2, timeout):
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    f.write(smt2)
    f.close()
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '--solve-bv-as-int=sum', f.name], capture_output=True, text=True,
                           timeout=timeout / 1000 + 10)
        o = p.stdout.strip().split('\n')[0] if p.stdout else ''
        return o if o in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(f.name)


QUICK_MS = 400
INT_FIRST = [False]


def check(assertions, timeout=None, fallback=True):
    """-> ('unsat'|'sat'|'unknown', model or None, backend).  Portfolio: z3 on bit-vectors (short), z3 on the exact integer
    translation, then (fallback) z3 on bit-vectors with the full timeout and cvc5."""
    asr = []
    for a in assertions:
        if a is True:
            continue
        if a is False:
            STATS.by['syntactic'] += 1
            return 'unsat', None, 'syntactic'
        asr.append(a)
    timeout = timeout or TIMEOUT_MS
    t0 = time.time()
    try:
        return check_(asr, timeout, fallback)
    finally:
        dt = time.time() - t0
        STATS.queries += 1
        STATS.time += dt
        STATS.maxt = max(STATS.maxt, dt)
        if os.environ.get('VF_SLOW') and dt > float(os.environ['VF_SLOW']):
            s = z3.Solver()
            s.add(*asr)
            fn = '/tmp/slow_%d_%d.smt2' % (os.getpid(), STATS.queries)
            open(fn, 'w').write(s.to_smt2())
            import traceback
            print('SLOW', round(dt, 2), fn, ' < '.join('%s:%d' % (f.name, f.lineno) for f in traceback.extract_stack()[-9:-2]), flush=True)


def bvcheck(asr, timeout):
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*asr)
    r = s.check()
    if r == z3.unsat:
        STATS.by['z3'] += 1
        return ('unsat', None, 'z3'), s
    if r == z3.sat:
        STATS.by['z3'] += 1
        return ('sat', s.model(), 'z3'), s
    return None, s


def check_(asr, timeout, fallback):
    from . import intblast
    if INT_FIRST[0]:
        o = intblast.check(asr, min(timeout, 1500), 1)
        if o == 'unsat':
            STATS.by['z3-int'] = STATS.by.get('z3-int', 0) + 1
            return 'unsat', None, 'z3-int'
        if o == 'sat' and not fallback:
            return 'sat', None, 'z3-int'
    r, s = bvcheck(asr, min(QUICK_MS, timeout))
    if r:
        return r
    o = intblast.check(asr, min(timeout, 4000), 2 if fallback else 1)
    if o == 'unsat':
        STATS.by['z3-int'] = STATS.by.get('z3-int', 0) + 1
        return 'unsat', None, 'z3-int'
    if o == 'sat' and not fallback:
        return 'sat', None, 'z3-int'
    if not fallback:
        return 'unknown', None, 'z3'
    r, s = bvcheck(asr, 5000 if o == 'sat' else timeout)
    if r:
        return r
    if o == 'sat':
        return 'sat', None, 'z3-int'
    o = _cvc5('(set-logic ALL)\n' + s.to_smt2(), timeout)
    if o != 'unknown':
        STATS.by['cvc5'] += 1
        return o, None, 'cvc5'
    o = intblast.check(asr, timeout, 3)
    return o, None, 'z3-int'

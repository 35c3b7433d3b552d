"""Exact translation of quantifier free bit-vector formulas with uninterpreted functions to linear integer arithmetic.  Every
bit-vector term of width w becomes an integer in [0, 2^w); wrap-around is explicit (x = s - 2^w q with q bounded).  Bitwise
operations on two variable operands are replaced by bounded unknowns (`exact` is then False: 'unsat' stays conclusive)."""
import z3


def sg(c, w):
    return c - (1 << w) if c >> (w - 1) & 1 else c


class Blaster:
    def __init__(self):
        self.ent = {}        # key -> (value, entry); entry = [own side conditions, keys of sub-entries, exact]
        self.cur = [[], [], True]
        self.fn = {}
        self.n = 0
        self.keep = []

    @property
    def side(self):
        return self.cur[0]

    @side.setter
    def side(self, v):
        self.cur[0] = v

    @property
    def exact(self):
        return self.cur[2]

    @exact.setter
    def exact(self, v):
        self.cur[2] = v

    def memo(self, key, fn, *a):
        r = self.ent.get(key)
        if r is None:
            old = self.cur
            self.cur = [[], [], True]
            try:
                v = fn(*a)
                r = self.ent[key] = (v, self.cur)
            finally:
                self.cur = old
            self.keep.append(a[0])
        self.cur[1].append(key)
        return r[0]

    def fresh(self, lo, hi):
        self.n += 1
        v = z3.Int('q%d' % self.n)
        self.side.append(v >= lo)
        self.side.append(v <= hi)
        return v

    def func(self, d):
        f = self.fn.get(d.name())
        if f is None:
            dom = []
            for i in range(d.arity()):
                s = d.domain(i)
                dom.append(z3.IntSort() if s.kind() == z3.Z3_BV_SORT else s)
            rng = z3.IntSort() if d.range().kind() == z3.Z3_BV_SORT else d.range()
            f = self.fn[d.name()] = z3.Function(d.name(), *dom, rng) if dom else z3.Const(d.name(), rng)
        return f

    # -- integers: (term, lo, hi)
    def t(self, e):
        return self.memo(e.get_id(), self.t_, e)

    def wrap(self, s, lo, hi, w):
        """s mod 2^w for an integer term with known bounds"""
        M = 1 << w
        if lo >= 0 and hi < M:
            return s, lo, hi
        ql, qh = lo // M, hi // M
        if ql == qh:
            return s - ql * M, lo - ql * M, hi - ql * M
        q = self.fresh(ql, qh)
        r = s - M * q
        self.side.append(r >= 0)
        self.side.append(r < M)
        return r, 0, M - 1

    def lin(self, e, w, c, acc, k0):
        """accumulate c * e into acc {id: [coef, term]}, constants into k0[0]"""
        if z3.is_bv_value(e):
            k0[0] += c * e.as_long()
            return
        k = e.decl().kind()
        if k == z3.Z3_OP_BADD:
            for x in e.children():
                self.lin(x, w, c, acc, k0)
            return
        if k == z3.Z3_OP_BSUB:
            ch = e.children()
            self.lin(ch[0], w, c, acc, k0)
            for x in ch[1:]:
                self.lin(x, w, -c, acc, k0)
            return
        if k == z3.Z3_OP_BNEG:
            self.lin(e.arg(0), w, -c, acc, k0)
            return
        if k == z3.Z3_OP_BMUL and e.num_args() == 2:
            a, b = e.arg(0), e.arg(1)
            if z3.is_bv_value(b):
                a, b = b, a
            if z3.is_bv_value(a):
                self.lin(b, w, c * a.as_long(), acc, k0)
                return
        i = e.get_id()
        if i in acc:
            acc[i][0] += c
        else:
            acc[i] = [c, e]

    def t_(self, e):
        w = e.size()
        M = 1 << w
        if z3.is_bv_value(e):
            v = e.as_long()
            return z3.IntVal(v), v, v
        d = e.decl()
        k = d.kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            f = self.func(d)
            r = f(*[self.any(x) for x in e.children()]) if d.arity() else f
            self.side.append(r >= 0)
            self.side.append(r < M)
            return r, 0, M - 1
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BMUL):
            acc, k0 = {}, [0]
            self.lin(e, w, 1, acc, k0)
            if len(acc) == 1 and list(acc.values())[0][1].get_id() == e.get_id():
                # product of two variables
                self.exact = False
                return self.fresh(0, M - 1), 0, M - 1
            s = z3.IntVal(sg(k0[0] % M, w))
            lo = hi = sg(k0[0] % M, w)
            terms = []
            for c, x in acc.values():
                c = sg(c % M, w)
                if c == 0:
                    continue
                v, l, h = self.t(x)
                terms.append(c * v)
                lo += c * l if c > 0 else c * h
                hi += c * h if c > 0 else c * l
            if terms:
                s = z3.Sum(*terms, s) if len(terms) > 1 or True else terms[0]
            return self.wrap(s, lo, hi, w)
        if k == z3.Z3_OP_CONCAT:
            ch = e.children()
            s, lo, hi = self.t(ch[0])
            for x in ch[1:]:
                m = 1 << x.size()
                v, l, h = self.t(x)
                s, lo, hi = s * m + v, lo * m + l, hi * m + h
            return s, lo, hi
        if k == z3.Z3_OP_ZERO_EXT:
            return self.t(e.arg(0))
        if k == z3.Z3_OP_SIGN_EXT:
            x = e.arg(0)
            v, l, h = self.t(x)
            W = x.size()
            if h < 1 << (W - 1):
                return v, l, h
            return z3.If(v >= (1 << (W - 1)), v + (M - (1 << W)), v), 0, M - 1
        if k == z3.Z3_OP_EXTRACT:
            hi_, lo_ = d.params()
            return self.extract(e.arg(0), hi_, lo_)
        if k == z3.Z3_OP_ITE:
            c = self.b(e.arg(0))
            a, la, ha = self.t(e.arg(1))
            b, lb, hb = self.t(e.arg(2))
            return z3.If(c, a, b), min(la, lb), max(ha, hb)
        if k in (z3.Z3_OP_BLSHR, z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(e.arg(1)):
            c = e.arg(1).as_long()
            v, l, h = self.t(e.arg(0))
            if k == z3.Z3_OP_BLSHR:
                if c >= w:
                    return z3.IntVal(0), 0, 0
                c = 1 << c
            if c == 0:
                self.exact = False
                return self.fresh(0, M - 1), 0, M - 1
            q = self.fresh(l // c, h // c)
            r = v - c * q
            self.side.append(r >= 0)
            self.side.append(r < c)
            if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
                return r, 0, c - 1
            return q, l // c, h // c
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)):
            c = e.arg(1).as_long()
            if c >= w:
                return z3.IntVal(0), 0, 0
            v, l, h = self.t(e.arg(0))
            return self.wrap(v * (1 << c), l << c, h << c, w)
        if k == z3.Z3_OP_BNOT:
            v, l, h = self.t(e.arg(0))
            return (M - 1) - v, M - 1 - h, M - 1 - l
        if k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
            ch = list(e.children())
            cs = [x for x in ch if z3.is_bv_value(x)]
            vs = [x for x in ch if not z3.is_bv_value(x)]
            if len(vs) == 1 and len(cs) == 1:
                c = cs[0].as_long()
                a = self.mask(vs[0], c)
                v, l, h = self.t(vs[0])
                if k == z3.Z3_OP_BAND:
                    return a, 0, min(c, h)
                if k == z3.Z3_OP_BOR:
                    return v + c - a, 0, M - 1
                return v + c - 2 * a, 0, M - 1
            self.exact = False
            r = self.fresh(0, M - 1)
            if len(ch) == 2:
                (a, la, ha), (b, lb, hb) = self.t(ch[0]), self.t(ch[1])
                if k == z3.Z3_OP_BAND:
                    self.side += [r <= a, r <= b]
                elif k == z3.Z3_OP_BOR:
                    self.side += [r >= a, r >= b, r <= a + b]
                else:
                    self.side += [r <= a + b]
            return r, 0, M - 1
        self.exact = False
        return self.fresh(0, M - 1), 0, M - 1

    def mask(self, x, c):
        """x & c for a constant c: sum over the runs of ones"""
        s = None
        i = 0
        while c >> i:
            if c >> i & 1:
                j = i
                while c >> (j + 1) & 1:
                    j += 1
                v, l, h = self.extract(x, min(j, x.size() - 1), i)
                p = v * (1 << i)
                s = p if s is None else s + p
                i = j + 1
            else:
                i += 1
        return s if s is not None else z3.IntVal(0)

    def extract(self, x, hi, lo):
        return self.memo((x.get_id(), hi, lo), self.extract_, x, hi, lo)

    def extract_(self, x, hi, lo):
        v, l, h = self.t(x)
        w = hi - lo + 1
        if lo:
            c = 1 << lo
            if h < c:
                return z3.IntVal(0), 0, 0
            q = self.fresh(l // c, h // c)
            rr = v - c * q
            self.side.append(rr >= 0)
            self.side.append(rr < c)
            v, l, h = q, l // c, h // c
        return self.wrap(v, l, h, w)

    def any(self, e):
        return self.t(e)[0] if e.sort().kind() == z3.Z3_BV_SORT else self.b(e)

    def sgn(self, e):
        v, l, h = self.t(e)
        w = e.size()
        if h < 1 << (w - 1):
            return v
        return z3.If(v >= 1 << (w - 1), v - (1 << w), v)

    def b(self, e):
        return self.memo(e.get_id(), self.b_, e)

    def b_(self, e):
        d = e.decl()
        k = d.kind()
        ch = e.children()
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return e
        if k == z3.Z3_OP_AND:
            return z3.And(*[self.b(x) for x in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or(*[self.b(x) for x in ch])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.b(ch[0]))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.b(ch[0]), self.b(ch[1]))
        if k == z3.Z3_OP_XOR:
            return z3.Xor(self.b(ch[0]), self.b(ch[1]))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            if ch[0].sort().kind() == z3.Z3_BV_SORT:
                r = self.t(ch[0])[0] == self.t(ch[1])[0]
            else:
                r = self.b(ch[0]) == self.b(ch[1])
            return r if k == z3.Z3_OP_EQ else z3.Not(r)
        if k == z3.Z3_OP_ITE:
            return z3.If(self.b(ch[0]), self.b(ch[1]), self.b(ch[2]))
        if k == z3.Z3_OP_ULEQ:
            return self.t(ch[0])[0] <= self.t(ch[1])[0]
        if k == z3.Z3_OP_ULT:
            return self.t(ch[0])[0] < self.t(ch[1])[0]
        if k == z3.Z3_OP_UGEQ:
            return self.t(ch[0])[0] >= self.t(ch[1])[0]
        if k == z3.Z3_OP_UGT:
            return self.t(ch[0])[0] > self.t(ch[1])[0]
        if k == z3.Z3_OP_SLEQ:
            return self.sgn(ch[0]) <= self.sgn(ch[1])
        if k == z3.Z3_OP_SLT:
            return self.sgn(ch[0]) < self.sgn(ch[1])
        if k == z3.Z3_OP_SGEQ:
            return self.sgn(ch[0]) >= self.sgn(ch[1])
        if k == z3.Z3_OP_SGT:
            return self.sgn(ch[0]) > self.sgn(ch[1])
        if k == z3.Z3_OP_UNINTERPRETED:
            f = self.func(d)
            return f(*[self.any(x) for x in ch]) if d.arity() else f
        self.exact = False
        self.n += 1
        return z3.Bool('p%d' % self.n)


_B = []


def translate(assertions):
    if not _B or len(_B[0].ent) > 400000:
        _B[:] = [Blaster()]
    B = _B[0]
    B.cur = [[], [], True]
    out = [B.b(a) for a in assertions]
    side, exact = list(B.cur[0]), B.cur[2]
    seen = set()
    todo = list(B.cur[1])
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        e = B.ent[k][1]
        side += e[0]
        todo += e[1]
        exact = exact and e[2]
    return out, side, exact


def check(assertions, timeout, configs=2):
    """-> 'unsat' | 'sat' | 'unknown'"""
    out, side, exact = translate(assertions)
    for cfg in ({'auto_config': False}, {'arith.solver': 2}, {'arith.solver': 5})[:configs]:
        s = z3.SimpleSolver() if 'auto_config' in cfg else z3.Solver()
        for k, v in cfg.items():
            s.set(k, v)
        s.set('timeout', timeout)
        s.add(*out)
        s.add(*side)
        r = s.check()
        if r == z3.unsat:
            return 'unsat'
        if r == z3.sat:
            return 'sat' if exact else 'unknown'
    return 'unknown'

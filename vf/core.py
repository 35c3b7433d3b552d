"""Symbolic executor / verification condition generator over the LLVM IR of the real sources."""
import os, time, heapq, itertools
import z3
from .smt import *
from . import smt
from . import ir


class Unsupported(Exception):
    """A construct outside the generator's reach: the target is undecided (never a violation)."""


class PathEnd(Exception):
    """The current path ends (infeasible, or an obligation failed outright)."""


# ---- values -----------------------------------------------------------------------------------------------
class Obj:
    _n = itertools.count(1)

    def __init__(self, name, kind, size, stride=1, **meta):
        self.id = next(Obj._n)
        self.name = name
        self.kind = kind          # null stack heap global const func ext jmp
        self.size = size          # int or BV64
        self.stride = stride
        self.meta = meta

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.name)


NULLOBJ = Obj('null', 'null', 0)


class Ptr:
    __slots__ = ('b', 'i', 'off')

    def __init__(self, b, off=0, i=None):
        self.b = b
        self.i = i
        self.off = off     # Python int (signed) or BV64

    def __repr__(self):
        return "&%s%s+%s" % (getattr(self.b, 'name', self.b), '' if self.i is None else '[%s]' % self.i, self.off)


NULL = Ptr(NULLOBJ, 0)


class Poison:
    def __init__(self, why='uninitialised'):
        self.why = why

    def __repr__(self):
        return '<%s>' % self.why


POISON = Poison()


class Alt:
    """pointer cell with several possible values [(cond, Ptr)], mutually exclusive and exhaustive"""
    def __init__(self, alts):
        self.alts = alts


def ite_leaves(t, limit=128):
    """[(condition, constant)] of a term that takes one of a few known values (the last condition is what remains), or None"""
    if isinstance(t, int):
        return [(True, t)]
    k = t.decl().kind()
    if k == z3.Z3_OP_BNUM:
        return [(True, t.as_long())]
    if k == z3.Z3_OP_ITE:
        a, b = ite_leaves(t.arg(1), limit), ite_leaves(t.arg(2), limit)
        if not a or not b or len(a) + len(b) > limit:
            return None
        g = t.arg(0)
        return [(And(g, x), v) for (x, v) in a] + b
    if t.num_args() == 0 or k == z3.Z3_OP_UNINTERPRETED:
        return None
    sub = None
    for i in range(t.num_args()):
        x = t.arg(i)
        if z3.is_bv_value(x):
            continue
        l = ite_leaves(x, limit) if z3.is_bv(x) and sub is None else None
        if not l:
            return None
        sub = (i, l)
    if sub is None:
        return None
    i, l = sub
    out = []
    for (g, v) in l:
        args = [t.arg(j) if j != i else z3.BitVecVal(v, t.arg(i).size()) for j in range(t.num_args())]
        r = z3.simplify(t.decl()(*args))
        if not z3.is_bv_value(r):
            return None
        out.append((g, r.as_long()))
    return out


class NeedSplit(Exception):
    """the executed instruction needs register `reg` split into the given alternatives"""
    def __init__(self, ptr, alts):
        self.ptr = ptr
        self.alts = alts


class Out:
    """sequence of guarded output events"""
    def __init__(self, ev=()):
        self.ev = tuple(ev)

    def add(self, e):
        return Out(self.ev + ((True, e),))

    def merge(self, o, ca, cb):
        n = 0
        while n < len(self.ev) and n < len(o.ev) and self.ev[n] is o.ev[n]:
            n += 1
        return Out(self.ev[:n] + tuple((And(ca, c), e) for c, e in self.ev[n:]) + tuple((And(cb, c), e) for c, e in o.ev[n:]))


class Agg:
    def __init__(self, vals):
        self.vals = list(vals)


def is_int(v):
    return isinstance(v, (int, bool)) or isinstance(v, z3.ExprRef)


def off64(o):
    return mask(o, 64) if isinstance(o, int) else o


def padd(p, d):
    """pointer + byte offset (int or BV64)"""
    if isinstance(p.off, int) and isinstance(d, int):
        return Ptr(p.b, sx(mask(p.off + d, 64), 64), p.i)
    r = Add(off64(p.off), off64(d), 64)
    if isinstance(r, int):
        r = sx(r, 64)
    return Ptr(p.b, r, p.i)


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.b is b.b and same_val(a.i, b.i) and same_val(a.off, b.off)
    if isinstance(a, (int, bool)) or isinstance(b, (int, bool)):
        return type(a) == type(b) and a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        return len(a.vals) == len(b.vals) and all(same_val(x, y) for x, y in zip(a.vals, b.vals))
    return False


# ---- stores: functional maps with a base function and update layers ------------------------------------------
class Store:
    __slots__ = ('base', 'layers', 'w', 'name', 'ks')

    def __init__(self, base, w, name='', layers=(), ks=(64,)):
        self.base = base
        self.ks = ks
        self.w = w
        self.layers = layers
        self.name = name

    def read(self, *k):
        todo = []
        r = None
        for (m, v) in reversed(self.layers):
            c = m(*k)
            if not isinstance(c, bool):
                c = S(c)
            if c is False:
                continue
            if c is True:
                r = v(*k)
                break
            todo.append((c, v))
        if r is None:
            r = self.base(*k)
        for (c, v) in reversed(todo):
            r = If(c, v(*k), r, self.w if self.w > 1 else None)
        return r

    def layer(self, m, v):
        return Store(self.base, self.w, self.name, self.layers + ((m, v),), self.ks)

    def point(self, keys, val):
        def m(*k):
            return And(*[Eq(a, b) for a, b in zip(k, keys)])
        if len(keys) == 1:
            m.span = (keys[0], 1, val)
        return self.layer(m, lambda *k: val)

    def same(self, o):
        return self.base is o.base and self.layers is o.layers or \
            (self.base is o.base and len(self.layers) == len(o.layers) and all(a is b for a, b in zip(self.layers, o.layers)))


def uf_store(name, w, *ks):
    """Store with an uninterpreted base function; ks = key widths"""
    f = z3.Function(name, *([z3.BitVecSort(k) for k in ks] + [z3.BitVecSort(w)]))
    return Store(lambda *a: f(*[bv(x, k) for x, k in zip(a, ks)]), w, name, (), ks)


def const_store(v, w, name='', ks=(64,)):
    return Store(lambda *a: v, w, name, (), ks)


class PStore:
    """pointer valued map idx -> Ptr: base loader gives alternatives [(cond, Ptr)], updates are point updates"""
    __slots__ = ('base', 'ups', 'name')

    def __init__(self, base, name='', ups=()):
        self.base = base
        self.ups = ups
        self.name = name

    def alts(self, ex, st, idx):
        out = []
        c = True
        for (i0, v) in reversed(self.ups):
            e = ex.decide(st, Eq(idx, i0))
            if e is True:
                out.append((c, v))
                return out
            if e is False:
                continue
            out.append((And(c, e), v))
            c = And(c, Not(e))
        for (cc, v) in self.base(ex, st, idx):
            out.append((And(c, cc), v))
        return out

    def set(self, idx, v):
        return PStore(self.base, self.name, self.ups + ((idx, v),))

    def same(self, o):
        return self.base is o.base and len(self.ups) == len(o.ups) and all(a is b for a, b in zip(self.ups, o.ups))


class Content:
    """contents of a concrete object: exact cells over a byte background (None = uninitialised); strided objects keep
    one store per field, keyed by the element index"""
    __slots__ = ('cells', 'bg', 'flds')

    def __init__(self, cells=None, bg=None, flds=None):
        self.cells = cells if cells is not None else {}
        self.bg = bg
        self.flds = flds

    def copy(self):
        return Content(dict(self.cells), self.bg, dict(self.flds) if self.flds is not None else None)


class Fam:
    """family of symbolic objects indexed by a BV32 term"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<fam %s>' % self.name

    def load(self, ex, st, p, n, isptr):
        raise Unsupported('load from family ' + self.name)

    def store(self, ex, st, p, n, v):
        raise Unsupported('store to family ' + self.name)

    def free(self, ex, st, p):
        raise Unsupported('free of family ' + self.name)

    def size(self, ex, st, i):
        raise Unsupported('size of family ' + self.name)

    def alive(self, ex, st, i):
        return True

    def nonnull(self, ex, st, i):
        return True


# ---- state ------------------------------------------------------------------------------------------------
class Frame:
    __slots__ = ('id', 'f', 'mod', 'regs', 'blk', 'idx', 'allocas', 'ret', 'prev', 'allocamap', 'va')
    _n = itertools.count(1)

    def copy(self):
        c = Frame.__new__(Frame)
        c.id = self.id
        c.f = self.f
        c.mod = self.mod
        c.regs = dict(self.regs)
        c.blk = self.blk
        c.idx = self.idx
        c.allocas = self.allocas
        c.ret = self.ret
        c.prev = self.prev
        c.allocamap = self.allocamap
        c.va = self.va
        return c


def tkey(t):
    if isinstance(t, tuple):
        return tuple(tkey(x) for x in t)
    return t if isinstance(t, int) else ('e', t.get_id())


class Fact:
    """forall t in the terms of `tag`: fn(t)"""
    def __init__(self, tag, fn, name=''):
        self.tag = tag
        self.fn = fn
        self.name = name
        self.cache = {}

    def inst(self, t):
        k = tkey(t)
        r = self.cache.get(k)
        if r is None:
            r = (self.fn(t), t)     # keep t alive so that its id stays unique
            self.cache[k] = r
        return r[0]


class State:
    def __init__(self):
        self.frames = []
        self.pc = []
        self.mem = {}
        self.stores = {}
        self.ghost = {}
        self.terms = {}
        self.facts = []
        self.jumps = {}
        self.edge = None
        self.done = None
        self.trace = ()
        self.loopdepth = ()

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.stores = dict(self.stores)
        s.ghost = dict(self.ghost)
        s.terms = {k: dict(v) for k, v in self.terms.items()}
        s.facts = list(self.facts)
        s.jumps = dict(self.jumps)
        s.edge = self.edge
        s.done = self.done
        s.trace = self.trace
        return s

    @property
    def fr(self):
        return self.frames[-1]

    def term(self, tag, t):
        d = self.terms.setdefault(tag, {})
        k = tkey(t)
        if k not in d:
            d[k] = t

    def term2(self, tag, t):
        """tuple valued instantiation term"""
        d = self.terms.setdefault(tag, {})
        d.setdefault(tkey(t), t)

    def assume(self, c):
        c = S(c) if not isinstance(c, bool) else c
        if c is True:
            return
        if c is False:
            raise PathEnd('assumed false')
        if z3.is_and(c):
            for x in c.children():
                self.pc.append(x)
        else:
            self.pc.append(c)

    def assertions(self, extra=()):
        """path condition plus ground instances of the facts"""
        out = list(self.pc)
        terms = {k: dict(v) for k, v in self.terms.items()}
        for (tag, t) in extra:
            terms.setdefault(tag, {})[tkey(t)] = t
        for f in self.facts:
            for t in list(terms.get(f.tag, {}).values()):
                e = f.inst(t)
                if e is True:
                    continue
                out.append(e)
        return out

    # -- raw memory helpers for specs (concrete objects)
    def cell(self, obj, off):
        c = self.mem[obj].cells.get(off)
        return None if c is None else c[1]

    def setcell(self, obj, off, n, v):
        c = self.mem[obj].copy()
        c.cells[off] = (n, v)
        self.mem[obj] = c


class JumpRec:
    __slots__ = ('fid', 'blk', 'idx', 'res', 'snap')


class Ob:
    __slots__ = ('name', 'kind', 'props', 'status', 'time', 'backend', 'model', 'where')


OUTER = 'outer'


class Engine:
    def __init__(self, mods, target='?', contracts=None, safety=(), verbose=False):
        self.mods = mods                   # name -> ir.Module
        self.target = target
        self.contracts = contracts or {}   # function name -> handler(ex, st, args, ins) -> [(st, val)]
        self.safety = tuple(safety)        # property ids charged with memory safety obligations
        self.obs = []
        self.silent = 0
        self.verbose = verbose
        self.globals = {}                  # name -> Obj
        self.funcobjs = {}
        self.funcs = {}                    # function name -> (module, Func)
        self.seen_funcs = set()
        self.assumed = set()
        self.loops_done = []
        self.libc = {}
        self.hooks = {}                    # event hooks for specs
        self.qcache = {}
        self.nstates = 0
        self.deadline = None
        self.loopspecs = []
        self.outer_handler = None
        self.pool = {}                     # candidate relation terms by width
        self.unreach = []
        from .loops import Loops
        self.loops = Loops(self)
        self.cands = []                    # candidate invariants: fn(ex, st, K) -> condition or None
        self.summarizers = []
        self.intforms = []              # integer locations as functions of the iteration number, proposed by a spec
        self.header_hooks = []          # fn(ex, state, K): terms a spec wants registered at every loop head
        self.key_hooks = []             # fn(ex, state, loc, keys, K): the same for the keys of a store comparison
        for m in mods.values():
            for n, f in m.funcs.items():
                if 'internal' in f.linkage:
                    self.funcs[(m.name, n)] = (m, f)
                    self.funcs.setdefault(n, (m, f))
                else:
                    self.funcs[n] = (m, f)

    # ---- solver access ----
    def q(self, st, cond, extra=(), timeout=None, fallback=True):
        """is `cond` consistent with the state? -> 'sat'/'unsat'/'unknown', model"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the target exhausted')
        c = S(cond) if not isinstance(cond, bool) else cond
        if c is False:
            return 'unsat', None, 'syntactic'
        asr = st.assertions(extra)
        if c is not True:
            asr.append(c)
        key = tuple(sorted(set(a.get_id() for a in asr if not isinstance(a, bool))))
        if any(a is False for a in asr):
            return 'unsat', None, 'syntactic'
        r = self.qcache.get(key)
        if r is not None and (r[0][0] != 'unknown' or r[2] or not fallback):
            return r[0]
        res = check(asr, timeout, fallback)
        self.qcache[key] = (res, asr, fallback)
        return res

    def feasible(self, st, cond=True):
        if cond is False:
            return False
        return self.q(st, cond, fallback=False)[0] != 'unsat'

    def valid(self, st, cond, extra=()):
        if cond is True:
            return True
        if cond is False:
            return not self.feasible(st)
        return self.q(st, Not(cond), extra)[0] == 'unsat'

    def decide(self, st, c):
        """True/False when the state decides c, else c"""
        c = S(c) if not isinstance(c, bool) else c
        if isinstance(c, bool):
            return c
        if not self.feasible(st, c):
            return False
        if not self.feasible(st, Not(c)):
            return True
        return c

    def where(self, st):
        if not st.frames:
            return self.target
        fr = st.fr
        blk = fr.f.blocks.get(fr.blk)
        ln = None
        if blk and fr.idx < len(blk.ins):
            ln = fr.mod.line(blk.ins[fr.idx].dbg)
        return "%s:%s" % (fr.f.name, ln if ln else fr.blk)

    def oblige(self, st, cond, kind, props=None, extra=(), name=None):
        """Prove cond in st.  The obligation is recorded; afterwards cond is assumed."""
        props = tuple(self.safety if props is None else props)
        if not self.silent:
            o = Ob()
            o.kind = kind
            o.props = props
            o.where = self.where(st)
            o.name = "%s/%s/%s" % (self.target, o.where, kind)
            o.model = None
            t = time.time()
            c = S(cond) if not isinstance(cond, bool) else cond
            if c is True:
                o.status = 'proved'
                o.backend = 'syntactic'
            else:
                r, m, be = self.q(st, Not(c), extra)
                if r == 'unknown':
                    r, m, be = self.q2(st, Not(c), extra)
                o.backend = be
                if r == 'unsat':
                    o.status = 'proved'
                elif r == 'sat':
                    o.status = 'failed'
                    o.model = self.show_model(st, m, c)
                else:
                    o.status = 'unknown'
                if self.verbose and o.status != 'proved':
                    print('  OB', o.status, o.name, str(c)[:300], flush=True)
            o.time = time.time() - t
            self.obs.append(o)
            if c is False:
                raise PathEnd('obligation failed: ' + kind)
            st.assume(c)
            if o.status != 'proved' and not self.feasible(st):
                raise PathEnd('obligation failed: ' + kind)
        else:
            c = S(cond) if not isinstance(cond, bool) else cond
            if c is False:
                raise PathEnd('silent')
            st.assume(c)

    def q2(self, st, cond, extra):
        return check(st.assertions(extra) + [cond], smt.TIMEOUT_MS * 3)

    def show_model(self, st, m, c):
        if m is None:
            return None
        out = []
        try:
            for d in m.decls():
                s = str(m[d])
                if len(s) < 200:
                    out.append('%s = %s' % (d.name(), s))
        except Exception:
            pass
        return 'violated: %s\n  %s' % (str(c)[:1500], '\n  '.join(sorted(out)[:120]))

    # ---- globals ----
    def gobj(self, mod, name):
        m = self.mods[mod] if isinstance(mod, str) else mod
        g = m.globals.get(name)
        key = (m.name, name) if g is not None and g['internal'] else name
        o = self.globals.get(key)
        if o is not None:
            return o
        dm, dg = m, g
        if g is None or g['external'] or g['init'] is None:
            for mm in self.mods.values():
                g2 = mm.globals.get(name)
                if g2 is not None and not g2['external'] and not g2['internal']:
                    dm, dg = mm, g2
        size = dm.size(dg['ty']) if dg is not None else 0
        ext = dg is None or dg['external']
        o = Obj(name, 'const' if dg is not None and dg['const'] else 'global', size, mod=dm, g=dg, ext=ext, key=key)
        self.globals[key] = o
        return o

    def func_ptr(self, name):
        o = self.funcobjs.get(name)
        if o is None:
            o = self.funcobjs[name] = Obj(name, 'func', 1)
        return Ptr(o, 0)

    def init_content(self, o):
        """initial contents of a global object: initialiser for constants, arbitrary for variables unless a spec set it"""
        c = o.meta.get('ic')
        if c is None:
            c = o.meta['ic'] = self.init_content_(o)
        return c

    def init_content_(self, o):
        g = o.meta.get('g')
        if o.kind == 'const' or o.meta.get('use_init') or (g is not None and not o.meta['ext'] and o.name in self.use_init):
            cells = {}
            self.lay(o.meta['mod'], g['ty'], g['init'], 0, cells)
            return self.compact(cells, o)
        return Content({}, uf_store('glob_%s' % o.name, 8, 64))

    def compact(self, cells, o):
        if len(cells) > 64 and all(n == 1 for (n, v) in cells.values()):
            data = [0] * o.size
            for off, (n, v) in cells.items():
                data[off] = v
            f = []

            def base(k, data=data):
                if isinstance(k, int):
                    return data[k] if 0 <= k < len(data) else 0
                if not f:
                    f.append(self.table(o, data))
                return f[0](k)
            return Content({}, Store(base, 8, o.name))
        return Content(cells, None)

    def table(self, o, data):
        fn = z3.Function('tab_%s_%d' % (o.name, o.id), z3.BitVecSort(64), z3.BitVecSort(8))

        def rd(k):
            # small tables are expanded, others are given by their axioms on demand
            r = bv(data[-1], 8)
            runs = []
            for i, d in enumerate(data):
                if runs and runs[-1][1] == d:
                    continue
                runs.append((i, d))
            r = bv(runs[0][1], 8)
            for (i, d) in runs[1:]:
                r = z3.If(z3.UGE(k, bv(i, 64)), bv(d, 8), r)
            return r
        return rd

    def lay(self, mod, ty, init, off, cells):
        t = mod.resolve(ty)
        k = init[0]
        if k == 'zero' or k == 'undef':
            n = mod.size(t)
            if t.k == 'struct':
                for i, f in enumerate(t.fields):
                    self.lay(mod, f, init, off + mod.field_off(t, i), cells)
            elif t.k == 'arr':
                es = mod.size(t.el)
                for i in range(t.n):
                    self.lay(mod, t.el, init, off + i * es, cells)
            elif t.k == 'ptr':
                cells[off] = (8, NULL)
            else:
                cells[off] = (n, 0)
            return
        if k == 'bytes':
            for i, b in enumerate(init[1]):
                cells[off + i] = (1, b)
            return
        if k == 'agg':
            for i, (et, ev) in enumerate(init[1]):
                eo = off + (mod.field_off(t, i) if t.k == 'struct' else i * mod.size(t.el))
                self.lay(mod, et, ev, eo, cells)
            return
        v = self.const(mod, t, init)
        cells[off] = (mod.size(t), v)

    def const(self, mod, ty, v):
        k = v[0]
        if k == 'int':
            t = mod.resolve(ty)
            if t.w == 1:
                return bool(v[1])
            return mask(v[1], t.w)
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.glob_ptr(mod, v[1])
        if k == 'undef':
            return POISON
        if k == 'zero':
            t = mod.resolve(ty)
            if t.k == 'ptr':
                return NULL
            if t.k == 'struct':
                return Agg([self.const(mod, f, v) for f in t.fields])
            return 0
        if k == 'cgep':
            p = self.const(mod, v[2][0][0], v[2][0][1])
            return self.gep(mod, v[1], p, [(t, self.const(mod, t, x)) for t, x in v[2][1:]])
        if k == 'ccast':
            a = self.const(mod, v[2][0], v[2][1])
            return self.cast(None, mod, v[1], v[2][0], a, v[3])
        raise Unsupported('constant %r' % (v,))

    def glob_ptr(self, mod, name):
        if name in mod.funcs or name in mod.decls:
            f = mod.funcs.get(name)
            if f is not None and 'internal' in f.linkage:
                o = self.funcobjs.get((mod.name, name))
                if o is None:
                    o = self.funcobjs[(mod.name, name)] = Obj(name, 'func', 1, key=(mod.name, name))
                return Ptr(o, 0)
            return self.func_ptr(name)
        return Ptr(self.gobj(mod, name), 0)

    def content(self, st, o):
        c = st.mem.get(o)
        if c is None:
            if o.kind in ('global', 'const'):
                c = self.init_content(o)
                st.mem[o] = c
                return c
            return None
        return c

    # ---- memory ----
    def access(self, st, p, n, what):
        """safety obligations for touching n bytes (int or BV64) at p; returns the content of concrete objects"""
        b = p.b
        if isinstance(b, Fam):
            self.oblige(st, b.alive(self, st, p.i), 'object alive (%s)' % what)
            sz = b.size(self, st, p.i)
            self.bounds(st, p.off, n, sz, what)
            return None
        if b.kind in ('null', 'func'):
            self.oblige(st, False, 'valid pointer (%s)' % what)
        c = self.content(st, b)
        if c is None:
            self.oblige(st, False, 'object alive (%s)' % what)
        if what == 'store' and b.kind == 'const':
            self.oblige(st, False, 'no store to a constant')
        self.bounds(st, p.off, n, b.size, what)
        return self.content(st, b)

    def bounds(self, st, off, n, size, what):
        if isinstance(off, int) and isinstance(n, int) and isinstance(size, int):
            ok = 0 <= off and off + n <= size
        else:
            o = off64(off)
            # no wrap: off <= size and n <= size - off
            ok = And(ULE(o, size, 64), ULE(n, Sub(size, o, 64), 64))
        self.oblige(st, ok, 'within bounds (%s)' % what)

    def load(self, st, p, ty, mod):
        """-> [(cond, value)]"""
        t = mod.resolve(ty)
        if t.k == 'struct':
            vals = []
            for i, f in enumerate(t.fields):
                a = self.load(st, padd(p, mod.field_off(t, i)), f, mod)
                if len(a) != 1:
                    raise Unsupported('aggregate load with alternatives')
                vals.append(a[0][1])
            return [(True, Agg(vals))]
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        n = mod.size(t)
        isptr = t.k == 'ptr'
        c = self.access(st, p, n, 'load')
        if c is None:
            return p.b.load(self, st, p, n, isptr)
        v = self.rd(st, p.b, c, p.off, n, isptr)
        if isinstance(v, Alt):
            return list(v.alts)
        if t.k == 'int' and t.w == 1 and is_int(v) and not isinstance(v, bool) and not z3.is_bool(v):
            v = Eq(v, 1) if isinstance(v, int) else S(z3.Extract(0, 0, v) == 1)
        return [(True, v)]

    def rd(self, st, obj, c, off, n, isptr):
        if c.flds is not None:
            return self.rd_strided(st, obj, c, off, n, isptr)
        if isinstance(off, int):
            e = c.cells.get(off)
            if e is not None and e[0] == n:
                return self.as_kind(e[1], isptr, n)
            # bytes
            if not isptr:
                over = False
                for o in range(off - 8, off + n):
                    e = c.cells.get(o)
                    if e is not None and o + e[0] > off:
                        over = True
                        break
                if not over:
                    if c.bg is None:
                        return POISON
                    return concat_bytes([c.bg.read(off + i) for i in range(n)])
            bs = [self.rd_byte(c, off + i) for i in range(n)]
            if any(isinstance(b, Poison) for b in bs):
                return POISON
            if any(isinstance(b, Ptr) for b in bs):
                raise Unsupported('partial load of a pointer')
            v = concat_bytes(bs)
            return self.as_kind(v, isptr, n)
        # symbolic offset
        if isptr or self.has_ptrs(c):
            vs = not isptr and ite_leaves(off)
            if vs:
                # one of a few known offsets
                vs = [(g, self.rd(st, obj, c, o, n, isptr) if isinstance(obj.size, int) and 0 <= o <= obj.size - n else POISON) for (g, o) in vs]
                if all(is_int(v) for (g, v) in vs):
                    out = vs[-1][1]
                    for (g, v) in reversed(vs[:-1]):
                        out = If(g, v, out, 8 * n)
                    return out
            self.split(obj, c, off, n)
        c = self.flush(st, obj)
        bs = [c.bg.read(Add(off, i, 64)) for i in range(n)]
        return concat_bytes(bs)

    def has_ptrs(self, c):
        return any(isinstance(v, (Ptr, Alt)) for (n, v) in c.cells.values())

    def split(self, obj, c, off, n):
        """case split a symbolic offset over the cells of an object that holds pointers"""
        offs = sorted(o for o, (m, v) in c.cells.items() if m == n)
        if not offs or len(offs) > 64:
            raise Unsupported('access at a symbolic offset of %r' % obj)
        raise NeedSplit(obj, [(Eq(off64(off), o, 64), Ptr(obj, o)) for o in offs])

    def as_kind(self, v, isptr, n):
        if isinstance(v, Alt):
            if isptr:
                return v
            raise Unsupported('integer view of an undetermined pointer')
        if isptr and is_int(v):
            return self.int2ptr(v)
        if not isptr and isinstance(v, Ptr):
            return self.ptr2int(v)
        return v

    def rd_byte(self, c, o):
        for s in range(o, o - 9, -1):
            e = c.cells.get(s)
            if e is not None:
                if s + e[0] > o:
                    v = e[1]
                    if isinstance(v, Poison):
                        return v
                    if isinstance(v, Ptr):
                        if v.b is NULLOBJ and isinstance(v.off, int):
                            return byte_of(mask(v.off, 64), 64, o - s)
                        return v
                    if isinstance(v, bool) or z3.is_bool(v):
                        v = If(v, 1, 0, 8)
                    return byte_of(v, e[0] * 8, o - s)
                break
        if c.bg is None:
            return POISON
        return c.bg.read(o)

    def flush(self, st, obj):
        """make every cell part of the background so that symbolic offsets can be used"""
        c = self.content(st, obj)
        if not c.cells and c.bg is not None:
            return c
        bg = c.bg
        if bg is None:
            bg = uf_store(fresh_name('uninit_' + obj.name), 8, 64)
        items = sorted(c.cells.items())
        tab = {}
        for off, (n, v) in items:
            if isinstance(v, Poison):
                continue
            if isinstance(v, Ptr):
                v = self.ptr2int(v)
            if isinstance(v, bool) or z3.is_bool(v):
                v = If(v, 1, 0, 8)
            for i in range(n):
                tab[off + i] = byte_of(v, n * 8, i)
        if tab:
            lo, hi = min(tab), max(tab) + 1

            def m(k, tab=tab):
                if isinstance(k, int):
                    return k in tab
                return Or(*[Eq(k, o, 64) for o in tab]) if len(tab) != hi - lo else \
                    And(ULE(lo, k, 64), ULT(k, hi, 64))

            def v(k, tab=tab):
                if isinstance(k, int):
                    return tab[k]
                r = None
                for o in tab:
                    r = bv(tab[o], 8) if r is None else If(Eq(k, o, 64), tab[o], r, 8)
                return r
            bg = bg.layer(m, v)
        c = Content({}, bg, None)
        st.mem[obj] = c
        return c

    def rd_strided(self, st, obj, c, off, n, isptr):
        r = div_exact(off64(off), obj.stride)
        if r is None:
            raise Unsupported('offset %s of %r does not follow its stride %d' % (off, obj, obj.stride))
        idx, f = r
        s = c.flds.get(f)
        if s is not None and s.w == n * 8:
            st.term('idx', idx)
            v = s.read(idx)
            return v
        if s is None and not isinstance(off, int):
            raise Unsupported('field %d of strided %r' % (f, obj))
        # composed / partial access
        bs = []
        for i in range(n):
            bs.append(self.strided_byte(c, idx, f + i, obj.stride))
        return concat_bytes(bs)

    def strided_byte(self, c, idx, f, stride):
        if f >= stride:
            idx = Add(idx, f // stride, 64)
            f = f % stride
        for o, s in c.flds.items():
            if o <= f < o + s.w // 8:
                return byte_of(s.read(idx), s.w, f - o)
        raise Unsupported('strided byte')

    def store(self, st, p, ty, v, mod):
        t = mod.resolve(ty)
        if t.k == 'struct':
            for i, f in enumerate(t.fields):
                self.store(st, padd(p, mod.field_off(t, i)), f, v.vals[i] if isinstance(v, Agg) else POISON, mod)
            return
        if not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        n = mod.size(t)
        if t.k == 'int' and t.w == 1 and is_int(v):
            v = If(v, 1, 0, 8)
        c = self.access(st, p, n, 'store')
        h = self.hooks.get('store')
        if h:
            h(self, st, p, n, v)
        if c is None:
            p.b.store(self, st, p, n, v)
            return
        self.wr(st, p.b, p.off, n, v)

    def wr(self, st, obj, off, n, v):
        c = self.content(st, obj)
        if c.flds is not None:
            r = div_exact(off64(off), obj.stride)
            if r is None:
                raise Unsupported('offset of %r does not follow its stride' % obj)
            idx, f = r
            s = c.flds.get(f)
            if s is None or s.w != n * 8:
                raise Unsupported('partial store to strided %r' % obj)
            if isinstance(v, Ptr):
                raise Unsupported('pointer into strided object')
            st.term('idx', idx)
            c = c.copy()
            c.flds[f] = s.point((idx,), fresh(n * 8, 'poison') if isinstance(v, Poison) else v)
            st.mem[obj] = c
            return
        if isinstance(off, int):
            c = c.copy()
            self.punch(c, off, n)
            c.cells[off] = (n, v)
            st.mem[obj] = c
            return
        if isinstance(v, Ptr) or self.has_ptrs(c):
            self.split(obj, c, off, n)
        c = self.flush(st, obj).copy()
        if isinstance(v, Poison):
            v = fresh(n * 8, 'poison')
        off = off64(off)
        bg = c.bg
        def where(k):
            return And(ULE(off, k, 64), ULT(Sub(k, off, 64), n, 64)) if n > 1 else Eq(k, off, 64)
        where.span = (off, n, v)
        bg = bg.layer(where, (lambda k: v) if n == 1 else
                      (lambda k: self.pick(v, n, Sub(k, off, 64))))
        c.bg = bg
        st.mem[obj] = c

    def pick(self, v, n, d):
        """byte d (BV64 term or int) of the n-byte value v"""
        if isinstance(d, int):
            return byte_of(v, 8 * n, d)
        r = byte_of(v, 8 * n, n - 1)
        for i in range(n - 2, -1, -1):
            r = If(Eq(d, i, 64), byte_of(v, 8 * n, i), r, 8)
        return r

    def punch(self, c, off, n):
        """remove the cells overlapping [off, off+n), keeping the bytes outside"""
        for o in range(off - 8, off + n):
            e = c.cells.get(o)
            if e is None:
                continue
            if o + e[0] <= off:
                continue
            if off <= o and o + e[0] <= off + n:
                del c.cells[o]
                continue
            if isinstance(e[1], Ptr):
                raise Unsupported('partial overwrite of a pointer')
            del c.cells[o]
            for i in range(e[0]):
                if not (off <= o + i < off + n):
                    v = e[1] if isinstance(e[1], Poison) else byte_of(e[1], e[0] * 8, i)
                    c.cells[o + i] = (1, v)

    # ---- ranges ----
    def byte_reader(self, st, p):
        """function rel(BV64/int) -> byte value, for the current content at p (captured)"""
        b = p.b
        base = off64(p.off)
        if isinstance(b, Fam):
            return b.byte_reader(self, st, p)
        c = self.content(st, b)
        if c.flds is not None:
            raise Unsupported('byte view of strided object')
        if c.cells:
            if all(isinstance(v, (int, bool)) or (isinstance(v, z3.ExprRef)) for (n, v) in c.cells.values()) or True:
                cc = c

                def rd(k):
                    o = Add(base, k, 64)
                    if isinstance(o, int):
                        v = self.rd_byte(cc, sx(o, 64))
                        if isinstance(v, Poison):
                            return fresh(8, 'uninit')
                        if isinstance(v, Ptr):
                            raise Unsupported('byte of a pointer')
                        return v
                    s2 = State()
                    s2.mem[b] = cc
                    c2 = self.flush(s2, b)
                    return c2.bg.read(o)
                return rd
        bg = c.bg
        if bg is None:
            f = uf_store(fresh_name('uninit_' + b.name), 8, 64)
            return lambda k: f.read(Add(base, k, 64))
        return lambda k: bg.read(Add(base, k, 64))

    def write_range(self, st, p, n, src, what='store'):
        """bytes [p, p+n) := src(rel); n int or BV64.  Safety is checked."""
        if n == 0 and isinstance(n, int):
            return
        c = self.access_range(st, p, n, what)
        h = self.hooks.get('range')
        if h:
            h(self, st, p, n, src)
        if c is None:
            p.b.write_range(self, st, p, n, src)
            return
        if isinstance(p.off, int) and isinstance(n, int) and n <= 4096 and c.flds is None:
            c = c.copy()
            self.punch(c, p.off, n)
            for i in range(n):
                c.cells[p.off + i] = (1, src(i))
            st.mem[p.b] = c
            return
        c = self.flush(st, p.b).copy() if c.flds is None else None
        if c is None:
            raise Unsupported('byte range into strided object')
        off = off64(p.off)

        def m(k):
            d = Sub(k, off, 64)
            return And(ULE(off, k, 64), ULT(d, n, 64))
        c.bg = c.bg.layer(m, lambda k: src(Sub(k, off, 64)))
        st.mem[p.b] = c

    def write_block(self, st, p, cap, n, src, what='store'):
        """like write_range, but the bytes go to the background of the object; n <= cap, a constant.  The cells outside of
        [p, p+cap) stay cells"""
        c = self.access_range(st, p, n, what)
        if c is None or c.flds is not None or not isinstance(p.off, int):
            raise Unsupported('block written at an unknown offset')
        c = c.copy()
        bg = c.bg
        if bg is None:
            bg = uf_store(fresh_name('uninit_' + p.b.name), 8, 64)
        lo, hi = p.off, p.off + cap
        for o, (w, v) in sorted(c.cells.items()):
            if o + w <= lo or o >= hi:
                continue
            if isinstance(v, Ptr):
                v = self.ptr2int(v)
            if o < lo or o + w > hi:
                raise Unsupported('block written over a part of a cell')
            del c.cells[o]
            if isinstance(v, Poison):
                continue
            if isinstance(v, bool) or z3.is_bool(v):
                v = If(v, 1, 0, 8)
            for i in range(w):
                bg = bg.point((o + i,), byte_of(v, w * 8, i))
        off = off64(p.off)
        c.bg = bg.layer(lambda k: And(ULE(off, k, 64), ULT(Sub(k, off, 64), n, 64)), lambda k: src(Sub(k, off, 64)))
        st.mem[p.b] = c

    def access_range(self, st, p, n, what):
        """like access, but an empty range needs no valid object"""
        if isinstance(n, int):
            if n == 0:
                return None
            return self.access(st, p, n, what)
        return self.access(st, p, n, what)

    def fill_range(self, st, p, n, byte, what='store'):
        if isinstance(n, int) and n == 0:
            return
        if isinstance(p.b, Fam):
            c = self.access_range(st, p, n, what)
            p.b.fill_range(self, st, p, n, byte)
            return
        c = self.access_range(st, p, n, what)
        o = p.b
        if c.flds is not None:
            if isinstance(p.off, int) and p.off == 0 and (same_val(n, o.size)):
                c = c.copy()
                for f, s in c.flds.items():
                    v = concat_bytes([byte] * (s.w // 8))
                    c.flds[f] = const_store(v, s.w)
                st.mem[o] = c
                return
            if isinstance(p.off, int) and p.off == 0 and self.valid(st, Eq(n, o.size, 64)):
                return self.fill_range(st, p, o.size, byte, what)
            raise Unsupported('partial fill of a strided object')
        if isinstance(p.off, int) and isinstance(n, int):
            h = self.hooks.get('range')
            if h:
                h(self, st, p, n, lambda k: byte)
            c = c.copy()
            if p.off == 0 and n == o.size:
                c.cells = {}
                c.bg = const_store(byte, 8)
            else:
                self.punch(c, p.off, n)
                for i in range(n):
                    c.cells[p.off + i] = (1, byte)
            st.mem[o] = c
            return
        if isinstance(p.off, int) and p.off == 0 and (same_val(n, o.size) or self.valid(st, Eq(n, o.size, 64))):
            st.mem[o] = Content({}, const_store(byte, 8))
            return
        self.write_range(st, p, n, lambda k: byte, what)

    def copy_range(self, st, d, s, n):
        """memcpy/memmove semantics (source read before writing)"""
        if isinstance(n, int):
            if n == 0:
                return
            if isinstance(d.off, int) and isinstance(s.off, int) and not isinstance(d.b, Fam) and not isinstance(s.b, Fam):
                cs = self.access(st, s, n, 'load')
                cd = self.access(st, d, n, 'store')
                if cs.flds is None and cd.flds is None:
                    h = self.hooks.get('range')
                    if h:
                        h(self, st, d, n, self.byte_reader(st, s))
                    new = {}
                    i = 0
                    # cells fully inside are copied as they are; everything else bytewise
                    while i < n:
                        o = s.off + i
                        e = cs.cells.get(o)
                        if e is not None and i + e[0] <= n:
                            new[d.off + i] = e
                            i += e[0]
                            continue
                        b = self.rd_byte(cs, o)
                        if isinstance(b, Ptr):
                            raise Unsupported('partial copy of a pointer')
                        new[d.off + i] = (1, b)
                        i += 1
                    c = cd.copy()
                    self.punch(c, d.off, n)
                    c.cells.update(new)
                    st.mem[d.b] = c
                    return
        # strided element moves
        ssz = self.stride_of(st, s)
        dsz = self.stride_of(st, d)
        if ssz > 1 and ssz == dsz:
            rs = div_exact(off64(s.off), ssz)
            rd_ = div_exact(off64(d.off), dsz)
            rn = div_exact(off64(n), ssz)
            if rs and rd_ and rn and rs[1] == 0 and rd_[1] == 0 and rn[1] == 0:
                # an empty move may use one-past-the-end pointers
                self.access(st, s, n, 'load')
                self.access(st, d, n, 'store')
                si, di, cnt = rs[0], rd_[0], rn[0]
                st.term('idx', si)
                st.term('idx', di)
                sf = self.fields_of(st, s)
                df = self.fields_of(st, d)
                new = {}
                for f, store in df.items():
                    src = sf[f]

                    def m(k, di=di, cnt=cnt):
                        return And(ULE(di, k, 64), ULT(Sub(k, di, 64), cnt, 64))

                    def v(k, src=src, si=si, di=di):
                        return src.read(Add(Sub(k, di, 64), si, 64))
                    new[f] = store.layer(m, v)
                self.set_fields(st, d, new)
                return
        if ssz == 1 and dsz > 1 or ssz > 1 and dsz == 1:
            if isinstance(n, int) and dsz > 1:
                # struct -> array element (constant size)
                r = div_exact(off64(d.off), dsz)
                if r and r[1] == 0 and n % dsz == 0 and not isinstance(s.b, Fam):
                    self.access(st, s, n, 'load')
                    self.access(st, d, n, 'store')
                    idx = r[0]
                    df = dict(self.fields_of(st, d))
                    cs = self.content(st, s.b)
                    for e in range(n // dsz):
                        st.term('idx', Add(idx, e, 64))
                        for f, store in list(df.items()):
                            v = self.rd(st, s.b, cs, s.off + e * dsz + f if isinstance(s.off, int) else Add(s.off, e * dsz + f, 64), store.w // 8, False)
                            if isinstance(v, Poison):
                                v = fresh(store.w, 'poison')
                            df[f] = store.point((Add(idx, e, 64),), v)
                    self.set_fields(st, d, df)
                    return
            if isinstance(n, int) and ssz > 1 and isinstance(d.off, int) and not isinstance(d.b, Fam):
                r = div_exact(off64(s.off), ssz)
                if r and r[1] == 0 and n % ssz == 0:
                    self.access(st, s, n, 'load')
                    cd = self.access(st, d, n, 'store').copy()
                    self.punch(cd, d.off, n)
                    for e in range(n // ssz):
                        st.term('idx', Add(r[0], e, 64))
                        for f, store in self.fields_of(st, s).items():
                            cd.cells[d.off + e * ssz + f] = (store.w // 8, store.read(Add(r[0], e, 64)))
                    st.mem[d.b] = cd
                    return
            raise Unsupported('copy between differently strided objects')
        self.access_range(st, s, n, 'load')
        rd = self.byte_reader(st, s)
        self.write_range(st, d, n, rd)

    def stride_of(self, st, p):
        if isinstance(p.b, Fam):
            return getattr(p.b, 'stride', 1)
        return p.b.stride if p.b.kind != 'null' else 1

    def fields_of(self, st, p):
        if isinstance(p.b, Fam):
            return p.b.fields(self, st, p.i)
        return self.content(st, p.b).flds

    def set_fields(self, st, p, new):
        if isinstance(p.b, Fam):
            p.b.set_fields(self, st, p.i, new)
            return
        c = self.content(st, p.b).copy()
        c.flds = new
        st.mem[p.b] = c

    # ---- heap ----
    def malloc(self, st, size, name='heap'):
        """fresh live object of `size` bytes (uninitialised)"""
        stride = 1
        if isinstance(size, int):
            o = Obj(fresh_name(name), 'heap', size)
            st.mem[o] = Content({}, None)
            return Ptr(o, 0)
        c, d = lin(size)
        if c == 0 and d:
            import math
            g = 0
            for (co, _) in d.values():
                g = math.gcd(g, abs(sx(co, 64)))
            if g > 1:
                stride = g
        o = Obj(fresh_name(name), 'heap', size, stride)
        if stride > 1:
            w = 4 if stride % 4 == 0 else 1
            flds = {f: uf_store(fresh_name('uninit_%s_%d' % (o.name, f)), 8 * w, 64) for f in range(0, stride, w)}
            st.mem[o] = Content({}, None, flds)
        else:
            st.mem[o] = Content({}, uf_store(fresh_name('uninit_' + o.name), 8, 64))
        return Ptr(o, 0)

    def free(self, st, p, what='free'):
        if not isinstance(p, Ptr):
            raise Unsupported('free of %r' % (p,))
        if isinstance(p.b, Fam):
            self.oblige(st, Eq(off64(p.off), 0, 64), 'free of the start of a block')
            self.oblige(st, Or(Not(p.b.nonnull(self, st, p.i)), p.b.alive(self, st, p.i)), 'block freed at most once')
            p.b.free(self, st, p)
            return
        if p.b.kind == 'null':
            if isinstance(p.off, int) and p.off == 0:
                return
            self.oblige(st, Eq(off64(p.off), 0, 64), 'free of a valid block')
            return
        self.oblige(st, p.b.kind == 'heap', 'free of a heap block')
        self.oblige(st, Eq(off64(p.off), 0, 64), 'free of the start of a block')
        if p.b not in st.mem:
            self.oblige(st, False, 'block freed at most once')
        del st.mem[p.b]

    # ---- pointer/int ----
    def addr(self, o, i=None):
        f = self.__dict__.setdefault('_addr', {})
        k = (id(o), None if i is None else (i if isinstance(i, int) else i.get_id()))
        a = f.get(k)
        if a is None:
            nm = 'addr_%s' % getattr(o, 'name', '?')
            a = f[k] = (z3.BitVec(fresh_name(nm), 64), o, i)
        return a[0]

    def ptr2int(self, p):
        if p.b is NULLOBJ:
            return off64(p.off)
        return Add(self.addr(p.b, p.i), off64(p.off), 64)

    def int2ptr(self, v):
        if isinstance(v, int):
            return Ptr(NULLOBJ, sx(v, 64))
        c, d = lin(v)
        for (co, at) in d.values():
            if co == 1:
                for (a, o, i) in self.__dict__.get('_addr', {}).values():
                    if a.eq(at):
                        r = Sub(v, a, 64)
                        return Ptr(o, sx(r, 64) if isinstance(r, int) else r, i)
        return Ptr(NULLOBJ, v)

    # ---- instructions ----
    def ev(self, st, tv):
        ty, v = tv[0], tv[1]
        if v[0] == 'reg':
            fr = st.fr
            r = fr.regs.get(v[1])
            if r is None:
                raise Unsupported('register %%%s of %s undefined' % (v[1], fr.f.name))
            return r
        return self.const(st.fr.mod, ty, v)

    def need(self, st, v, what):
        """a value that must be determinate"""
        if isinstance(v, Poison):
            self.oblige(st, False, 'determinate value (%s, %s)' % (what, v.why))
        return v

    def gep(self, mod, sty, p, idx):
        """idx: [(ty, value)]"""
        if not isinstance(p, Ptr):
            raise Unsupported('gep on %r' % (p,))
        t = sty
        d = 0
        for n, (ity, iv) in enumerate(idx):
            if isinstance(iv, Ptr):
                iv = self.ptr2int(iv)
            w = ity.w
            iv64 = SX(iv, w, 64) if w < 64 else iv
            if n == 0:
                d = Add(d, Mul(iv64, mod.size(t), 64), 64)
                continue
            rt = mod.resolve(t)
            if rt.k == 'struct':
                d = Add(d, mod.field_off(rt, iv), 64)
                t = rt.fields[iv]
            else:
                d = Add(d, Mul(iv64, mod.size(rt.el), 64), 64)
                t = rt.el
        if isinstance(d, int):
            d = sx(d, 64)
        return padd(p, d)

    def cast(self, st, mod, op, fty, v, to):
        if isinstance(v, Poison):
            return v
        if op == 'ptrtoint':
            r = self.ptr2int(v) if isinstance(v, Ptr) else v
            return TR(r, 64, to.w)
        if op == 'inttoptr':
            if isinstance(v, Ptr):
                return v
            return self.int2ptr(ZX(v, fty.w, 64))
        if op == 'bitcast':
            return v
        if isinstance(v, Ptr):
            v = self.ptr2int(v)
        fw, tw = fty.w, to.w
        if op == 'zext':
            if fw == 1:
                return If(v, 1, 0, tw) if not isinstance(v, bool) else int(v)
            return ZX(v, fw, tw)
        if op == 'sext':
            if fw == 1:
                return If(v, mask(-1, tw), 0, tw)
            return SX(v, fw, tw)
        if op == 'trunc':
            if tw == 1:
                return bool(v & 1) if isinstance(v, int) else S(z3.Extract(0, 0, v) == 1)
            return TR(v, fw, tw)
        raise Unsupported('cast ' + op)

    def binop(self, st, op, a, b, w, flags=()):
        if isinstance(a, Poison) or isinstance(b, Poison):
            return POISON
        if isinstance(a, Ptr):
            a = self.ptr2int(a)
        if isinstance(b, Ptr):
            b = self.ptr2int(b)
        if w == 1:
            if op == 'xor':
                return Not(Iff(a, b)) if not (isinstance(a, bool) and isinstance(b, bool)) else a != b
            if op == 'and':
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            raise Unsupported('i1 ' + op)
        if op == 'add':
            return Add(a, b, w)
        if op == 'sub':
            return Sub(a, b, w)
        if op == 'mul':
            return Mul(a, b, w)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.oblige(st, Not(Eq(b, 0, w)), 'no division by zero')
            if isinstance(a, int) and isinstance(b, int):
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                x, y = sx(a, w), sx(b, w)
                qq = abs(x) // abs(y)
                qq = qq if (x < 0) == (y < 0) else -qq
                return mask(qq if op == 'sdiv' else x - qq * y, w)
            if isinstance(b, int) and b & (b - 1) == 0 and op == 'udiv':
                return S(z3.LShR(bv(a, w), bv(b.bit_length() - 1, w)))
            A, B = bv(a, w), bv(b, w)
            return S({'udiv': lambda: z3.UDiv(A, B), 'sdiv': lambda: A / B, 'urem': lambda: z3.URem(A, B),
                      'srem': lambda: z3.SRem(A, B)}[op]())
        if op in ('shl', 'lshr', 'ashr'):
            if isinstance(b, int) and b >= w:
                self.oblige(st, False, 'shift amount below the width')
            elif not isinstance(b, int):
                self.oblige(st, ULT(b, w, w), 'shift amount below the width')
            if isinstance(a, int) and isinstance(b, int):
                if op == 'shl':
                    return mask(a << b, w)
                if op == 'lshr':
                    return a >> b
                return mask(sx(a, w) >> b, w)
            A, B = bv(a, w), bv(b, w)
            return S(A << B if op == 'shl' else z3.LShR(A, B) if op == 'lshr' else A >> B)
        if op in ('and', 'or', 'xor'):
            if isinstance(a, int) and isinstance(b, int):
                return a & b if op == 'and' else a | b if op == 'or' else a ^ b
            if op == 'and':
                if isinstance(a, int) and a == 0 or isinstance(b, int) and b == 0:
                    return 0
            A, B = bv(a, w), bv(b, w)
            return S(A & B if op == 'and' else A | B if op == 'or' else A ^ B)
        raise Unsupported('binop ' + op)

    cur = None

    def fam_nonnull(self, p):
        return p.b.nonnull(self, self.cur, p.i)

    def ptr_eq(self, st, a, b):
        """equality of two pointer values as a condition"""
        if a.b is b.b:
            c = True
            if a.i is not None:
                c = Eq(a.i, b.i, 32)
            c = And(c, Eq(off64(a.off), off64(b.off), 64))
            if isinstance(a.b, Fam) and c is not True:
                c = Or(c, And(Not(self.fam_nonnull(a)), Not(self.fam_nonnull(b))))
            return c
        na, nb = a.b is NULLOBJ, b.b is NULLOBJ
        if na or nb:
            n, o = (a, b) if na else (b, a)
            if isinstance(n.off, int) and n.off == 0:
                if isinstance(o.b, Fam):
                    return Not(self.fam_nonnull(o))
                return False       # objects are never at address 0
            return Eq(off64(n.off), self.ptr2int(o), 64)
        return False               # distinct objects have distinct addresses

    def icmp(self, st, pred, a, b, ty):
        if isinstance(a, Poison) or isinstance(b, Poison):
            self.need(st, a, 'comparison')
            self.need(st, b, 'comparison')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr):
                a = self.int2ptr(a)
            if not isinstance(b, Ptr):
                b = self.int2ptr(b)
            if pred == 'eq':
                return self.ptr_eq(st, a, b)
            if pred == 'ne':
                return Not(self.ptr_eq(st, a, b))
            if a.b is b.b and a.b is not NULLOBJ and same_val(a.i, b.i):
                if isinstance(a.off, int) and isinstance(b.off, int):
                    x, y = a.off, b.off
                    return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred]
                a, b = off64(a.off), off64(b.off)
                # offsets are compared as signed quantities (objects are small)
                pred = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pred, pred)
            else:
                a, b = self.ptr2int(a), self.ptr2int(b)
            w = 64
        else:
            w = ty.w
        if w == 1:
            c = Iff(a, b)
            return c if pred == 'eq' else Not(c)
        if isinstance(a, int) and isinstance(b, int):
            A, B = (sx(a, w), sx(b, w)) if pred[0] == 's' else (a, b)
            return {'eq': A == B, 'ne': A != B, 'lt': A < B, 'le': A <= B, 'gt': A > B, 'ge': A >= B}[
                pred[1:] if pred not in ('eq', 'ne') else pred]
        A, B = bv(a, w), bv(b, w)
        e = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
             'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'slt': lambda: A < B, 'sle': lambda: A <= B,
             'sgt': lambda: A > B, 'sge': lambda: A >= B}[pred]()
        return S(e)

    # ---- frames, calls ----
    def push(self, st, mod, f, args, ret, va=()):
        fr = Frame()
        fr.id = next(Frame._n)
        fr.f = f
        fr.mod = mod
        fr.regs = {}
        fr.blk = f.entry
        fr.idx = 0
        fr.allocas = ()
        fr.allocamap = {}
        fr.ret = ret
        fr.prev = None
        fr.va = va
        if len(st.frames) > 60:
            raise Unsupported('call depth (recursion)')
        for (ty, at, nm), v in zip(f.params, args):
            if 'byval' in at:
                # the callee works on its own copy
                o = Obj(f.name + '.byval', 'stack', mod.size(at['byval']))
                st.mem[o] = Content({}, None)
                self.copy_range(st, Ptr(o, 0), v, o.size)
                fr.allocas = fr.allocas + (o,)
                v = Ptr(o, 0)
            fr.regs[nm] = v
        st.frames.append(fr)
        self.seen_funcs.add((mod.name, f.name))

    def pop(self, st):
        fr = st.frames.pop()
        for o in fr.allocas:
            st.mem.pop(o, None)
            st.jumps.pop(o, None)
        return fr

    def goto(self, st, target):
        fr = st.fr
        f = fr.f
        src = fr.blk
        blk = f.blocks[target]
        new = {}
        if blk.ins and blk.ins[0].op == 'phi':
            for ins in blk.ins:
                if ins.op != 'phi':
                    break
                for (tv, b) in ins.a:
                    if b == src:
                        new[ins.res] = self.ev(st, tv)
            fr.regs.update(new)
        fr.prev = src
        fr.blk = target
        fr.idx = 0
        # registers that do not cross blocks are dead now
        if len(fr.regs) > 40:
            cr = f.cross
            fr.regs = {k: v for k, v in fr.regs.items() if k in cr or k in new}
        st.edge = None
        body = f.loops.get(target)
        if body is not None:
            st.edge = ('back' if src in body else 'entry', fr.id, target)

    def longjmp(self, st, buf, val):
        if not isinstance(buf, Ptr) or isinstance(buf.b, Fam) or buf.b.kind == 'null':
            self.oblige(st, False, 'longjmp to a valid buffer')
        rec = st.jumps.get(buf.b)
        if rec is None:
            self.oblige(st, False, 'longjmp to a live setjmp frame')
            raise PathEnd('longjmp')
        if rec is OUTER:
            h = self.hooks.get('outer_throw')
            st.done = ('throw',)
            while st.frames:
                self.pop(st)
            return
        if not any(f.id == rec.fid for f in st.frames):
            self.oblige(st, False, 'longjmp to a live setjmp frame')
        while st.fr.id != rec.fid:
            self.pop(st)
        fr = st.fr
        # C11 7.13.2.1: non-volatile locals modified since setjmp are indeterminate
        for (o, cells) in rec.snap.items():
            c = st.mem.get(o)
            if c is None:
                continue
            for off, (n, v) in list(c.cells.items()):
                old = cells.get(off)
                if old is None or not same_val(old[1], v):
                    c = c.copy()
                    c.cells[off] = (n, Poison('modified between setjmp and longjmp'))
                    st.mem[o] = c
        fr.blk = rec.blk
        fr.idx = rec.idx
        fr.regs[rec.res] = val if isinstance(val, int) and val != 0 else 1
        st.edge = None

    def call_name(self, st, callee):
        """resolve callee -> list of (cond, key or None, name)"""
        if callee[0] == 'glob':
            return self.glob_ptr(st.fr.mod, callee[1]) if not callee[1].startswith('llvm.') else callee[1]
        return st.fr.regs[callee[1]]

    def do_call(self, st, ins):
        """-> list of states to continue with"""
        fr = st.fr
        callee, args = ins.a
        tgt = self.call_name(st, callee)
        vals = [self.ev(st, (a[0], a[1])) for a in args]
        return self.invoke(st, tgt, vals, ins, [a[2] for a in args])

    def invoke(self, st, tgt, vals, ins, attrs=None):
        fr = st.fr
        if isinstance(tgt, str):
            return self.intrinsic(st, tgt, vals, ins)
        if not isinstance(tgt, Ptr):
            raise Unsupported('call through %r' % (tgt,))
        if isinstance(tgt.b, Fam) or tgt.b.kind != 'func':
            if not isinstance(tgt.b, Fam) and tgt.b.kind == 'null':
                self.oblige(st, False, 'call of a valid function')
            raise Unsupported('call through %r' % (tgt,))
        key = tgt.b.meta.get('key', tgt.b.name)
        name = tgt.b.name
        h = self.contracts.get(name)
        if h is None and key in self.funcs:
            mod, f = self.funcs[key]
            np = len(f.params)
            self.push(st, mod, f, vals[:np], ins.res, tuple(vals[np:]))
            return [st]
        if h is None:
            h = self.libc.get(name)
        if h is None:
            raise Unsupported('call of external function %s' % name)
        for v in vals:
            if isinstance(v, Poison) and name not in ('__assert_fail',):
                self.need(st, v, 'argument of ' + name)
        outs = h(self, st, vals, ins)
        return self.finish_call(outs, ins)

    def finish_call(self, outs, ins):
        res = []
        for (s, v) in outs:
            if s.done is None and v is not THROWN:
                if ins.res is not None:
                    s.fr.regs[ins.res] = v if v is not None else POISON
                s.fr.idx += 1
            res.append(s)
        return res

    def throw(self, st, code, msg=None):
        """semantics of __throw(code) for contracts"""
        g = self.gcode
        c = self.content(st, g)
        old = self.rd(st, g, c, 0, 4, False)
        new = If(S(bv(code, 32) > bv(old, 32)) if not (isinstance(code, int) and isinstance(old, int)) else sx(code, 32) > sx(old, 32), code, old, 32)
        if not isinstance(new, int):
            new = S(new)
        self.wr(st, g, 0, 4, new)
        if msg != 'keep':
            st.mem[self.gmsg] = Content({}, uf_store(fresh_name('msg'), 8, 64))
        hp = self.rd(st, self.ghandlers, self.content(st, self.ghandlers), 0, 8, True)
        hc = self.access(st, hp, 16, 'load')
        bp = self.rd(st, hp.b, hc, hp.off + 8, 8, True)
        self.longjmp(st, bp, 1)
        return (st, THROWN)

    def intrinsic(self, st, name, vals, ins):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.copy_range(st, vals[0], vals[1], vals[2])
        elif name.startswith('llvm.memset'):
            self.fill_range(st, vals[0], vals[2], vals[1])
        elif name.startswith('llvm.va_start'):
            o = vals[0]
            st.ghost[('va', o.b)] = st.fr.va
            c = self.content(st, o.b).copy()
            c.cells = {0: (24, Poison('va_list'))}
            st.mem[o.b] = c
        elif name.startswith('llvm.va_end') or name.startswith('llvm.lifetime') or name.startswith('llvm.dbg'):
            pass
        elif name.startswith('llvm.debugtrap') or name.startswith('llvm.trap'):
            st.done = ('stop', 'trap')
            return [st]
        elif name.startswith('llvm.umin') or name.startswith('llvm.umax') or name.startswith('llvm.smin') or name.startswith('llvm.smax'):
            a, b = vals
            w = ins.ty.w
            c = self.icmp(st, {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[name[5:9]], a, b, ins.ty)
            st.fr.regs[ins.res] = If(c, a, b, w)
        else:
            raise Unsupported('intrinsic ' + name)
        st.fr.idx += 1
        return [st]

    def fork(self, st, alts):
        """alts: [(cond, fn(state))] -> feasible states; mutually exclusive & exhaustive conditions"""
        live = []
        for (c, fn) in alts:
            c = S(c) if not isinstance(c, bool) else c
            if c is False:
                continue
            live.append((c, fn))
        if len(live) == 1 and live[0][0] is True:
            fn = live[0][1]
            fn(st)
            return [st]
        feas = []
        for n, (c, fn) in enumerate(live):
            if c is True or self.feasible(st, c):
                feas.append((c, fn))
        out = []
        for n, (c, fn) in enumerate(feas):
            s = st if n == len(feas) - 1 else st.copy()
            try:
                if len(feas) > 1 or True:
                    s.assume(c)
                fn(s)
                out.append(s)
            except PathEnd:
                pass
        return out

    def setreg(self, v, val):
        if v[0] != 'reg':
            raise Unsupported('split of a constant')

        def fn(s):
            s.fr.regs[v[1]] = val
        return fn

    def step(self, st):
        """run st until it forks, changes block, or finishes -> list of states"""
        self.cur = st
        while True:
            fr = st.fr
            blk = fr.f.blocks[fr.blk]
            ins = blk.ins[fr.idx]
            op = ins.op
            if op == 'load':
                p = self.ev(st, ins.a[0])
                self.need(st, p, 'address')
                try:
                    alts = self.load(st, p, ins.ty, fr.mod)
                except NeedSplit as e:
                    return self.fork(st, [(c, self.setreg(ins.a[0][1], q)) for (c, q) in e.alts])
                if len(alts) == 1 and alts[0][0] is True:
                    fr.regs[ins.res] = alts[0][1]
                    fr.idx += 1
                    continue

                def mk(v):
                    def fn(s):
                        s.fr.regs[ins.res] = v
                        s.fr.idx += 1
                    return fn
                outs = self.fork(st, [(c, mk(v)) for c, v in alts])
                if len(outs) == 1 and outs[0] is st:
                    continue
                return outs
            if op == 'store':
                v = self.ev(st, ins.a[0])
                p = self.ev(st, ins.a[1])
                self.need(st, p, 'address')
                try:
                    self.store(st, p, ins.ty, v, fr.mod)
                except NeedSplit as e:
                    return self.fork(st, [(c, self.setreg(ins.a[1][1], q)) for (c, q) in e.alts])
                fr.idx += 1
                continue
            if op == 'alloca':
                o = fr.allocamap.get(ins.res)
                n = fr.mod.size(ins.ty)
                if ins.a and ins.a[0]:
                    cnt = self.ev(st, ins.a[0])
                    if not isinstance(cnt, int):
                        raise Unsupported('variable length array')
                    n *= cnt
                o = Obj('%s.%%%s' % (fr.f.name, ins.res), 'stack', n)
                st.mem[o] = Content({}, None)
                fr.allocas = fr.allocas + (o,)
                fr.allocamap = dict(fr.allocamap)
                fr.allocamap[ins.res] = o
                fr.regs[ins.res] = Ptr(o, 0)
                fr.idx += 1
                continue
            if op == 'gep':
                p = self.ev(st, ins.a[0])
                self.need(st, p, 'address')
                idx = [(t, self.need(st, self.ev(st, (t, v)), 'index')) for (t, v) in ins.a[1:]]
                fr.regs[ins.res] = self.gep(fr.mod, ins.ty, p, idx)
                fr.idx += 1
                continue
            if op == 'bin':
                o, a, b, fl = ins.a
                fr.regs[ins.res] = self.binop(st, o, self.ev(st, a), self.ev(st, b), ins.ty.w, fl)
                fr.idx += 1
                continue
            if op == 'icmp':
                pred, a, b = ins.a
                x, y = self.ev(st, a), self.ev(st, b)
                fr.regs[ins.res] = self.icmp(st, pred, x, y, ins.ty)
                if isinstance(x, int) and isinstance(y, int):
                    fr.regs[('cc', ins.res)] = True
                elif isinstance(x, Ptr) and isinstance(y, Ptr) and x.b is y.b and x.b is not NULLOBJ and isinstance(x.off, int) and isinstance(y.off, int):
                    fr.regs[('cc', ins.res)] = True
                else:
                    fr.regs.pop(('cc', ins.res), None)
                fr.idx += 1
                continue
            if op == 'cast':
                fr.regs[ins.res] = self.cast(st, fr.mod, ins.a[0], ins.a[1][0], self.ev(st, ins.a[1]), ins.ty)
                fr.idx += 1
                continue
            if op == 'select':
                c = self.need(st, self.ev(st, ins.a[0]), 'select')
                a, b = self.ev(st, ins.a[1]), self.ev(st, ins.a[2])
                if isinstance(c, bool):
                    fr.regs[ins.res] = a if c else b
                    fr.idx += 1
                    continue
                if is_int(a) and is_int(b):
                    fr.regs[ins.res] = If(c, a, b, ins.ty.w if ins.ty.k == 'int' else None)
                    fr.idx += 1
                    continue

                def mk(v):
                    def fn(s):
                        s.fr.regs[ins.res] = v
                        s.fr.idx += 1
                    return fn
                return self.fork(st, [(c, mk(a)), (Not(c), mk(b))])
            if op == 'phi':
                fr.idx += 1
                continue
            if op == 'extractvalue':
                v = self.ev(st, ins.a[0])
                for i in ins.a[1]:
                    v = v.vals[i] if isinstance(v, Agg) else v
                fr.regs[ins.res] = v
                fr.idx += 1
                continue
            if op == 'insertvalue':
                a = self.ev(st, ins.a[0])
                b = self.ev(st, ins.a[1])
                n = len(fr.mod.resolve(ins.ty).fields)
                vals = list(a.vals) if isinstance(a, Agg) else [POISON] * n
                vals[ins.a[2][0]] = b
                fr.regs[ins.res] = Agg(vals)
                fr.idx += 1
                continue
            if op == 'br':
                self.goto(st, ins.a[0])
                return [st]
            if op == 'condbr':
                c = self.ev(st, ins.a[0])
                self.need(st, c, 'branch')
                if isinstance(c, bool):
                    rn = ins.a[0][1]
                    if rn[0] == 'reg':
                        h = self.hooks_const
                        if h is not None:
                            h.setdefault((fr.id, fr.blk), set()).add(c if fr.regs.get(("cc", rn[1])) else None)
                    self.goto(st, ins.a[1] if c else ins.a[2])
                    return [st]
                t, e = ins.a[1], ins.a[2]
                if self.hooks_const is not None:
                    self.hooks_const.setdefault((fr.id, fr.blk), set()).add(None)
                return self.fork(st, [(c, lambda s: self.goto(s, t)), (Not(c), lambda s: self.goto(s, e))])
            if op == 'switch':
                v = self.need(st, self.ev(st, ins.a[0]), 'switch')
                d, cases = ins.a[1], ins.a[2]
                w = ins.ty.w
                if isinstance(v, int):
                    for (cv, lb) in cases:
                        if mask(cv, w) == v:
                            self.goto(st, lb)
                            break
                    else:
                        self.goto(st, d)
                    return [st]
                bylb = {}
                for (cv, lb) in cases:
                    bylb.setdefault(lb, []).append(Eq(v, mask(cv, w), w))
                alts = []
                allc = []
                for lb, cs in bylb.items():
                    allc += cs
                    if lb == d:
                        continue
                    alts.append((Or(*cs), (lambda lb: lambda s: self.goto(s, lb))(lb)))
                nd = And(*[Not(x) for lb, cs in bylb.items() if lb != d for x in cs])
                alts.append((nd, lambda s: self.goto(s, d)))
                return self.fork(st, alts)
            if op == 'ret':
                v = self.ev(st, ins.a[0]) if ins.a else None
                top = len(st.frames) == 1
                if top and isinstance(v, Poison):
                    self.need(st, v, 'return value')
                fr = self.pop(st)
                if top:
                    st.done = ('ret', v)
                    return [st]
                if fr.ret is not None:
                    st.fr.regs[fr.ret] = v
                st.fr.idx += 1
                st.edge = None
                return [st]
            if op == 'call':
                outs = self.do_call(st, ins)
                if len(outs) == 1 and outs[0] is st and st.done is None and st.frames and st.fr is fr and fr.idx > ins.idx and fr.blk == blk.name:
                    continue
                return outs
            if op == 'unreachable':
                st.done = ('stop', 'unreachable')
                self.unreach.append(self.where(st))
                return [st]
            if op == 'asm':
                st.done = ('stop', 'asm')
                return [st]
            raise Unsupported('instruction ' + op)

    hooks_const = None
    use_init = frozenset()

    # ---- scheduling ----
    def position(self, st):
        if st.done:
            return (10 ** 9,)
        out = []
        for fr in st.frames:
            out.append(fr.f.rpo.get(fr.blk, 10 ** 6))
            out.append(fr.idx)
        return tuple(out)

    def run(self, states, ctx=None):
        """explore; ctx = (frame id, header, loop blocks): collects back-edge and exit states instead of continuing.
        -> (done/exit states, back states)"""
        heap = []
        n = itertools.count()
        exits, backs = [], []

        def put(s):
            if s.done is not None:
                exits.append(s)
                return
            if ctx is not None:
                fid, hd, body = ctx
                if s.edge is not None and s.edge == ('back', fid, hd):
                    backs.append(s)
                    return
                for fr in s.frames:
                    if fr.id == fid:
                        if fr.blk not in body:
                            exits.append(s)
                            return
                        break
                else:
                    exits.append(s)
                    return
            heapq.heappush(heap, (self.position(s), next(n), s))
        for s in states:
            put(s)
        while heap:
            pos, _, s = heapq.heappop(heap)
            # merging
            if heap and heap[0][0] == pos and s.fr.idx == 0 and s.edge is None:
                group = [s]
                while heap and heap[0][0] == pos:
                    group.append(heapq.heappop(heap)[2])
                if len(group) >= self.merge_min:
                    group = self.merge_all(group)
                s = group[0]
                for g in group[1:]:
                    heapq.heappush(heap, (pos, next(n), g))
                    # avoid merging again at this very position
                if len(group) > 1:
                    for g in group[1:]:
                        heap_remove = None
                    todo = group
                    # drop the re-pushed ones and process all of them now
                    heap = [h for h in heap if h[2] not in todo]
                    heapq.heapify(heap)
                    for g in todo:
                        for x in self.advance(g):
                            put(x)
                    continue
            for x in self.advance(s):
                put(x)
        return exits, backs

    def advance(self, s):
        self.nstates += 1
        if self.nstates > 400000:
            raise Unsupported('too many states')
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the target exhausted')
        try:
            if s.edge is not None and s.edge[0] == 'entry':
                return self.loops.enter(s)
            s.edge = None
            return self.step(s)
        except PathEnd:
            return []

    def merge_all(self, group):
        out = []
        for s in group:
            for i, o in enumerate(out):
                m = self.merge(o, s)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(s)
        return out

    def merge(self, a, b):
        """join two states at the same position; None when not representable"""
        if len(a.frames) != len(b.frames):
            return None
        for x, y in zip(a.frames, b.frames):
            fresh_call = self.merge_calls and x is a.frames[-1] and x.idx == 0 and not x.allocas and x.f is y.f and x.blk == x.f.entry and not y.allocas and not x.va and not y.va
            if (x.id != y.id and not fresh_call) or x.blk != y.blk or x.idx != y.idx or x.allocas != y.allocas:
                return None
        if set(a.stores) != set(b.stores):
            return None
        for x, y in ((a, b), (b, a)):
            for o in list(x.mem):
                if o not in y.mem:
                    if o.kind not in ('global', 'const'):
                        return None
                    self.content(y, o)
        for k in a.stores:
            if not a.stores[k].same(b.stores[k]):
                return None
        if set(a.ghost) != set(b.ghost):
            return None
        # common prefix of the path conditions
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]):
            n += 1
        ca = And(*a.pc[n:])
        cb = And(*b.pc[n:])
        if isinstance(ca, bool) or isinstance(cb, bool):
            # one is a weakening of the other; keep them apart
            return None
        sel = ca

        class No(Exception):
            pass

        def mv(x, y, w=None):
            if same_val(x, y):
                return x
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.b is y.b and same_val(x.i, y.i):
                return Ptr(x.b, S(If(sel, off64(x.off), off64(y.off), 64)), x.i)
            if isinstance(x, Poison) and isinstance(y, Poison):
                return x
            if is_int(x) and is_int(y):
                if isinstance(x, bool) or isinstance(y, bool) or (isinstance(x, z3.ExprRef) and z3.is_bool(x)) or (isinstance(y, z3.ExprRef) and z3.is_bool(y)):
                    return S(z3.If(sel, tb(x), tb(y)))
                if isinstance(x, int) and isinstance(y, int):
                    if w is None:
                        raise No()
                    return S(z3.If(sel, bv(x, w), bv(y, w)))
                return S(If(sel, x, y))
            raise No()

        def fill(c, other):
            """the cells of c and those of the other content, read from the background"""
            out = dict(c.cells)
            for k, (n, v) in other.items():
                if k in out:
                    continue
                if c.bg is None or c.flds or any(k < k2 + n2 and k2 < k + n for k2, (n2, v2) in out.items()):
                    return None
                out[k] = (n, concat_bytes([c.bg.read(k + i) for i in range(n)]))
            return out

        def mvc(x, y, w):
            if same_val(x, y):
                return x
            if isinstance(x, (Ptr, Alt)) and isinstance(y, (Ptr, Alt)):
                xs = x.alts if isinstance(x, Alt) else [(True, x)]
                ys = y.alts if isinstance(y, Alt) else [(True, y)]
                if len(xs) + len(ys) > 6:
                    raise No()
                return Alt([(And(sel, c), v) for c, v in xs] + [(And(Not(sel), c), v) for c, v in ys])
            return mv(x, y, w)
        s = a.copy()
        try:
            for fs, fa, fb in zip(s.frames, a.frames, b.frames):
                regs = {}
                live = fs.f.cross
                phis = {i.res for i in fs.f.blocks[fs.blk].ins if i.op == 'phi'}
                if phis:
                    live = set(live) | phis
                for k in fa.regs:
                    if k in fb.regs:
                        if same_val(fa.regs[k], fb.regs[k]):
                            regs[k] = fa.regs[k]
                        elif isinstance(k, str) and (k in live or fs is not s.frames[-1]):
                            try:
                                regs[k] = mv(fa.regs[k], fb.regs[k], fs.f.regw.get(k))
                            except No:
                                if k in live:
                                    raise
                fs.regs = regs
                if fa.prev != fb.prev:
                    fs.prev = None
            for o in a.mem:
                x, y = a.mem[o], b.mem[o]
                if x is y:
                    continue
                bg = x.bg
                if x.bg is not y.bg and not (x.bg is not None and y.bg is not None and x.bg.same(y.bg)):
                    if x.bg is None or y.bg is None or x.bg.ks != y.bg.ks or x.bg.w != y.bg.w:
                        return None
                    bg = Store((lambda p, q: lambda *k: If(sel, p.read(*k), q.read(*k), p.w))(x.bg, y.bg), x.bg.w, x.bg.name, (), x.bg.ks)
                if x.flds is not y.flds:
                    return None
                cells = {}
                xc, yc = x.cells, y.cells
                if set(xc) != set(yc):
                    if not self.merge_fill:
                        return None
                    xc, yc = fill(x, yc), fill(y, xc)
                    if xc is None or yc is None:
                        return None
                for k, (n1, v1) in xc.items():
                    n2, v2 = yc[k]
                    if n1 != n2:
                        return None
                    cells[k] = (n1, mvc(v1, v2, n1 * 8))
                s.mem[o] = Content(cells, bg, x.flds)
            s.jumps = {}
            for o in a.jumps:
                if o not in b.jumps:
                    continue
                x, y = a.jumps[o], b.jumps[o]
                if x is y:
                    s.jumps[o] = x
                elif x is not OUTER and y is not OUTER and (x.fid, x.blk, x.idx, x.res) == (y.fid, y.blk, y.idx, y.res):
                    rec = JumpRec()
                    rec.fid, rec.blk, rec.idx, rec.res = x.fid, x.blk, x.idx, x.res
                    rec.snap = {}
                    for v in x.snap:
                        if v not in y.snap or v not in s.mem:
                            continue
                        cells = {}
                        for off, e in x.snap[v].items():
                            e2 = y.snap[v].get(off)
                            ea, eb = a.mem[v].cells.get(off), b.mem[v].cells.get(off)
                            if e2 is not None and ea is not None and eb is not None and same_val(e[1], ea[1]) and same_val(e2[1], eb[1]):
                                cells[off] = s.mem[v].cells[off]
                        rec.snap[v] = cells
                    s.jumps[o] = rec
            for k in a.ghost:
                x, y = a.ghost[k], b.ghost[k]
                if isinstance(x, Out) and isinstance(y, Out):
                    s.ghost[k] = x.merge(y, ca, cb)
                    continue
                if x is y or (not isinstance(x, (z3.ExprRef,)) and not isinstance(y, z3.ExprRef) and x == y):
                    continue
                if same_val(x, y):
                    continue
                if is_int(x) and is_int(y):
                    s.ghost[k] = mv(x, y, self.ghostw.get(k))
                else:
                    return None
        except No:
            return None
        s.pc = a.pc[:n] + [S(z3.Or(ca, cb))] if not isinstance(S(z3.Or(ca, cb)), bool) else a.pc[:n]
        for tag, d in b.terms.items():
            for t in d.values():
                s.term(tag, t)
        fa_ = {id(f) for f in a.facts}
        fb_ = {id(f) for f in b.facts}
        s.facts = [f for f in a.facts if id(f) in fb_]
        for f in a.facts:
            if id(f) not in fb_:
                s.facts.append(Fact(f.tag, (lambda f, g: lambda t: Implies(g, f.inst(t)))(f, ca)))
        for f in b.facts:
            if id(f) not in fa_:
                s.facts.append(Fact(f.tag, (lambda f, g: lambda t: Implies(g, f.inst(t)))(f, cb)))
        return s

    ghostw = {}
    cand_makers = ()
    loop_entry = ()
    merge_min = 3
    merge_fill = False
    merge_calls = False
    try_unroll = 0


class _Thrown:
    pass


THROWN = _Thrown()

"""Loops: complete unrolling when the trip count is a program constant, otherwise an inductive cut.

At a cut every location that an iteration can modify is generalised.  Integer locations become functions of the ghost
iteration counter K: either the closed form v0 + c*K (when every path around the loop adds the same constant) or a trace
function T(K).  For a body whose paths back to the header are P_1 .. P_n (path conditions plus the equations for the new
values of the trace functions), "for all j < K: P_1(j) or ... or P_n(j)" holds at the header by construction (induction over
K), so it is assumed there.  Candidate invariants (of specs, and equalities between live locations) are kept only when they
are proved initially and preserved (Houdini).  The body is then executed once from the generalised state with all
obligations on."""
import itertools, os
import z3
from .smt import *
from . import smt

UNROLL_LIMIT = 400
COMBO_LIMIT = 6


class Loops:
    def __init__(self, ex):
        self.ex = ex
        self.depth = 0

    # ------------------------------------------------------------------------------------------------
    def enter(self, st):
        from .core import Unsupported
        ex = self.ex
        _, fid, hd = st.edge
        st.edge = None
        fr = st.fr
        body = fr.f.loops[hd]
        ctx = (fid, hd, body)
        # registers defined inside the loop are dead at the header
        self.strip(st, fr, body)
        for f in ex.loop_entry:
            f(ex, st)
        saved = ex.hooks_const
        ex.hooks_const = hc = {}
        ex.silent += 1
        self.depth += 1
        try:
            exits, backs = ex.run([st.copy()], ctx)
        finally:
            ex.silent -= 1
            self.depth -= 1
            ex.hooks_const = saved
        if not backs:
            exits, backs = ex.run([st], ctx)
            if not backs:
                return exits
        const = any(f == fid and b in body and len(v) == 1 and None not in v and any(x not in body for x in fr.f.blocks[b].succ) for (f, b), v in hc.items())
        if os.environ.get('VF_V'): print('LOOP', fr.f.name, hc, body, const)
        if const or self.ends_soon(st, ctx):
            return self.unroll(st, ctx)
        return self.cut(st, ctx, backs)

    def ends_soon(self, st, ctx):
        """does every path leave the loop within ex.try_unroll iterations? (tried silently)"""
        from .core import Unsupported
        ex = self.ex
        if not ex.try_unroll:
            return False
        cur = [st.copy()]
        ex.silent += 1
        self.depth += 1
        try:
            for n in range(ex.try_unroll + 1):
                exits, backs = ex.run(cur, ctx)
                if not backs:
                    return True
                for b in backs:
                    b.edge = None
                    self.strip(b, b.fr, ctx[2])
                cur = ex.merge_all(backs) if len(backs) > 1 else backs
            return False
        except Unsupported:
            return False
        finally:
            ex.silent -= 1
            self.depth -= 1

    def strip(self, st, fr, body):
        d = fr.f.defblk
        fr.regs = {k: v for k, v in fr.regs.items() if isinstance(k, str) and d.get(k) not in body}

    def unroll(self, st, ctx):
        from .core import Unsupported
        ex = self.ex
        cur = [st]
        out = []
        n = 0
        while cur:
            exits, backs = ex.run(cur, ctx)
            out += exits
            for b in backs:
                b.edge = None
                self.strip(b, b.fr, ctx[2])
            if len(backs) > 1:
                backs = ex.merge_all(backs)
            cur = backs
            n += 1
            if n > UNROLL_LIMIT:
                raise Unsupported('loop at %s does not terminate within %d iterations' % (ex.where(st), UNROLL_LIMIT))
        ex.loops_done.append((ex.where(st), 'unrolled completely, %d iterations' % (n - 1)))
        return out

    # ------------------------------------------------------------------------------------------------
    def cut(self, st, ctx, backs):
        from .core import Unsupported
        ex = self.ex
        if len(split_alts(ex, [st], ())) != 1:
            raise Unsupported('undecided pointer at a loop header')
        c = Cut(self, st, ctx)
        backs = split_alts(ex, backs, c.deadobjs)
        where = '%s:%s' % (st.fr.f.name, self.line(st))
        for b in backs:
            c.note(st, b, None)
        c.find_strides(st, backs)
        for rnd in range(12):
            c.changed = False
            c.explore()
            if not c.changed:
                break
        else:
            raise Unsupported('loop at %s: the set of modified locations does not stabilise' % where)
        c.close_forms()
        c.houdini()
        exits = c.final()
        ex.loops_done.append((where, c.describe()))
        return exits

    def line(self, st):
        fr = st.fr
        b = fr.f.blocks.get(fr.blk)
        for i in b.ins[fr.idx:]:
            l = fr.mod.line(i.dbg)
            if l:
                return l
        return fr.blk


def val_shape(v):
    from .core import Ptr, Poison, NULLOBJ, Fam
    if isinstance(v, Poison):
        return ('poison',)
    if isinstance(v, Ptr):
        if v.b is NULLOBJ and isinstance(v.off, int):
            return ('null', v.off)
        return ('ptr', v.b, v.i is not None)
    return ('int',)


class Cut:
    def __init__(self, loops, st, ctx):
        self.l = loops
        self.ex = loops.ex
        self.st = st
        self.ctx = ctx
        self.locs = {}         # location -> {'shapes': [shape]}
        self.stores = {}       # store locations
        self.dead = set()
        self.keep = set()      # objects whose cells stay while their background changes
        self.nokeep = set()
        self.droppedjumps = set()
        self.K = None
        self.forms = {}        # (loc, shape, part) -> ('lin', x0, c)
        self.combos = []       # list of dict loc -> shape
        self.init_combo = None
        self.changed = False
        self.strides = {}      # (pointer location, shape) -> (first offset, step), while exploring
        self.offs = {}         # (pointer location, shape) -> its constant offset, None when it varies
        self.cands = []
        self.defs = {}         # store location -> definition fn(K) -> Store
        self.nofold = False
        self.id = fresh_name('L')
        self.fcache = {}
        fr = st.fr
        live = fr.f.livein[ctx[1]]
        self.deadobjs = set()
        for a in fr.f.deadable:
            if a not in live and a in fr.allocamap:
                self.deadobjs.add(fr.allocamap[a])

    def find_strides(self, st, backs):
        """how far the first iteration moves each pointer; used while the loop is being explored, before the moves are known for certain"""
        from .core import Ptr, off64
        for b in backs:
            for loc in self.locs:
                x, y = self.get(st, loc), self.get(b, loc)
                if not (isinstance(x, Ptr) and isinstance(y, Ptr)) or not same_shape(val_shape2(x), val_shape2(y)):
                    continue
                d = Sub(off64(y.off), off64(x.off), 64)
                if isinstance(d, int) and d:
                    self.strides[(loc, skey(val_shape2(x)))] = (off64(x.off), d)

    # ---- differences between a header state and a back-edge state
    def note(self, h, b, combo):
        from .core import Unsupported, Content, Store, PStore
        ex = self.ex
        for o in list(h.mem):
            if o not in b.mem:
                raise Unsupported('object %r freed in a loop' % o)
            x, y = h.mem[o], b.mem[o]
            if x is y:
                continue
            if o in self.deadobjs:
                continue
            if x.flds is not y.flds:
                if (x.flds is None) != (y.flds is None):
                    raise Unsupported('layout of %r changes in a loop' % o)
                for f in x.flds:
                    if not x.flds[f].same(y.flds[f]):
                        self.add_store(('fld', o, f))
            bgd = False
            if x.bg is not y.bg and not (x.bg is not None and y.bg is not None and x.bg.same(y.bg)):
                bgd = True
            if bgd:
                if ('bg', o) not in self.stores:
                    # cells that are cells all the way around the loop stay cells over the background
                    if x.cells and o not in self.nokeep and self.cellmap(x) == self.cellmap(y):
                        self.keep.add(o)
                self.add_store(('bg', o))
                if o not in self.keep:
                    self.dropcells(o)
                    continue
            if ('bg', o) in self.stores:
                if o not in self.keep:
                    continue
                if self.cellmap(x) != self.cellmap(y):
                    self.keep.discard(o)
                    self.nokeep.add(o)
                    self.dropcells(o)
                    self.changed = True
                    continue
                for k in x.cells:
                    if not self.same_(x.cells[k][1], y.cells[k][1]):
                        self.add_cell(o, k, x.cells[k][0], x.cells[k][1], y.cells[k][1])
                continue
            keys = set(x.cells) | set(y.cells)
            bad = False
            for k in keys:
                e1, e2 = x.cells.get(k), y.cells.get(k)
                if e1 is None or e2 is None or e1[0] != e2[0]:
                    n = (e1 or e2)[0]
                    if e1 is None and x.bg is None and not any(k - 8 < q < k + n and q in x.cells and q + x.cells[q][0] > k for q in range(k - 8, k + n)):
                        self.add_cell(o, k, e2[0], POISON_(), e2[1])
                        continue
                    c1 = x if e1 is None else y
                    if (e1 is None or e2 is None) and c1.bg is not None and n <= 8 and \
                            not any(q in c1.cells and q + c1.cells[q][0] > k for q in range(k - 7, k + n)):
                        isp = val_shape((e1 or e2)[1])[0] in ('ptr', 'null')
                        v = ex.rd(h if e1 is None else b, o, c1, k, n, isp)
                        if not self.same_(v, (e1 or e2)[1]):
                            self.add_cell(o, k, n, v, (e1 or e2)[1])
                        continue
                    bad = True
                    continue
                if not self.same_(e1[1], e2[1]):
                    self.add_cell(o, k, e1[0], e1[1], e2[1])
            if bad:
                # differently sized accesses: treat the bytes as one block
                if any(val_shape(v)[0] in ('ptr', 'null') for (n, v) in list(x.cells.values()) + list(y.cells.values())):
                    raise Unsupported('mixed access sizes to %r in a loop' % o)
                self.add_store(('bg', o))
        for k in h.stores:
            x, y = h.stores[k], b.stores[k]
            if x is y or x.same(y):
                continue
            if isinstance(x, PStore):
                raise Unsupported('pointer store %s modified in a loop' % k)
            self.add_store(('st', k))
        for k in set(h.ghost) | set(b.ghost):
            if isinstance(k, tuple) and k[0] == 'va':
                continue
            if k not in h.ghost or k not in b.ghost:
                raise Unsupported('ghost %s appears in a loop' % (k,))
            x, y = h.ghost[k], b.ghost[k]
            if x is y:
                continue
            from .core import is_int, same_val
            if is_int(x) or is_int(y) or hasattr(x, 'off') or hasattr(y, 'off'):
                if not same_val(x, y):
                    self.add_loc(('gh', k), x, y)
                continue
            if isinstance(x, Store) and isinstance(y, Store):
                if not x.same(y):
                    self.add_store(('gs', k))
                continue
            if x != y:
                self.add_loc(('gh', k), x, y)
        for k in set(h.jumps) | set(b.jumps):
            if h.jumps.get(k) is not b.jumps.get(k) and k not in self.droppedjumps:
                self.droppedjumps.add(k)
                self.changed = True
        # shapes
        combo2 = {}
        for loc in self.locs:
            v = self.get(b, loc)
            s = val_shape2(v)
            combo2[loc] = s
            self.observe(loc, s, v)
            if s not in self.locs[loc]['shapes']:
                self.locs[loc]['shapes'].append(s)
        key = tuple(sorted(((str(k), k, s) for k, s in combo2.items()), key=lambda t: t[0]))
        return combo2

    def cellmap(self, c):
        return {k: e[0] for k, e in c.cells.items()}

    def dropcells(self, o):
        for k in list(self.locs):
            if k[0] == 'cell' and k[1] is o:
                del self.locs[k]

    def observe(self, loc, sh, v):
        """constant offsets of pointers stay constants"""
        if sh[0] != 'ptr':
            return
        k = (loc, skey(sh))
        if k not in self.offs:
            self.offs[k] = v.off if isinstance(v.off, int) else None
            if self.offs[k] is None:
                return
            self.changed = True
        elif self.offs[k] is not None and self.offs[k] != v.off if isinstance(v.off, int) else self.offs[k] is not None:
            self.offs[k] = None
            self.changed = True

    def same_(self, a, b):
        from .core import same_val, Poison
        if isinstance(a, Poison) and isinstance(b, Poison):
            return True
        return same_val(a, b)

    def add_cell(self, o, off, n, x, y):
        self.add_loc(('cell', o, off, n), x, y)

    def add_loc(self, loc, x, y):
        if loc not in self.locs:
            self.locs[loc] = {'shapes': []}
            self.changed = True
            self.combos = []

    def add_store(self, loc):
        if loc not in self.stores:
            self.stores[loc] = True
            self.changed = True
            self.combos = []

    def get(self, st, loc):
        if loc[0] == 'cell':
            c = st.mem[loc[1]].cells.get(loc[2])
            if c is None:
                # never written on the way: uninitialised or background
                from .core import POISON
                cc = st.mem[loc[1]]
                if cc.bg is None:
                    return POISON
                return self.ex.rd(st, loc[1], cc, loc[2], loc[3], False)
            return c[1]
        return st.ghost[loc[1]]

    def put(self, st, loc, v):
        if loc[0] == 'cell':
            c = st.mem[loc[1]].copy()
            c.cells[loc[2]] = (loc[3], v)
            st.mem[loc[1]] = c
        else:
            st.ghost[loc[1]] = v

    def width(self, loc):
        if loc[0] == 'cell':
            return loc[3] * 8
        v = self.st.ghost[loc[1]]
        if isinstance(v, z3.ExprRef) and z3.is_bv(v):
            return v.size()
        return self.ex.ghostw.get(loc[1], 32)

    # ---- header states
    def T(self, loc, shape, part, w):
        k = (loc, shape, part)
        f = self.fcache.get(k)
        if f is None:
            nm = fresh_name('T_%s' % (loc_name(loc)))
            f = self.fcache[k] = z3.Function(nm, z3.BitVecSort(32), z3.BitVecSort(w))
        return f

    def part(self, loc, shape, part, w):
        """header value of one scalar part of a location"""
        fm = self.forms.get((loc, shape, part))
        if fm is not None:
            return self.form_at(fm, self.K, w)
        if part == 'off' and (loc, skey(shape)) in self.strides:
            x0, d = self.strides[(loc, skey(shape))]
            return Add(x0, Mul(d, self.T(loc, shape, part, w)(self.K), w), w)
        return self.T(loc, shape, part, w)(self.K)

    def form_at(self, fm, K, w):
        kind, x0, c = fm
        if kind == 'fn':
            return x0(K)
        return Add(x0, Mul(mask(c, w), self.Kw(w, K), w), w)

    def Kw(self, w, K=None):
        if K is not None:
            return bv(K, w) if isinstance(K, int) else (K if w == 32 else ZX(K, 32, w) if w > 32 else TR(K, 32, w))
        if w == 32:
            return self.K
        if w > 32:
            return ZX(self.K, 32, w)
        return TR(self.K, 32, w)

    def header(self, combo, hist=True):
        """generalised state at the loop header for one shape combination"""
        from .core import Ptr, Poison, NULL, NULLOBJ, Content, POISON
        ex = self.ex
        s = self.st.copy()
        s.edge = None
        for o in self.deadobjs:
            if o in s.mem:
                c = s.mem[o]
                s.mem[o] = Content({}, None, c.flds) if c.flds is None else c
        for j in self.droppedjumps:
            s.jumps.pop(j, None)
        # stores first (they absorb the cells of their object)
        for loc in self.stores:
            self.havoc_store(s, loc)
        for loc, sh in combo.items():
            if sh[0] == 'poison':
                v = POISON
            elif sh[0] == 'null':
                v = Ptr(NULLOBJ, sh[1])
            elif sh[0] == 'int':
                v = self.part(loc, sh, 'v', self.width(loc))
            elif sh[0] == 'bool':
                v = self.part(loc, sh, 'v', 1)
                v = S(v == 1) if not isinstance(v, int) else bool(v)
            elif sh[0] == 'val':
                v = sh[1]
            else:
                off = self.offs.get((loc, skey(sh)))
                if off is None:
                    off = self.part(loc, sh, 'off', 64)
                if isinstance(off, int):
                    off = sx(off, 64)
                i = self.part(loc, sh, 'i', 32) if sh[2] else None
                v = Ptr(sh[1], off, i)
                if i is not None:
                    s.term(getattr(sh[1], 'tag', 'node'), i)
            self.put(s, loc, v)
        for h in ex.header_hooks:
            h(ex, s, self.K)
        if hist:
            self.assume_history(s, combo)
        for cd in self.cands:
            if cd.alive:
                c = cd.fn(ex, s, self.K)
                if c is not None:
                    s.assume(c)
        return s

    def havoc_store(self, s, loc):
        from .core import uf_store, Content
        ex = self.ex
        d = self.defs.get(loc)
        if loc[0] == 'bg':
            o = loc[1]
            if o not in self.keep and (s.mem[o].cells or s.mem[o].bg is None):
                ex.flush(s, o)
            c = s.mem[o].copy()
            c.bg = d(self.K) if d else self.hstore(loc, 8, (64,))
            s.mem[o] = c
        elif loc[0] == 'fld':
            c = s.mem[loc[1]].copy()
            old = c.flds[loc[2]]
            c.flds[loc[2]] = d(self.K) if d else self.hstore(loc, old.w, old.ks)
            s.mem[loc[1]] = c
        elif loc[0] == 'st':
            old = s.stores[loc[1]]
            s.stores[loc[1]] = d(self.K) if d else self.hstore(loc, old.w, old.ks)
        else:
            old = s.ghost[loc[1]]
            s.ghost[loc[1]] = d(self.K) if d else self.hstore(loc, old.w, old.ks)

    def get_store(self, s, loc):
        if loc[0] == 'bg':
            o = loc[1]
            if o in self.keep and s.mem[o].bg is not None:
                return s.mem[o].bg
            if s.mem[o].cells or s.mem[o].bg is None:
                s = s.copy()
                self.ex.flush(s, o)
            return s.mem[o].bg
        if loc[0] == 'fld':
            return s.mem[loc[1]].flds[loc[2]]
        if loc[0] == 'st':
            return s.stores[loc[1]]
        return s.ghost[loc[1]]

    def hstore(self, loc, w, ks):
        """trace store: a function of K and the keys"""
        from .core import Store
        k = ('S', loc)
        f = self.fcache.get(k)
        if f is None:
            f = self.fcache[k] = z3.Function(fresh_name('TS_%s' % loc_name(loc)), *([z3.BitVecSort(32)] + [z3.BitVecSort(x) for x in ks] + [z3.BitVecSort(w)]))
        K = self.K
        key = ('HS', loc, K.get_id())
        r = self.fcache.get(key)
        if r is None:
            r = self.fcache[key] = Store(lambda *a: f(K, *[bv(x, kk) for x, kk in zip(a, ks)]), w, 'trace', (), ks)
        return r

    # ---- exploration
    def initial_combo(self):
        out = {}
        for loc in self.locs:
            v = self.get(self.st, loc)
            out[loc] = val_shape2(v)
            self.observe(loc, out[loc], v)
        return out

    def run(self, combo, hist, silent=True):
        ex = self.ex
        s = self.header(combo, hist)
        if hist and not ex.feasible(s):
            return s, [], []
        if silent:
            ex.silent += 1
        try:
            exits, backs = ex.run([s.copy()], self.ctx)
            backs = split_alts(ex, backs, self.deadobjs)
        finally:
            if silent:
                ex.silent -= 1
        return s, exits, backs

    def explore(self):
        """one round of silent exploration from every shape combination; extends locations and combinations"""
        from .core import Unsupported
        self.K = fresh(32, 'K')
        self.mark = smt._ctr[0]
        # keep fresh symbols of earlier rounds out of the way
        self.fcache = {}
        self.rounds = []
        init = self.initial_combo()
        todo = [init]
        seen = []
        while todo:
            cb = todo.pop()
            if any(same_combo(cb, x) for x in seen):
                continue
            seen.append(cb)
            if len(seen) > COMBO_LIMIT:
                raise Unsupported('too many pointer shapes at a loop header: %s' % [(loc_name(k), v['shapes']) for k, v in self.locs.items()])
            h, exits, backs = self.run(cb, False)
            for b in backs:
                b.edge = None
                self.l.strip(b, b.fr, self.ctx[2])
                cb2 = self.note(h, b, cb)
                if self.changed:
                    return
                self.rounds.append((cb, h, b, cb2))
                todo.append(cb2)
        self.combos = seen
        self.init_combo = init

    def parts_of(self, loc, sh, v):
        """[(part name, width, value)]"""
        from .core import off64
        if sh[0] == 'int':
            w = self.width(loc)
            if isinstance(v, bool) or (isinstance(v, z3.ExprRef) and z3.is_bool(v)):
                v = If(v, 1, 0, w)
            return [('v', w, v)]
        if sh[0] == 'bool':
            return [('v', 1, If(v, 1, 0, 1) if not isinstance(v, bool) else int(v))]
        if sh[0] == 'ptr':
            r = [('off', 64, off64(v.off))]
            if sh[2]:
                r.append(('i', 32, v.i))
            return r
        return []

    def close_forms(self):
        """find v0 + c*K forms, then re-explore with them so that the history is expressed over them"""
        ex = self.ex
        forms = {}
        bad = set()
        for (cb, h, b, cb2) in self.rounds:
            for loc in self.locs:
                sh2 = cb2[loc]
                new = self.parts_of(loc, sh2, self.get(b, loc))
                if not same_shape(cb[loc], sh2) or not same_shape(sh2, self.init_combo[loc]):
                    for (p, w, v) in new:
                        bad.add((loc, skey(sh2), p))
                    continue
                old = {p: v for (p, w, v) in self.parts_of(loc, cb[loc], self.get(h, loc))}
                ini = {p: v for (p, w, v) in self.parts_of(loc, sh2, self.get(self.st, loc))}
                for (p, w, v) in new:
                    d = Sub(v, old[p], w)
                    k = (loc, sh2, p)
                    if isinstance(d, int):
                        d = sx(d, w)
                        if k in forms and forms[k][2] != d:
                            bad.add((loc, skey(sh2), p))
                        forms[k] = ('lin', ini[p], d)
                    else:
                        bad.add((loc, skey(sh2), p))
        self.forms = {k: v for k, v in forms.items() if (k[0], skey(k[1]), k[2]) not in bad}
        self.badforms = set()
        self.strides = {}
        for attempt in range(6):
            self.changed = False
            self.propose_forms()
            self.summarise_stores()
            self.explore_again()
            if self.check_forms() and not self.fills():
                break
        else:
            from .core import Unsupported
            raise Unsupported('closed forms do not stabilise')
        self.make_history()

    def propose_forms(self):
        """integer locations as functions of the iteration number proposed by specs: ex.intforms = [fn(cut, loc, init) -> [(tag, f)]]"""
        ex = self.ex
        for loc in self.locs:
            sh = self.init_combo[loc]
            for (p, w, v) in self.parts_of(loc, sh, self.get(self.st, loc)):
                k = (loc, sh, p)
                if k in self.forms or sh[0] == 'bool':
                    continue
                fit = []
                for pf in ex.intforms:
                    for (tag, f) in pf(self, loc, w) or ():
                        if (k, 'fn', tag) in self.badforms:
                            continue
                        x = f(bv(0, 32))
                        if ex.valid(self.st, Eq(v, x, w)):
                            fit.append((tag, f))
                if len(fit) > 1:
                    # several fit before the first iteration: prefer those that fit after it as well
                    fit = [t for t in fit if self.fits_once(loc, sh, p, w, t[1])] + fit
                if fit:
                    self.forms[k] = ('fn', fit[0][1], fit[0][0])

    def fits_once(self, loc, sh, part, w, f):
        ex = self.ex
        for (cb, h, b, cb2) in self.rounds:
            if not same_combo(cb, self.init_combo) or not same_shape(cb2[loc], sh):
                continue
            s = b.copy()
            try:
                s.assume(S(self.K == 0))
                for l in self.locs:
                    old = dict((p, v) for (p, w2, v) in self.parts_of(l, cb[l], self.get(h, l)))
                    for (p, w2, v) in self.parts_of(l, cb[l], self.get(self.st, l)):
                        s.assume(Eq(old[p], v, w2))
            except PathEnd_():
                continue
            for (p, w2, v) in self.parts_of(loc, cb2[loc], self.get(b, loc)):
                if p == part and not ex.valid(s, Eq(v, f(bv(1, 32)), w2)):
                    return False
        return True

    def explore_again(self):
        from .core import Unsupported
        self.explore()
        if self.changed:
            # the closed forms opened new paths that modify more
            for rnd in range(10):
                self.forms = {}
                self.defs = {}
                self.changed = False
                self.explore()
                if not self.changed:
                    return
            raise Unsupported('loop does not stabilise')

    def check_forms(self):
        """the closed forms must be preserved by every path; drop those which are not"""
        ex = self.ex
        ok = True
        K1 = Add(self.K, 1, 32)
        for (cb, h, b, cb2) in self.rounds:
            for loc in self.locs:
                for (p, w, v) in self.parts_of(loc, cb2[loc], self.get(b, loc)):
                    k = (loc, cb2[loc], p)
                    fm = self.forms.get(k)
                    if fm is None:
                        continue
                    if fm[0] == 'fn':
                        want = fm[1](K1)
                    else:
                        want = Add(fm[1], Mul(mask(fm[2], w), Add(self.Kw(w), 1, w) if w >= 32 else TR(K1, 32, w), w), w)
                    if isinstance(S(bv(v, w) == bv(want, w)), bool) and S(bv(v, w) == bv(want, w)) is True:
                        continue
                    if not ex.valid(b, Eq(v, want, w)):
                        self.badforms.add((k, fm[0], fm[2]))
                        del self.forms[k]
                        ok = False
        if not ok:
            return False
        if self.defs:
            pre = self.pre_cands()
            for (cb, h, b, cb2) in self.rounds:
                for loc in list(self.defs):
                    if not self.check_def(loc, b, [c for c in (f(ex, h, self.K) for f in pre) if c is not None]):
                        self.baddefs.add((loc, self.defs[loc].tag))
                        del self.defs[loc]
                        ok = False
        return ok

    def spec_cands(self):
        """candidate invariants of the spec: ex.cands, and those of ex.cand_makers for this loop"""
        if self.made is None:
            self.made = [f for mk in self.ex.cand_makers for f in mk(self) or ()]
        return self.ex.cands + self.made

    made = None

    def pre_cands(self):
        """the candidate invariants of the spec that are inductive over the closed forms alone"""
        ex = self.ex
        alive = []
        for f in self.spec_cands():
            try:
                c = f(ex, self.st.copy(), bv(0, 32))
            except (KeyError, AttributeError):
                continue
            if c is not None and ex.valid(self.st, c):
                alive.append(f)
        while alive:
            bad = []
            for (cb, h, b, cb2) in self.rounds:
                s = b.copy()
                pre = [f(ex, h.copy(), self.K) for f in alive]
                try:
                    for c in pre:
                        if c is not None:
                            s.assume(c)
                except PathEnd_():
                    continue
                for f in alive:
                    c = f(ex, s, Add(self.K, 1, 32))
                    if c is not None and f not in bad and not ex.valid(s, c):
                        bad.append(f)
            if not bad:
                break
            alive = [f for f in alive if f not in bad]
        return alive

    # ---- store definitions proposed by specs / copy detection
    baddefs = frozenset()

    def summarise_stores(self):
        if isinstance(self.baddefs, frozenset):
            self.baddefs = set()
        for loc in self.stores:
            if loc in self.defs:
                continue
            for sm in self.ex.summarizers + [copy_summary]:
                for d in sm(self, loc) or ():
                    if (loc, d.tag) in self.baddefs:
                        continue
                    if self.check_def_init(loc, d):
                        self.defs[loc] = d
                        break
                if loc in self.defs:
                    break

    def fills(self):
        """one store per iteration to consecutive places, of a value that depends on nothing the loop changes: a definition of the whole"""
        new = False
        if len(self.rounds) != 1:
            return False
        (cb, h, b, cb2) = self.rounds[0]
        for loc in self.stores:
            if loc in self.defs or loc[0] not in ('bg', 'fld'):
                continue
            x, y, o = self.get_store(h, loc), self.get_store(b, loc), self.get_store(self.st.copy(), loc)
            n0 = len(x.layers)
            if len(x.ks) != 1 or x.ks[0] != 64 or x.base is not y.base or len(y.layers) != n0 + 1 or any(a is not c for a, c in zip(x.layers, y.layers)):
                continue
            off, n, v = getattr(y.layers[-1][0], 'span', (None, 0, None))
            if off is None or isinstance(off, int) or not (isinstance(v, int) or isinstance(v, z3.ExprRef)) or (loc[0] == 'fld' and n != 1):
                continue
            K = self.K
            at = lambda e, q: z3.simplify(z3.substitute(e, (K, q))) if isinstance(e, z3.ExprRef) else e
            own = [off] + ([v] if isinstance(v, z3.ExprRef) else [])
            if any(not (d.arity() == 0 and d().eq(K)) for e in own for d in symbols_after(e, self.mark)):
                continue
            x0 = at(off, z3.BitVecVal(0, 32))
            if not self.ex.valid(b, Eq(S(bv(off, 64)), Add(x0, Mul(n, ZX(K, 32, 64), 64), 64), 64)):
                continue
            ex = self.ex

            def defn(Kv, o=o, x0=x0, n=n, v=v, at=at):
                def inside(k):
                    return ULT(Sub(k, x0, 64), Mul(n, self.Kw(64, Kv), 64), 64)

                def value(k):
                    d = Sub(k, x0, 64)
                    q = TR(d, 64, 32) if n == 1 else TR(S(z3.UDiv(bv(d, 64), z3.BitVecVal(n, 64))), 64, 32)
                    w = at(v, bv(q, 32))
                    return w if n == 1 else ex.pick(w, n, S(z3.URem(bv(d, 64), z3.BitVecVal(n, 64))))
                return o.layer(inside, value)
            defn.tag = 'fill'
            if isinstance(self.baddefs, frozenset):
                self.baddefs = set()
            if (loc, 'fill') in self.baddefs:
                continue
            if self.check_def_init(loc, defn):
                self.defs[loc] = defn
                new = True
        return new

    def check_def_init(self, loc, d):
        ex = self.ex
        s = self.st.copy()
        a = self.get_store(s, loc)
        b = d(0)
        ks = [fresh(w, 'key') for w in a.ks]
        self.reg_keys(s, loc, ks)
        return ex.valid(s, Eq(a.read(*ks), b.read(*ks), a.w))

    def check_def(self, loc, b, pre=()):
        ex = self.ex
        d = self.defs[loc]
        s = b.copy()
        try:
            for c in pre:
                s.assume(c)
        except PathEnd_():
            return True
        x = self.get_store(s, loc)
        y = d(Add(self.K, 1, 32))
        ks = [fresh(w, 'key') for w in x.ks]
        self.reg_keys(s, loc, ks)
        return ex.valid(s, Eq(x.read(*ks), y.read(*ks), x.w))

    def reg_keys(self, s, loc, ks):
        for h in self.ex.key_hooks:
            h(self.ex, s, loc, ks, self.K)
        for k in ks:
            if k.size() == 32:
                s.term('node', k)
            elif k.size() == 64:
                s.term('idx', k)

    # ---- history
    def make_history(self):
        from .core import Fact
        K = self.K
        npc = len(self.st.pc)
        self.paths = []        # (target combo, formula over K)
        subst = {}

        def generalise(e):
            """skolemise the symbols created inside the body; None when not expressible"""
            for n in symbols_after(e, self.mark):
                if n.arity() > 0:
                    if n.name() in self.tnames():
                        continue
                    return None
                c = n()
                if c.eq(K):
                    continue
                if n.name() not in subst:
                    subst[n.name()] = (c, z3.Function(n.name() + '@', z3.BitVecSort(32), c.sort())(K))
            l = [p for p in subst.values()]
            return z3.substitute(e, *l) if l else e
        K1 = Add(K, 1, 32)
        for (cb, h, b, cb2) in self.rounds:
            conj = []
            hp = set(x.get_id() for x in h.pc)
            for c in b.pc:
                if c.get_id() in hp:
                    continue
                g = generalise(c)
                if g is not None:
                    conj.append(g)
            for loc in self.locs:
                for (p, w, v) in self.parts_of(loc, cb2[loc], self.get(b, loc)):
                    if (loc, cb2[loc], p) in self.forms:
                        continue
                    g = generalise(bv(v, w))
                    if g is not None:
                        conj.append(self.T(loc, cb2[loc], p, w)(K1) == g)
            self.paths.append((cb, cb2, And(*conj)))
        self.subst = subst

    def tnames(self):
        return {f.name() for k, f in self.fcache.items() if isinstance(f, z3.FuncDeclRef)}

    def base_eqs(self):
        out = []
        for loc in self.locs:
            for (p, w, v) in self.parts_of(loc, self.init_combo[loc], self.get(self.st, loc)):
                k = (loc, self.init_combo[loc], p)
                if k not in self.forms:
                    out.append(self.T(loc, self.init_combo[loc], p, w)(bv(0, 32)) == bv(v, w))
        return out

    def assume_history(self, s, combo):
        from .core import Fact
        K = self.K
        for e in self.base_eqs():
            s.assume(S(e))
        km1 = Sub(K, 1, 32)

        def at(e, j):
            if isinstance(e, bool):
                return e
            return S(z3.substitute(e, (K, bv(j, 32))))
        into = [f for (cb, cb2, f) in self.paths if same_combo(cb2, combo)]
        allp = Or(*[f for (cb, cb2, f) in self.paths])
        last = And(Not(Eq(K, 0, 32)), at(Or(*into), km1)) if into else False
        if same_combo(combo, self.init_combo):
            s.assume(S(tb(Or(Eq(K, 0, 32), last))))
        else:
            s.assume(S(tb(last)))
        if not isinstance(allp, bool):
            fn = lambda j: Implies(ULT(j, K, 32), at(allp, j))
            done = set()
            for (loc, sh, p), (_, x0, c) in self.forms.items():
                if _ != 'lin' or c not in (1, -1):
                    continue
                w = self.part_width(loc, sh, p)
                if p == 'i':
                    tag = getattr(sh[1], 'tag', 'node')
                    key = (tag, x0 if isinstance(x0, int) else x0.get_id())
                    if key in done:
                        continue
                    done.add(key)
                    s.facts.append(Fact(tag, (lambda x0: lambda t: fn(Sub(t, x0, 32)))(x0)))
                elif w >= 32:
                    x32 = TR(x0, w, 32)
                    key = ('idx', x32 if isinstance(x32, int) else x32.get_id(), c)
                    if key in done:
                        continue
                    done.add(key)
                    if c == 1:
                        s.facts.append(Fact('idx', (lambda x: lambda t: fn(Sub(TR(t, 64, 32), x, 32)))(x32)))
            s.facts.append(Fact('hist', fn))
            self.histfn = fn

    def part_width(self, loc, sh, p):
        return {'off': 64, 'i': 32}.get(p) or (1 if sh[0] == 'bool' else self.width(loc))

    # ---- Houdini
    def houdini(self):
        ex = self.ex
        cands = [Cand(fn) for fn in self.spec_cands()]
        cands += self.auto_cands()
        alive = []
        for cd in cands:
            try:
                c = cd.fn(ex, self.st, 0)
            except KeyError:
                c = None
            if c is None:
                continue
            if ex.valid(self.st, c):
                alive.append(cd)
        self.cands = alive
        while True:
            if not any(c.alive for c in self.cands):
                break
            drop = False
            for cb in self.combos:
                h, exits, backs = self.run(cb, True)
                for b in backs:
                    for cd in self.cands:
                        if not cd.alive:
                            continue
                        c = cd.fn(ex, b, Add(self.K, 1, 32))
                        if c is not None and not ex.valid(b, c):
                            cd.alive = False
                            drop = True
            if not drop:
                break
        self.cands = [c for c in self.cands if c.alive]
        # the invariants that survive hold at every earlier iteration
        new = []
        for (cb, cb2, f) in self.paths:
            s = self.header(cb, False)
            npc = len(self.st.pc)
            inv = []
            for cd in self.cands:
                c = cd.fn(ex, s, self.K)
                if c is not None and not isinstance(c, bool) and all(d.arity() > 0 and d.name() in self.tnames() for d in symbols_after(c, self.mark)):
                    inv.append(c)
            new.append((cb, cb2, And(f, *inv)))
        self.paths = new

    def auto_cands(self):
        """equalities between integer locations that are equal on entry (ghost against program variables)"""
        out = []
        ints = []
        for loc in self.locs:
            if self.init_combo[loc][0] == 'int':
                k = (loc, self.init_combo[loc], 'v')
                ints.append((loc, k in self.forms))
        for (a, fa), (b, fb) in itertools.combinations(ints, 2):
            if fa and fb:
                continue
            if a[0] != 'gh' and b[0] != 'gh':
                continue
            wa, wb = self.width(a), self.width(b)
            x, y = self.get(self.st, a), self.get(self.st, b)
            lo = min(wa, wb)
            if not self.ex.valid(self.st, Eq(TR(x, wa, lo), TR(y, wb, lo), lo)):
                continue
            out.append(Cand(self.eqfn(a, b, wa, wb)))
        for (loc, sh, p), fm in self.forms.items():
            # a countdown has not passed zero
            w = self.part_width(loc, sh, p)
            if sh[0] == 'int' and fm[0] == 'lin' and w >= 32 and mask(fm[2] + 1, w) == 0:
                out.append(Cand((lambda x0, w: lambda ex, s, K: ULE(self.Kw(w, K), x0, w))(fm[1], w)))
        return out

    def eqfn(self, a, b, wa, wb):
        lo, hi = min(wa, wb), max(wa, wb)

        def fn(ex, s, K):
            try:
                x, y = self.get(s, a), self.get(s, b)
            except KeyError:
                return None
            from .core import is_int
            if not is_int(x) or not is_int(y):
                return None
            return Eq(ZX(x, wa, hi), ZX(y, wb, hi), hi) if self.zext_ok(a, b) else Eq(TR(x, wa, lo), TR(y, wb, lo), lo)
        return fn

    def zext_ok(self, a, b):
        return True

    # ---- final exploration
    def final(self):
        from .core import Unsupported
        out = []
        npaths = len(self.rounds)
        for cb in self.combos:
            h, exits, backs = self.run(cb, True, silent=False)
            out += exits
            for b in backs:
                b.edge = None
                self.l.strip(b, b.fr, self.ctx[2])
                self.changed = False
                cb2 = self.note(h, b, cb)
                if self.changed or not any(same_combo(cb2, x) for x in self.combos):
                    raise Unsupported('loop modifies more than its generalisation')
        return out

    def describe(self):
        n = sum(1 for k in self.forms)
        return 'cut: %d locations (%d closed forms), %d stores (%d summarised), %d shapes, %d invariants kept' % (
            len(self.locs), n, len(self.stores), len(self.defs), len(self.combos), len(self.cands))


def split_alts(ex, states, dead):
    """no cell holds an undecided pointer: split by its alternatives"""
    from .core import Alt, PathEnd
    out = []
    todo = list(states)
    while todo:
        b = todo.pop(0)
        hit = None
        for o, c in b.mem.items():
            if o in dead:
                continue
            for k, (n, v) in c.cells.items():
                if isinstance(v, Alt):
                    hit = (o, k, n, v)
                    break
            if hit:
                break
        if hit is None:
            out.append(b)
            continue
        o, k, n, v = hit
        poss = [(g, x) for (g, x) in v.alts if ex.feasible(b, g)]
        for i, (g, x) in enumerate(poss):
            s = b if len(poss) == 1 else b.copy()
            if len(poss) > 1:
                s.assume(g)
            c = s.mem[o].copy()
            c.cells[k] = (n, x)
            s.mem[o] = c
            todo.append(s)
    return out


class Cand:
    def __init__(self, fn):
        self.fn = fn
        self.alive = True


def PathEnd_():
    from .core import PathEnd
    return PathEnd


def POISON_():
    from .core import POISON
    return POISON


def val_shape2(v):
    from .core import Ptr, Poison, NULLOBJ, is_int
    if isinstance(v, Poison):
        return ('poison',)
    if isinstance(v, Ptr):
        if v.b is NULLOBJ and isinstance(v.off, int):
            return ('null', v.off)
        return ('ptr', v.b, v.i is not None)
    if isinstance(v, bool) or (isinstance(v, z3.ExprRef) and z3.is_bool(v)):
        return ('bool',)
    if is_int(v):
        return ('int',)
    return ('val', v)


def skey(s):
    return tuple(id(x) if not isinstance(x, (str, int, bool)) else x for x in s)


def same_shape(a, b):
    return len(a) == len(b) and all(x is y or (isinstance(x, (str, int, bool)) and x == y) or
                                    (isinstance(x, tuple) and x == y) for x, y in zip(a, b))


def same_combo(a, b):
    return set(a) == set(b) and all(same_shape(a[k], b[k]) for k in a)


def loc_name(loc):
    return '_'.join(str(getattr(x, 'name', x)) for x in loc)


_symcache = {}


def symbols_after(e, mark):
    """declarations of uninterpreted symbols in e with a fresh number above mark"""
    out = {}
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                n = d.name()
                if '!' in n:
                    try:
                        k = int(n.rsplit('!', 1)[1].split('@')[0])
                    except ValueError:
                        k = 0
                    if k > mark:
                        out[n] = d
            stack.extend(x.children())
    return list(out.values())


def copy_summary(cut, loc):
    return ()

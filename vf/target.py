"""A target: one group of functions of /repo verified against its contracts."""
import os, subprocess, sys, time, traceback, hashlib
from . import ir, smt
from .core import *
from .smt import *
from .libc import LIBC, log
import z3

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = {
    'MemorySim': 'libCrashDebug/src/MemorySim.c', 'ElfLoad': 'libCrashDebug/src/ElfLoad.c',
    'CrashCatcherDump': 'libCrashDebug/src/CrashCatcherDump.c', 'GdbLogParser': 'libCrashDebug/src/GdbLogParser.c',
    'CrashDebugCommandLine': 'libCrashDebug/src/CrashDebugCommandLine.c', 'StandardIComm': 'libCrashDebug/src/StandardIComm.c',
    'mriPlatform': 'libCrashDebug/src/mriPlatform.c', 'common': 'libcommon/src/common.c', 'try_catch': 'libcommon/src/try_catch.c',
    'MallocFailureInject': 'libmocks/src/MallocFailureInject.c', 'FileFailureInject': 'libmocks/src/FileFailureInject.c',
    'printfSpy': 'libmocks/src/printfSpy.c', 'MockDefaults': 'main/MockDefaults.c', 'main': 'main/main.c',
}
CFLAGS = ['-std=gnu90', '-w', '-Wno-error=int-conversion', '-Wno-error=implicit-function-declaration',
          '-Wno-error=incompatible-function-pointer-types', '-include', 'stdlib.h']   # what gcc 13 only warns about
INCS = ['include', 'libCrashDebug/src']


class BuildError(Exception):
    pass


_mods = {}
RUNS = []         # every run of this process


def compile_ir(path, name, extra=()):
    key = (path, name)
    if key in _mods:
        return _mods[key]
    cmd = ['clang', '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-g'] + CFLAGS + \
          ['-I%s/%s' % (REPO, i) for i in INCS] + ['-I%s/stubs/include' % VERIF] + list(extra) + [path, '-o', '-']
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError('%s does not compile: %s' % (path, p.stderr[-2000:]))
    m = ir.parse_module(p.stdout, name)
    _mods[key] = m
    return m


def load_modules(names):
    return {n: compile_ir(os.path.join(REPO, SRC[n]), n) for n in names}


def extra_module(path, name):
    return compile_ir(path, name)


class Run:
    """one proof run: an engine over the modules with an initial state"""

    def __init__(self, target, modules, contracts=None, safety=(), inits=(), extra=None, verbose=None, budget=None):
        mods = load_modules(modules)
        if extra:
            mods.update(extra)
        self.ex = ex = Engine(mods, target, contracts or {}, safety, verbose=bool(os.environ.get('VF_V')) if verbose is None else verbose)
        ex.libc = dict(LIBC)
        ex.use_init = frozenset(inits)
        ex.no_alloc_fail = False
        ex.snprintf_hook = lambda st, f, a: None
        ex.deadline = time.time() + (budget or 600)
        self.mods = mods
        RUNS.append(self)
        self.safety = safety

    def state(self):
        st = State()
        st.ghost['log'] = ()
        st.ghost['oom'] = False
        return st

    def g(self, name, mod=None):
        """object of global variable `name`"""
        for m in ([self.mods[mod]] if mod else self.mods.values()):
            if name in m.globals:
                return self.ex.gobj(m, name)
        raise Unsupported('no global %s' % name)

    def gget(self, st, name, n=4, off=0, isptr=False, mod=None):
        o = self.g(name, mod)
        return self.ex.rd(st, o, self.ex.content(st, o), off, n, isptr)

    def gset(self, st, name, v, n=4, off=0, mod=None):
        o = self.g(name, mod)
        self.ex.content(st, o)
        self.ex.wr(st, o, off, n, v)

    def internals(self, mod):
        """the initial contents of the mutable statics of a module, their integers arbitrary (any later moment of the process)"""
        m = self.mods[mod]
        names = [n for n, g in m.globals.items() if g['internal'] and not g['const']]
        self.ex.use_init = frozenset(self.ex.use_init) | frozenset(names)

        def walk(o, st, t, off):
            t = m.resolve(t)
            if t.k == 'struct':
                for i, f in enumerate(t.fields):
                    walk(o, st, f, off + m.field_off(t, i))
            elif t.k == 'int':
                self.ex.wr(st, o, off, m.size(t), fresh(8 * m.size(t), 'static'))

        def go(st):
            for n in names:
                o = self.ex.gobj(m, n)
                self.ex.content(st, o)
                walk(o, st, m.globals[n]['ty'], 0)
        return go

    def func(self, name):
        f = self.ex.funcs.get(name)
        if f is None:
            raise Unsupported('no function %s' % name)
        return f

    def fptr(self, name):
        for (k, (m, f)) in self.ex.funcs.items():
            if (k == name or (isinstance(k, tuple) and k[1] == name)):
                return self.ex.glob_ptr(m, name)
        return self.ex.func_ptr(name)

    def call(self, st, name, args):
        """execute function `name` completely -> final states"""
        m, f = self.func(name)
        if len(f.params) != len(args):
            raise Unsupported('%s takes %d parameters' % (name, len(f.params)))
        st = st.copy()
        self.ex.push(st, m, f, args, None)
        st.edge = None
        return self.go(st)

    def callp(self, st, p, args):
        """execute the function a pointer designates (module function, contract or libc) -> final states"""
        ex = self.ex
        st = st.copy()
        key = p.b.meta.get('key', p.b.name)
        if p.b.name not in ex.contracts and key in ex.funcs:
            m, f = ex.funcs[key]
            ex.push(st, m, f, args[:len(f.params)], None, tuple(args[len(f.params):]))
            st.edge = None
            return self.go(st)
        h = ex.contracts.get(p.b.name) or ex.libc.get(p.b.name)
        if h is None:
            raise Unsupported('call of external function %s' % p.b.name)
        out = []
        for (s, v) in h(ex, st, args, None):
            if s.done is None:
                s.done = ('ret', v)
            out.append(s)
        return out

    def body(self, st, name, args):
        """execute the real body of `name` from the context of a call that uses its contract -> final states.
        Exceptions that leave the function are caught by the outer handler of the run."""
        ex = self.ex
        s = st.copy()
        s.frames = []
        s.edge = None
        s.done = None
        o, prev, b = self.outer
        s.jumps = dict(s.jumps)
        s.jumps[b] = OUTER
        if o not in s.mem:
            raise Unsupported('no outer handler')
        self.gset(s, 'g_pExceptionHandlers', Ptr(o, 0), 8)
        h = ex.contracts.pop(name)
        try:
            m, f = self.func(name)
            ex.push(s, m, f, args, None)
            s.edge = None
            return self.go(s)
        finally:
            ex.contracts[name] = h

    def go(self, st):
        ex = self.ex
        ex.deadline = max(ex.deadline, time.time() + 5)
        exits, backs = ex.run([st])
        out = []
        for s in exits:
            if s.done[0] == 'stop':
                ex.check_stop(s) if hasattr(ex, 'check_stop') else None
                continue
            out.append(s)
        return out

    def again(self, s):
        """clear the completion mark so that another call can follow"""
        r = s.done
        s.done = None
        s.edge = None
        return r

    def check(self, st, cond, name, props, extra=()):
        if self.ex.silent:
            raise RuntimeError('check in silent mode')
        try:
            self.ex.oblige(st, cond, name, props, extra)
            return True
        except PathEnd:
            return False

    def cover(self, sts, name, cond=None):
        """vacuity guard: some final state must be satisfiable"""
        for s in sts:
            if self.ex.q(s, True if cond is None else cond(s))[0] == 'sat':
                self.ex.covers = getattr(self.ex, 'covers', 0) + 1
                return True
        o = Ob()
        o.name = '%s/cover %s' % (self.ex.target, name)
        o.kind = 'cover'
        o.props = tuple(self.safety)
        o.status = 'vacuous'
        o.time = 0
        o.backend = '-'
        o.model = None
        o.where = ''
        self.ex.obs.append(o)
        return False

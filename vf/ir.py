"""Parser for the subset of textual LLVM IR (clang 18, opaque pointers) that clang -O0 produces for C code."""
import re

TOKEN = re.compile(r'''
    (?P<ws>\s+)
  | (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
  | (?P<str>"(?:[^"\\]|\\.)*")
  | (?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
  | (?P<attr>\#[0-9]+)
  | (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[-+]?[0-9]+)?)?|0x[0-9A-Fa-f]+)
  | (?P<dots>\.\.\.)
  | (?P<word>[a-zA-Z_$][-a-zA-Z$._0-9]*)
  | (?P<punct>[\[\](){}<>,=*|:;])
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOKEN.match(s, pos)
        if not m:
            raise IRError("tokenize: %r" % s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        t = m.group()
        if k == 'punct' and t == ';':
            break
        out.append((k, t))
    return out


# ---- types -----------------------------------------------------------------------------------------------------
class Ty:
    __slots__ = ("k", "w", "n", "el", "fields", "name", "packed")

    def __init__(self, k, **kw):
        self.k = k
        self.w = kw.get("w")
        self.n = kw.get("n")
        self.el = kw.get("el")
        self.fields = kw.get("fields")
        self.name = kw.get("name")
        self.packed = kw.get("packed", False)

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.w
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.el)
        if self.k == 'named':
            return '%' + self.name
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.fields))
        return self.k


PTR = Ty('ptr')
VOID = Ty('void')


def INT(w):
    return Ty('int', w=w)


class Instr:
    __slots__ = ("op", "res", "ty", "a", "dbg", "vol", "blk", "idx", "text")

    def __init__(self, op, res=None, ty=None, a=None, dbg=None, vol=False):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.dbg = dbg
        self.vol = vol


class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []
        self.succ = []
        self.pred = []


class Func:
    def __init__(self, name, ret, params, module, linkage):
        self.name = name
        self.ret = ret
        self.params = params      # list of (ty, attrs dict, name)
        self.module = module
        self.linkage = linkage
        self.blocks = {}
        self.order = []
        self.varargs = False
        self.entry = None
        self.dbg = None


class Module:
    def __init__(self, name):
        self.name = name
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.md = {}

    # -- layout
    def resolve(self, t):
        while t.k == 'named':
            t = self.types[t.name]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            return max(1, min(8, (t.w + 7) // 8)) if t.w not in (128,) else 16
        if t.k == 'ptr':
            return 8
        if t.k == 'arr':
            return self.align(t.el)
        if t.k == 'struct':
            if t.packed:
                return 1
            return max([self.align(f) for f in t.fields] or [1])
        if t.k == 'double':
            return 8
        if t.k == 'float':
            return 4
        raise IRError("align %r" % t)

    def size(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            b = (t.w + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return a
        if t.k == 'ptr':
            return 8
        if t.k == 'arr':
            return t.n * self.size(t.el)
        if t.k == 'struct':
            off = 0
            for f in t.fields:
                if not t.packed:
                    a = self.align(f)
                    off = (off + a - 1) // a * a
                off += self.size(f)
            a = self.align(t)
            return (off + a - 1) // a * a
        if t.k == 'double':
            return 8
        if t.k == 'float':
            return 4
        raise IRError("size %r" % t)

    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, f in enumerate(t.fields):
            if not t.packed:
                a = self.align(f)
                off = (off + a - 1) // a * a
            if j == i:
                return off
            off += self.size(f)
        raise IRError("field %d of %r" % (i, t))

    def line(self, dbg):
        """Source line of a !dbg attachment."""
        if dbg is None:
            return None
        m = self.md.get(dbg)
        if m and m[0] == 'DILocation':
            return int(m[1].get('line', 0))
        return None

    # -- debug info
    def struct_members(self, name):
        """[(field name, byte offset, byte size)] of C struct/typedef `name` according to the debug info."""
        for k, m in self.md.items():
            if m[0] in ('DICompositeType',) and m[1].get('tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type') \
               and m[1].get('name') == '"%s"' % name and 'elements' in m[1]:
                return self._members(m)
        for k, m in self.md.items():
            if m[0] == 'DIDerivedType' and m[1].get('tag') == 'DW_TAG_typedef' and m[1].get('name') == '"%s"' % name:
                b = self.md.get(m[1].get('baseType'))
                if b and b[0] == 'DICompositeType' and 'elements' in b[1]:
                    return self._members(b)
        return None

    def _members(self, m):
        out = []
        els = self.md.get(m[1]['elements'])
        for e in els[1]:
            d = self.md.get(e)
            if d and d[0] == 'DIDerivedType' and d[1].get('tag') == 'DW_TAG_member':
                off = int(d[1].get('offset', '0')) // 8
                out.append((d[1].get('name', '""').strip('"'), off, int(d[1].get('size', '0')) // 8))
        return out


class P:
    """Token cursor."""
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        t = self.t[self.i][1]
        self.i += 1
        return t

    def eat(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.eat(s):
            raise IRError("expected %r got %r in %r" % (s, self.peek(), ' '.join(x[1] for x in self.t)))

    def done(self):
        return self.i >= len(self.t)

    # -- types
    def ty(self):
        t = self.next()
        if t == '[':
            n = int(self.next())
            self.expect('x')
            el = self.ty()
            self.expect(']')
            r = Ty('arr', n=n, el=el)
        elif t == '{':
            f = []
            if not self.eat('}'):
                f.append(self.ty())
                while self.eat(','):
                    f.append(self.ty())
                self.expect('}')
            r = Ty('struct', fields=f)
        elif t == '<':
            if self.peek() == '{':
                r = self.ty()
                r.packed = True
                self.expect('>')
            else:
                raise IRError("vector type")
        elif t[0] == '%':
            r = Ty('named', name=t[1:].strip('"'))
        elif t == 'ptr':
            r = PTR
        elif t == 'void':
            r = VOID
        elif re.match(r'^i\d+$', t):
            r = INT(int(t[1:]))
        elif t in ('double', 'float', 'x86_fp80', 'label', 'metadata', 'token', 'opaque'):
            r = Ty(t)
        else:
            raise IRError("type %r in %r" % (t, ' '.join(x[1] for x in self.t)))
        while self.peek() == '(':   # function type: RET (args...)
            depth = 0
            while True:
                x = self.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
            r = Ty('func', el=r)
        return r

    ATTR_WORDS = {"noundef", "zeroext", "signext", "noalias", "nocapture", "readonly", "readnone", "writeonly", "nonnull",
                  "returned", "inreg", "nofree", "immarg", "noreturn", "nounwind", "inrange", "nest", "dead_on_unwind",
                  "writable", "allocalign", "allocptr", "noext", "captures"}

    def attrs(self):
        out = {}
        while True:
            w = self.peek()
            if w in self.ATTR_WORDS:
                self.next()
                out[w] = True
                if self.peek() == '(':
                    self._skip_paren()
            elif w in ('sret', 'byval', 'elementtype', 'byref', 'inalloca', 'preallocated'):
                self.next()
                self.expect('(')
                t = self.ty()
                self.expect(')')
                out[w] = t
            elif w == 'align':
                self.next()
                if self.eat('('):
                    self.next()
                    self.expect(')')
                else:
                    self.next()
            elif w in ('dereferenceable', 'dereferenceable_or_null', 'range', 'initializes', 'nofpclass'):
                self.next()
                self._skip_paren()
            else:
                return out

    def _skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            d += x == '('
            d -= x == ')'

    # -- values; returns operand tuple
    def val(self, ty):
        k, t = self.t[self.i]
        self.i += 1
        if k == 'local':
            return ('reg', t[1:].strip('"'))
        if k == 'glob':
            return ('glob', t[1:].strip('"'))
        if k == 'num':
            if ty.k in ('double', 'float'):
                return ('fp', t)
            return ('int', int(t, 0))
        if k == 'cstr':
            return ('bytes', _cstr(t))
        if t == 'true':
            return ('int', 1)
        if t == 'false':
            return ('int', 0)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            self.expect('(')
            sty = self.ty()
            self.expect(',')
            ops = [self.tyval()]
            while self.eat(','):
                ops.append(self.tyval())
            self.expect(')')
            return ('cgep', sty, ops)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            a = self.tyval()
            self.expect('to')
            to = self.ty()
            self.expect(')')
            return ('ccast', t, a, to)
        if t in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[t]
            els = []
            if t == '<' and self.peek() == '{':
                self.next()
                if self.peek() != '}':
                    els.append(self.tyval())
                    while self.eat(','):
                        els.append(self.tyval())
                self.expect('}')
                self.expect('>')
                return ('agg', els)
            if self.peek() != close:
                els.append(self.tyval())
                while self.eat(','):
                    els.append(self.tyval())
            self.expect(close)
            return ('agg', els)
        raise IRError("value %r in %r" % (t, ' '.join(x[1] for x in self.t)))

    def tyval(self):
        ty = self.ty()
        self.attrs()
        return (ty, self.val(ty))


def _cstr(t):
    s = t[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('latin-1')
            i += 1
    return bytes(out)


LINKAGE = {"private", "internal", "external", "common", "dso_local", "unnamed_addr", "local_unnamed_addr", "hidden",
           "weak", "linkonce_odr", "linkonce", "available_externally", "default", "protected", "dso_preemptable",
           "thread_local", "externally_initialized", "extern_weak", "appending", "weak_odr"}


def parse_module(text, name):
    mod = Module(name)
    lines = text.split('\n')
    i = 0
    cur = None
    blk = None
    while i < len(lines):
        ln = lines[i]
        i += 1
        s = ln.strip()
        if not s or s[0] == ';':
            continue
        if cur is not None:
            if s == '}':
                cur = None
                continue
            m = re.match(r'^("?[-a-zA-Z$._0-9]+"?):(\s|$)', ln)
            if m:
                blk = Block(m.group(1).strip('"'))
                cur.blocks[blk.name] = blk
                cur.order.append(blk.name)
                continue
            if 'llvm.dbg.' in s:
                continue
            # switch spans several lines
            if re.match(r'^switch ', s) and s.endswith('['):
                while True:
                    x = lines[i].strip()
                    i += 1
                    s += ' ' + x
                    if x.startswith(']'):
                        break
            ins = parse_instr(s, mod)
            if ins is None:
                continue
            if blk is None:
                blk = Block(cur_entry_name(cur))
                cur.blocks[blk.name] = blk
                cur.order.append(blk.name)
            ins.blk = blk.name
            ins.idx = len(blk.ins)
            ins.text = s
            blk.ins.append(ins)
            continue
        if s[0] == '%':
            m = re.match(r'^%("?[^" ]+"?) = type (.*)$', s)
            if m:
                if m.group(2).strip() == 'opaque':
                    mod.types[m.group(1).strip('"')] = Ty('opaque')
                else:
                    p = P(tokenize(m.group(2)), mod)
                    mod.types[m.group(1).strip('"')] = p.ty()
            continue
        if s[0] == '@':
            parse_global(s, mod)
            continue
        if s.startswith('define '):
            cur = parse_header(s, mod, True)
            blk = None
            continue
        if s.startswith('declare '):
            f = parse_header(s, mod, False)
            mod.decls[f.name] = f
            continue
        if s[0] == '!':
            parse_md(s, mod)
            continue
    for f in mod.funcs.values():
        finish(f)
    return mod


def cur_entry_name(f):
    # clang numbers the implicit entry block after the parameters
    n = 0
    for (_, _, nm) in f.params:
        if nm is not None and nm.isdigit():
            n = max(n, int(nm) + 1)
    return str(n)


def parse_global(s, mod):
    m = re.match(r'^@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', s)
    name = m.group(1).strip('"')
    # cut metadata / alignment suffix after initializer by the cursor
    p = P(tokenize(m.group(2)), mod)
    link = set()
    while p.peek() in LINKAGE or p.peek() == 'addrspace':
        w = p.next()
        link.add(w)
        if p.peek() == '(':
            p._skip_paren()
    kind = p.next()
    if kind not in ('global', 'constant'):
        return   # alias/ifunc
    ty = p.ty()
    init = None
    if not p.done() and p.peek() != ',' and 'external' not in link:
        init = p.val(ty)
    mod.globals[name] = dict(ty=ty, init=init, const=kind == 'constant',
                             internal=bool(link & {'internal', 'private'}), external='external' in link)


def parse_header(s, mod, isdef):
    p = P(tokenize(s.rstrip('{').strip()), mod)
    p.next()
    link = set()
    while True:
        w = p.peek()
        if w in LINKAGE or w in ('fastcc', 'ccc', 'coldcc'):
            link.add(p.next())
            if p.peek() == '(':
                p._skip_paren()
        elif w in P.ATTR_WORDS or w in ('dereferenceable', 'align', 'dereferenceable_or_null', 'range'):
            p.attrs()
        else:
            break
    ret = p.ty()
    while ret.k == 'func':
        ret = ret.el
    k, nm = p.t[p.i]
    if k != 'glob':
        raise IRError("header " + s)
    p.i += 1
    # the type parser swallows "(...)" only after a type, so the parameter list is still here
    f = Func(nm[1:].strip('"'), ret, [], mod, link)
    p.expect('(')
    idx = 0
    while not p.eat(')'):
        if p.eat('...'):
            f.varargs = True
            continue
        ty = p.ty()
        at = p.attrs()
        nmv = None
        if p.kind() == 'local':
            nmv = p.next()[1:].strip('"')
        elif isdef:
            nmv = str(idx)
        idx += 1
        f.params.append((ty, at, nmv))
        p.eat(',')
    while not p.done():
        if p.peek() == '!dbg':
            p.next()
            f.dbg = p.next()
        else:
            p.next()
    if isdef:
        mod.funcs[f.name] = f
    return f


def parse_md(s, mod):
    m = re.match(r'^(!\d+) = (?:distinct )?(.*)$', s)
    if not m:
        return
    key, body = m.groups()
    m2 = re.match(r'^!(DI[A-Za-z]+)\((.*)\)$', body)
    if m2:
        d = {}
        for kv in re.finditer(r'([a-zA-Z]+): ("(?:[^"\\]|\\.)*"|[^,"]+)(?:, |$)', m2.group(2)):
            d[kv.group(1)] = kv.group(2).strip()
        mod.md[key] = (m2.group(1), d)
        return
    if body.startswith('!{'):
        mod.md[key] = ('list', re.findall(r'!\d+', body))


def strip_dbg(s):
    dbg = None
    m = re.search(r', !dbg (!\d+)', s)
    if m:
        dbg = m.group(1)
    s = re.sub(r', ![a-zA-Z_.]+ !\d+', '', s)
    return s, dbg


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'}


def parse_instr(s, mod):
    s, dbg = strip_dbg(s)
    p = P(tokenize(s), mod)
    res = None
    if p.kind() == 'local' and p.peek(1) == '=':
        res = p.next()[1:].strip('"')
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'alloca':
        ty = p.ty()
        n = None
        if p.eat(',') and p.kind() != 'word':
            n = p.tyval()
        elif p.peek() not in (None, 'align') :
            n = p.tyval()
        return Instr('alloca', res, ty, [n] if n else [], dbg)
    if op == 'load':
        vol = p.eat('volatile')
        ty = p.ty()
        p.expect(',')
        ptr = p.tyval()
        return Instr('load', res, ty, [ptr], dbg, vol)
    if op == 'store':
        vol = p.eat('volatile')
        v = p.tyval()
        p.expect(',')
        ptr = p.tyval()
        return Instr('store', None, v[0], [v, ptr], dbg, vol)
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        ty = p.ty()
        ops = []
        while p.eat(','):
            ops.append(p.tyval())
        return Instr('gep', res, ty, ops, dbg)
    if op in BINOPS:
        fl = set()
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            fl.add(p.next())
        ty = p.ty()
        a = p.val(ty)
        p.expect(',')
        b = p.val(ty)
        r = Instr('bin', res, ty, [op, (ty, a), (ty, b), fl], dbg)
        return r
    if op == 'icmp':
        p.eat('samesign')
        pred = p.next()
        ty = p.ty()
        a = p.val(ty)
        p.expect(',')
        b = p.val(ty)
        return Instr('icmp', res, ty, [pred, (ty, a), (ty, b)], dbg)
    if op in CASTS:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        a = p.tyval()
        p.expect('to')
        to = p.ty()
        return Instr('cast', res, to, [op, a], dbg)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return Instr('br', None, None, [p.next()[1:].strip('"')], dbg)
        c = p.tyval()
        p.expect(',')
        p.expect('label')
        t = p.next()[1:].strip('"')
        p.expect(',')
        p.expect('label')
        f = p.next()[1:].strip('"')
        return Instr('condbr', None, None, [c, t, f], dbg)
    if op == 'switch':
        v = p.tyval()
        p.expect(',')
        p.expect('label')
        d = p.next()[1:].strip('"')
        p.expect('[')
        cases = []
        while not p.eat(']'):
            cv = p.tyval()
            p.expect(',')
            p.expect('label')
            cases.append((cv[1][1], p.next()[1:].strip('"')))
        return Instr('switch', None, v[0], [v, d, cases], dbg)
    if op == 'ret':
        ty = p.ty()
        if ty.k == 'void':
            return Instr('ret', None, ty, [], dbg)
        return Instr('ret', None, ty, [(ty, p.val(ty))], dbg)
    if op == 'unreachable':
        return Instr('unreachable', dbg=dbg)
    if op == 'phi':
        ty = p.ty()
        inc = []
        while True:
            p.expect('[')
            v = p.val(ty)
            p.expect(',')
            b = p.next()[1:].strip('"')
            p.expect(']')
            inc.append(((ty, v), b))
            if not p.eat(','):
                break
        return Instr('phi', res, ty, inc, dbg)
    if op == 'select':
        c = p.tyval()
        p.expect(',')
        a = p.tyval()
        p.expect(',')
        b = p.tyval()
        return Instr('select', res, a[0], [c, a, b], dbg)
    if op == 'extractvalue':
        a = p.tyval()
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return Instr('extractvalue', res, None, [a, idx], dbg)
    if op == 'insertvalue':
        a = p.tyval()
        p.expect(',')
        b = p.tyval()
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return Instr('insertvalue', res, a[0], [a, b, idx], dbg)
    if op == 'call':
        while p.peek() in ('fastcc', 'ccc', 'nnan', 'fast'):
            p.next()
        p.attrs()
        ret = p.ty()
        if ret.k == 'func':
            ret = ret.el
        if p.peek() == 'asm':
            p.next()
            while p.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'):
                p.next()
            tmpl = p.next()
            return Instr('asm', res, ret, [tmpl], dbg)
        k = p.kind()
        tok = p.next()
        if k == 'local':
            callee = ('reg', tok[1:].strip('"'))
        elif k == 'glob':
            callee = ('glob', tok[1:].strip('"'))
        else:
            raise IRError("callee " + s)
        p.expect('(')
        args = []
        while not p.eat(')'):
            ty = p.ty()
            at = p.attrs()
            if ty.k == 'metadata':
                p.next()
                p.eat(',')
                continue
            args.append((ty, p.val(ty), at))
            p.eat(',')
        return Instr('call', res, ret, [callee, args], dbg)
    if op == 'freeze':
        a = p.tyval()
        return Instr('cast', res, a[0], ['bitcast', a], dbg)
    raise IRError("instr " + s)


def finish(f):
    f.entry = f.order[0]
    for b in f.blocks.values():
        t = b.ins[-1]
        if t.op == 'br':
            b.succ = [t.a[0]]
        elif t.op == 'condbr':
            b.succ = list(dict.fromkeys([t.a[1], t.a[2]]))
        elif t.op == 'switch':
            b.succ = list(dict.fromkeys([t.a[1]] + [c[1] for c in t.a[2]]))
        else:
            b.succ = []
    for b in f.blocks.values():
        for s in b.succ:
            f.blocks[s].pred.append(b.name)
    # reachable, RPO
    seen = set()
    post = []
    stack = [(f.entry, iter(f.blocks[f.entry].succ))]
    seen.add(f.entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(f.blocks[s].succ)))
                break
        else:
            post.append(b)
            stack.pop()
    rpo = list(reversed(post))
    f.rpo = {b: i for i, b in enumerate(rpo)}
    # dominators (iterative)
    dom = {b: set(rpo) for b in rpo}
    dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in f.blocks[b].pred if p in dom]
            nd = set.intersection(*[dom[p] for p in ps]) | {b} if ps else {b}
            if nd != dom[b]:
                dom[b] = nd
                ch = True
    f.dom = dom
    f.loops = {}   # header -> set of blocks
    for b in rpo:
        for s in f.blocks[b].succ:
            if s in dom[b]:
                body = f.loops.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x in body:
                        continue
                    body.add(x)
                    work.extend(p for p in f.blocks[x].pred if p in dom)
            elif f.rpo[s] <= f.rpo[b]:
                raise IRError("irreducible control flow in " + f.name)
    # registers used outside their defining block (phis count as outside)
    defb = {}
    for b in f.blocks.values():
        for ins in b.ins:
            if ins.res is not None:
                defb[ins.res] = b.name
    cross = set()

    def use(v, bn):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == 'reg':
                if defb.get(v[1]) != bn:
                    cross.add(v[1])
            else:
                for x in v:
                    use(x, bn)
        elif isinstance(v, list):
            for x in v:
                use(x, bn)
    for b in f.blocks.values():
        for ins in b.ins:
            if ins.op == 'phi':
                for (v, _) in ins.a:
                    use(v, None)
            elif ins.a:
                use(ins.a, b.name)
    for (_, _, nm) in f.params:
        cross.add(nm)
    # allocas are always kept (they are frame objects)
    f.allocas = {}
    for b in f.blocks.values():
        for ins in b.ins:
            if ins.op == 'alloca':
                cross.add(ins.res)
                f.allocas[ins.res] = ins
    f.cross = cross
    # allocas that never escape: only used as the address of plain loads/stores; and which are accessed volatile
    esc = set()
    vol = set()
    for b in f.blocks.values():
        for ins in b.ins:
            if ins.op == 'load':
                if ins.vol and ins.a[0][1][0] == 'reg':
                    vol.add(ins.a[0][1][1])
                continue
            if ins.op == 'store':
                if ins.a[0][1][0] == 'reg':
                    esc.add(ins.a[0][1][1])
                if ins.vol and ins.a[1][1][0] == 'reg':
                    vol.add(ins.a[1][1][1])
                continue
            if ins.op == 'alloca':
                continue

            def mark(v):
                if isinstance(v, tuple):
                    if len(v) == 2 and v[0] == 'reg':
                        esc.add(v[1])
                    else:
                        for x in v:
                            mark(x)
                elif isinstance(v, list):
                    for x in v:
                        mark(x)
            mark(ins.a if ins.a else [])
    f.regallocas = [a for a in f.allocas if a not in esc and a not in vol]

    f.regw = {}
    f.defblk = defb
    for b in f.blocks.values():
        for ins in b.ins:
            if ins.res is not None and ins.ty is not None:
                t = ins.ty
                if ins.op == 'icmp':
                    f.regw[ins.res] = 1
                elif t.k == 'int':
                    f.regw[ins.res] = t.w
    for (ty, _, nm) in f.params:
        if ty.k == 'int':
            f.regw[nm] = ty.w
    # liveness of the non-escaping allocas (live-in per block)
    ra = set(a for a in f.allocas if a not in esc)
    use_, def_ = {}, {}
    for b in f.blocks.values():
        u, d = set(), set()
        for ins in b.ins:
            if ins.op == 'load' and ins.a[0][1][0] == 'reg' and ins.a[0][1][1] in ra:
                if ins.a[0][1][1] not in d:
                    u.add(ins.a[0][1][1])
            elif ins.op == 'store' and ins.a[1][1][0] == 'reg' and ins.a[1][1][1] in ra:
                if f.module.size(ins.ty) == f.module.size(f.allocas[ins.a[1][1][1]].ty):
                    d.add(ins.a[1][1][1])
                elif ins.a[1][1][1] not in d:
                    u.add(ins.a[1][1][1])
        use_[b.name], def_[b.name] = u, d
    live = {b: set(use_[b]) for b in f.blocks}
    ch = True
    while ch:
        ch = False
        for b in f.blocks.values():
            o = set()
            for sname in b.succ:
                o |= live[sname]
            n = use_[b.name] | (o - def_[b.name])
            if n != live[b.name]:
                live[b.name] = n
                ch = True
    twice = any(ins.op == 'call' and ins.a[0] in (('glob', '_setjmp'), ('glob', 'setjmp'), ('glob', '__sigsetjmp'))
                for b in f.blocks.values() for ins in b.ins)
    f.livein = live
    f.deadable = set() if twice else ra      # a longjmp edge is not in the graph

"""Parser for the textual LLVM IR (clang-18, opaque pointers) of the code under /repo."""
import re, struct as _struct

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b')
    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
    def __repr__(self):
        if self.k == 'i': return 'i%d' % self.a
        if self.k == 'arr': return '[%d x %r]' % (self.a, self.b)
        if self.k == 'named': return '%' + self.a
        if self.k == 'st': return '{%s}' % ', '.join(map(repr, self.a))
        return self.k
    def __eq__(self, o): return isinstance(o, Ty) and repr(self) == repr(o)
    def __hash__(self): return hash(repr(self))

VOID, PTR, DBL, FLT = Ty('void'), Ty('ptr'), Ty('double'), Ty('float')
I1, I8, I16, I32, I64 = (Ty('i', n) for n in (1, 8, 16, 32, 64))
_basic = {'void': VOID, 'ptr': PTR, 'double': DBL, 'float': FLT, 'label': Ty('label'),
          'metadata': Ty('metadata'), 'x86_fp80': Ty('x86_fp80'), 'token': Ty('token')}
_ints = {1: I1, 8: I8, 16: I16, 32: I32, 64: I64}

class ParseError(Exception): pass

_tok = re.compile(r'''\s*(?:
   (?P<str>c"(?:[^"\\]|\\[0-9A-Fa-f]{2})*") | (?P<qname>[%@]"[^"]*") | (?P<name>[%@][-\w.$]+) |
   (?P<num>-?\d+\.\d*(?:[eE][-+]?\d+)?|0x[KLMH]?[0-9A-Fa-f]+|-?\d+) | (?P<word>[A-Za-z_][\w.]*) | (?P<meta>![\w.]*) | (?P<attr>\#\d+) |
   (?P<dots>\.\.\.) | (?P<p>[\[\]{}()<>,=*:|]) | (?P<mstr>"[^"]*") )''', re.X)

def tokenize(s):
    out = []; pos = 0; n = len(s)
    while pos < n:
        m = _tok.match(s, pos)
        if not m:
            if s[pos:].strip() == '': break
            raise ParseError('tokenize: %r' % s[pos:pos+60])
        out.append(m.group(m.lastgroup)); pos = m.end()
    return out

class Toks:
    __slots__ = ('t', 'i')
    def __init__(self, t): self.t, self.i = t, 0
    def peek(self, k=0): return self.t[self.i+k] if self.i+k < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1; return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x: raise ParseError('expected %r got %r in %r' % (x, y, self.t))

def parse_type(ts):
    t = ts.next()
    if t in _basic: r = _basic[t]
    elif t[0] == 'i' and t[1:].isdigit(): r = _ints.get(int(t[1:])) or Ty('i', int(t[1:]))
    elif t[0] == '%': r = Ty('named', t[1:].strip('"'))
    elif t == '[':
        n = int(ts.next()); ts.expect('x'); e = parse_type(ts); ts.expect(']'); r = Ty('arr', n, e)
    elif t == '{':
        fs = []
        if not ts.eat('}'):
            while True:
                fs.append(parse_type(ts))
                if ts.eat('}'): break
                ts.expect(',')
        r = Ty('st', tuple(fs))
    elif t == '<':
        if ts.peek() == '{':
            r0 = parse_type(ts); ts.expect('>'); r = Ty('st', r0.a, 'packed')
        else:
            n = int(ts.next()); ts.expect('x'); e = parse_type(ts); ts.expect('>'); r = Ty('vec', n, e)
    else: raise ParseError('type %r in %r' % (t, ts.t))
    while ts.peek() == '(' and r.k in ('void', 'i', 'double', 'ptr', 'named', 'float', 'st'):
        # function type
        d = 0; save = ts.i; args = []
        ts.next()
        try:
            va = False
            if not ts.eat(')'):
                while True:
                    if ts.eat('...'): va = True; ts.expect(')'); break
                    args.append(parse_type(ts))
                    if ts.eat(')'): break
                    ts.expect(',')
            r = Ty('fn', r, tuple(args))
        except ParseError:
            ts.i = save; break
    return r

_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly',
          'immarg', 'returned', 'nofree', 'nest', 'noinline', 'dso_local', 'inbounds', 'writable', 'local_unnamed_addr', 'dead_on_unwind', 'dead_on_return', 'initializes', 'nnan'}

def skip_attrs(ts):
    """parameter attributes; returns byval type if present"""
    byval = None; sret = None
    while True:
        t = ts.peek()
        if t in _ATTRS: ts.next()
        elif t in ('align', ):
            ts.next()
            if ts.eat('('): ts.next(); ts.expect(')')
            else: ts.next()
        elif t in ('dereferenceable', 'dereferenceable_or_null'):
            ts.next(); ts.expect('('); ts.next(); ts.expect(')')
        elif t in ('byval', 'sret', 'elementtype', 'byref', 'inalloca'):
            ts.next(); ts.expect('('); ty = parse_type(ts); ts.expect(')')
            if t == 'byval': byval = ty
            if t == 'sret': sret = ty
        else: break
    return byval, sret

# ---------------------------------------------------------------- values
# operand representation: ('loc', name) | ('glob', name) | ('int', v) | ('dbl', float) | ('null',) | ('undef',) | ('zero',)
#   | ('gep', srcty, base, [idx]) | ('agg', [(ty,val)...]) | ('str', bytes) | ('cast', op, ty, val, ty2)
def hexdbl(h):
    return _struct.unpack('>d', bytes.fromhex(h[2:].rjust(16, '0')))[0]

def parse_value(ts, ty):
    t = ts.next()
    if t[0] == '%': return ('loc', t[1:].strip('"'))
    if t[0] == '@': return ('glob', t[1:].strip('"'))
    if t == 'null': return ('null',)
    if t in ('undef', 'poison'): return ('undef',)
    if t == 'zeroinitializer': return ('zero',)
    if t == 'true': return ('int', 1)
    if t == 'false': return ('int', 0)
    if t == 'metadata':
        return ('meta',)
    if t.startswith('c"'):
        b = re.sub(rb'\\([0-9A-Fa-f]{2})', lambda m: bytes([int(m.group(1), 16)]), t[2:-1].encode('latin1'))
        return ('str', b)
    if t[0] in '-0123456789':
        if ty is not None and ty.k in ('double', 'float'):
            return ('dbl', hexdbl(t) if t.startswith('0x') and t[2] not in 'KLMH' else (float(t) if not t.startswith('0x') else 0.0))
        if t.startswith('0x'): return ('dbl', hexdbl(t) if t[2] not in 'KLMH' else 0.0)
        return ('int', int(t))
    if t in ('getelementptr',):
        while ts.peek() in _ATTRS or ts.peek() in ('inrange', 'nuw', 'nusw'): ts.next()
        ts.expect('(')
        sty = parse_type(ts); ts.expect(',')
        bty = parse_type(ts); base = parse_value(ts, bty)
        idx = []
        while ts.eat(','):
            ity = parse_type(ts); idx.append((ity, parse_value(ts, ity)))
        ts.expect(')')
        return ('gep', sty, base, idx)
    if t in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext'):
        ts.expect('('); ty1 = parse_type(ts); v = parse_value(ts, ty1); ts.expect('to'); ty2 = parse_type(ts); ts.expect(')')
        return ('cast', t, ty1, v, ty2)
    if t in ('sub', 'add', 'mul', 'icmp', 'and', 'or'):
        return ('undef',)
    if t in ('[', '{', '<'):
        close = {'[': ']', '{': '}', '<': '>'}[t]
        if t == '<' and ts.peek() == '{':
            v = parse_value(ts, None); ts.expect('>'); return v
        out = []
        if not ts.eat(close):
            while True:
                ety = parse_type(ts); skip_attrs(ts); out.append((ety, parse_value(ts, ety)))
                if ts.eat(close): break
                ts.expect(',')
        return ('agg', out)
    raise ParseError('value %r in %r' % (t, ' '.join(ts.t)))

# ---------------------------------------------------------------- instructions
class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'b', 'c', 'd', 'line', 'flags', 'dbg')
    def __init__(self, op, res=None, ty=None, a=None, b=None, c=None, d=None, flags=(), line=''):
        self.op, self.res, self.ty, self.a, self.b, self.c, self.d, self.flags, self.line = op, res, ty, a, b, c, d, flags, line
        self.dbg = None
    def __repr__(self): return self.line

class Block:
    __slots__ = ('name', 'insts', 'term', 'succs')
    def __init__(self, name): self.name, self.insts, self.term, self.succs = name, [], None, []

class Func:
    def __init__(self, name, ret, params, vararg, internal):
        self.name, self.ret, self.params, self.vararg, self.internal = name, ret, params, vararg, internal
        self.blocks = {}; self.order = []; self.entry = None; self.dbg = None; self.mod = None
        self._loops = None

class Global:
    def __init__(self, name, ty, init, const, internal):
        self.name, self.ty, self.init, self.const, self.internal = name, ty, init, const, internal

class Module:
    def __init__(self):
        self.types = {}; self.globals = {}; self.funcs = {}; self.decls = {}; self.file = None
        self.dl = {}; self.srclines = {}
    # ---- data layout (x86-64)
    def resolve(self, ty):
        while ty.k == 'named': ty = self.types[ty.a]
        return ty
    def sizeof(self, ty):
        ty = self.resolve(ty); k = ty.k
        if k == 'i': return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(ty.a, (ty.a + 7)//8)
        if k in ('ptr', 'double'): return 8
        if k == 'float': return 4
        if k == 'x86_fp80': return 16
        if k == 'arr': return ty.a * self.sizeof(ty.b)
        if k == 'vec': return ty.a * self.sizeof(ty.b)
        if k == 'st': return self.layout(ty)[0]
        raise ParseError('sizeof %r' % ty)
    def alignof(self, ty):
        ty = self.resolve(ty); k = ty.k
        if k in ('arr',): return self.alignof(ty.b)
        if k == 'vec': return self.sizeof(ty)
        if k == 'st':
            if ty.b == 'packed': return 1
            return max([self.alignof(f) for f in ty.a] or [1])
        return self.sizeof(ty)
    def layout(self, ty):
        ty = self.resolve(ty); key = id(ty)
        if key in self.dl: return self.dl[key]
        off = 0; offs = []; al = 1
        for f in ty.a:
            a = 1 if ty.b == 'packed' else self.alignof(f); al = max(al, a)
            off = (off + a - 1)//a*a; offs.append(off); off += self.sizeof(f)
        off = (off + al - 1)//al*al
        self.dl[key] = (off, offs); return self.dl[key]

_flagwords = {'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg'}
_binops = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
           'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
_casts = {'sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr', 'bitcast', 'fpext', 'fptrunc'}

def parse_inst(line):
    dbg = None
    p = line.find(', !')
    if p >= 0:
        md = re.search(r'!dbg !(\d+)', line[p:])
        if md: dbg = int(md.group(1))
    q = p
    s = line if p < 0 else line[:p]
    # a ", !" may only be metadata suffix in what we parse (dbg calls are dropped earlier)
    ts = Toks(tokenize(s))
    res = None
    if ts.peek(1) == '=':
        res = ts.next()[1:].strip('"'); ts.next()
    op = ts.next()
    if op in ('tail', 'musttail', 'notail'): op = ts.next()
    I = None
    if op in _binops:
        flags = []
        while ts.peek() in _flagwords: flags.append(ts.next())
        ty = parse_type(ts); a = parse_value(ts, ty); ts.expect(','); b = parse_value(ts, ty)
        I = Inst(op, res, ty, a, b, flags=flags)
    elif op == 'fneg':
        while ts.peek() in _flagwords: ts.next()
        ty = parse_type(ts); I = Inst(op, res, ty, parse_value(ts, ty))
    elif op in ('icmp', 'fcmp'):
        while ts.peek() in _flagwords: ts.next()
        pred = ts.next(); ty = parse_type(ts); a = parse_value(ts, ty); ts.expect(','); b = parse_value(ts, ty)
        I = Inst(op, res, ty, a, b, pred)
    elif op in _casts:
        while ts.peek() in _flagwords: ts.next()
        ty = parse_type(ts); a = parse_value(ts, ty); ts.expect('to'); ty2 = parse_type(ts)
        I = Inst(op, res, ty2, a, b=ty)
    elif op == 'freeze':
        ty = parse_type(ts); I = Inst('freeze', res, ty, parse_value(ts, ty))
    elif op == 'load':
        ts.eat('volatile')
        ty = parse_type(ts); ts.expect(','); parse_type(ts); a = parse_value(ts, PTR); I = Inst(op, res, ty, a)
    elif op == 'store':
        ts.eat('volatile')
        ty = parse_type(ts); a = parse_value(ts, ty); ts.expect(','); parse_type(ts); b = parse_value(ts, PTR)
        I = Inst(op, None, ty, a, b)
    elif op == 'getelementptr':
        while ts.peek() in _ATTRS or ts.peek() in ('inrange', 'nuw', 'nusw'): ts.next()
        sty = parse_type(ts); ts.expect(','); parse_type(ts); base = parse_value(ts, PTR); idx = []
        while ts.eat(','):
            ity = parse_type(ts); idx.append((ity, parse_value(ts, ity)))
        I = Inst(op, res, PTR, sty, base, idx)
    elif op == 'alloca':
        ty = parse_type(ts); n = ('int', 1)
        if ts.eat(','):
            if ts.peek() != 'align':
                nty = parse_type(ts); n = parse_value(ts, nty)
        I = Inst(op, res, PTR, ty, n)
    elif op == 'br':
        if ts.peek() == 'label':
            ts.next(); I = Inst('br', a=ts.next()[1:].strip('"'))
        else:
            ty = parse_type(ts); c = parse_value(ts, ty); ts.expect(','); ts.expect('label'); x = ts.next()[1:].strip('"')
            ts.expect(','); ts.expect('label'); y = ts.next()[1:].strip('"')
            I = Inst('cbr', a=c, b=x, c=y)
    elif op == 'switch':
        ty = parse_type(ts); v = parse_value(ts, ty); ts.expect(','); ts.expect('label'); dflt = ts.next()[1:].strip('"')
        ts.expect('['); cases = []
        while not ts.eat(']'):
            t2 = parse_type(ts); cv = parse_value(ts, t2); ts.expect(','); ts.expect('label'); cases.append((cv[1], ts.next()[1:].strip('"')))
        I = Inst('switch', ty=ty, a=v, b=dflt, c=cases)
    elif op == 'ret':
        ty = parse_type(ts)
        I = Inst('ret', ty=ty, a=None if ty.k == 'void' else parse_value(ts, ty))
    elif op == 'unreachable': I = Inst('unreachable')
    elif op == 'phi':
        while ts.peek() in _flagwords: ts.next()
        ty = parse_type(ts); inc = []
        while True:
            ts.expect('['); v = parse_value(ts, ty); ts.expect(','); l = ts.next()[1:].strip('"'); ts.expect(']'); inc.append((v, l))
            if not ts.eat(','): break
        I = Inst('phi', res, ty, inc)
    elif op == 'select':
        while ts.peek() in _flagwords: ts.next()
        parse_type(ts); c = parse_value(ts, I1); ts.expect(','); ty = parse_type(ts); a = parse_value(ts, ty); ts.expect(',')
        parse_type(ts); b = parse_value(ts, ty); I = Inst('select', res, ty, c, a, b)
    elif op == 'call':
        while ts.peek() in _flagwords: ts.next()
        skip_attrs(ts)
        ty = parse_type(ts)
        rty = ty.a if ty.k == 'fn' else ty
        skip_attrs(ts)
        if ts.peek() == 'asm': I = Inst('asm', res, rty)
        else:
            callee = parse_value(ts, PTR); ts.expect('('); args = []
            if not ts.eat(')'):
                while True:
                    aty = parse_type(ts)
                    if aty.k == 'metadata':
                        d = 0
                        while not (d == 0 and ts.peek() in (',', ')')):
                            t = ts.next()
                            if t == '(': d += 1
                            if t == ')': d -= 1
                        args.append((aty, ('meta',), None))
                    else:
                        bv, sr = skip_attrs(ts); args.append((aty, parse_value(ts, aty), bv))
                    if ts.eat(')'): break
                    ts.expect(',')
            I = Inst('call', res, rty, callee, args)
    elif op == 'extractvalue':
        ty = parse_type(ts); a = parse_value(ts, ty); idx = []
        while ts.eat(','): idx.append(int(ts.next()))
        I = Inst(op, res, ty, a, idx)
    elif op == 'insertvalue':
        ty = parse_type(ts); a = parse_value(ts, ty); ts.expect(','); t2 = parse_type(ts); b = parse_value(ts, t2); idx = []
        while ts.eat(','): idx.append(int(ts.next()))
        I = Inst(op, res, ty, a, b, idx)
    elif op == 'va_arg':
        parse_type(ts); a = parse_value(ts, PTR); ts.expect(','); ty = parse_type(ts); I = Inst(op, res, ty, a)
    else:
        I = Inst('unknown:' + op, res, line=s)
    I.line = s.strip(); I.dbg = dbg
    return I

_def = re.compile(r'^define\s+(.*?)\{\s*$')
_fname = re.compile(r'@("[^"]+"|[-\w.$]+)\(')

def _parse_sig(s):
    m = _fname.search(s)
    head, name = s[:m.start()], m.group(1).strip('"')
    internal = bool(re.search(r'\b(internal|private)\b', head))
    words = {'dso_local', 'internal', 'external', 'private', 'hidden', 'local_unnamed_addr', 'unnamed_addr', 'weak', 'linkonce_odr', 'linkonce',
             'weak_odr', 'noundef', 'noalias', 'zeroext', 'signext', 'nonnull', 'inreg', 'mustprogress', 'noundef', 'declare', 'define', 'available_externally', 'comdat'}
    ts = Toks(tokenize(re.sub(r'(dereferenceable|dereferenceable_or_null|align)\(?\s*\d+\)?', '', head)))
    while ts.peek() in words: ts.next()
    try: ret = parse_type(ts)
    except Exception: ret = VOID
    rest = s[m.end():]
    # find matching paren
    d = 1; i = 0
    while d:
        c = rest[i]
        if c == '(': d += 1
        elif c == ')': d -= 1
        i += 1
    ps = rest[:i-1]; params = []; va = False
    if ps.strip():
        ts = Toks(tokenize(ps)); k = 0
        while True:
            if ts.eat('...'): va = True; break
            ty = parse_type(ts); bv, sr = skip_attrs(ts)
            nm = None
            if ts.peek() and ts.peek()[0] == '%': nm = ts.next()[1:].strip('"')
            params.append((nm if nm is not None else str(k), ty, bv)); k += 1
            if not ts.eat(','): break
    tail = rest[i:]
    return name, ret, params, va, internal, tail

def parse_module(path, text=None):
    M = Module(); M.file = path
    if text is None:
        with open(path, encoding='latin1') as f: text = f.read()
    lines = text.split('\n'); n = len(lines); i = 0
    meta = {}
    while i < n:
        ln = lines[i]; i += 1
        if not ln: continue
        c = ln[0]
        if c == '%':
            m = re.match(r'^%("[^"]+"|[-\w.$]+) = type (.*)$', ln)
            if m:
                if m.group(2).strip() == 'opaque': M.types[m.group(1).strip('"')] = Ty('opaque')
                else: M.types[m.group(1).strip('"')] = parse_type(Toks(tokenize(m.group(2))))
        elif c == '@':
            m = re.match(r'^@("[^"]+"|[-\w.$]+) = (.*)$', ln)
            if not m: continue
            body = m.group(2)
            p = body.find(', !dbg')
            if p > 0 and 'c"' not in body[p:]: body = body[:p]
            mm = re.match(r'((?:(?:private|internal|external|common|dso_local|unnamed_addr|local_unnamed_addr|weak|linkonce_odr|constant|global|thread_local(?:\(\w+\))?|hidden|alias) )+)(.*)$', body)
            if not mm: continue
            kw = mm.group(1).split()
            M.globals[m.group(1).strip('"')] = Global(m.group(1).strip('"'), None, (mm.group(2), 'external' in kw), 'constant' in kw, 'internal' in kw or 'private' in kw)
            M.globals[m.group(1).strip('"')].tls = any(k.startswith('thread_local') for k in kw)
        elif ln.startswith('define'):
            m = _def.match(ln)
            name, ret, params, va, internal, tail = _parse_sig(ln)
            F = Func(name, ret, params, va, internal); F.mod = M
            md = re.search(r'!dbg !(\d+)', tail); F.dbgid = int(md.group(1)) if md else None
            body = []
            while lines[i] != '}':
                body.append(lines[i]); i += 1
            i += 1
            F.body = body; M.funcs[name] = F
        elif ln.startswith('declare'):
            try:
                name, ret, params, va, internal, tail = _parse_sig(ln); M.decls[name] = (ret, params, va)
            except Exception: pass
        elif c == '!':
            m = re.match(r'^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', ln)
            if m: meta[int(m.group(1))] = int(m.group(2))
            else:
                m = re.match(r'^!(\d+) = distinct !DISubprogram\(.*?line: (\d+)', ln)
                if m: meta[int(m.group(1))] = int(m.group(2))
    M.srclines = meta
    return M

def global_init(M, g):
    G = M.globals[g]
    if G.ty is None:
        txt, ext = G.init
        ts = Toks(tokenize(re.sub(r', align \d+.*$', '', txt) if not txt.rstrip().endswith('"') else txt))
        G.ty = parse_type(ts)
        G.val = None if ext or ts.peek() is None else parse_value(ts, G.ty)
    return G.ty, G.val

def func_blocks(F):
    """parse the body lazily"""
    if F.entry is not None: return F
    cur = None
    body = F.body; k = 0
    while k < len(body):
        ln = body[k]; k += 1
        s = ln.strip()
        if not s or s.startswith(';'): continue
        if ln[0] not in ' \t':
            m = re.match(r'^("[^"]+"|[-\w.$]+):', ln)
            nm = m.group(1).strip('"')
            cur = Block(nm); F.blocks[nm] = cur; F.order.append(nm)
            if F.entry is None: F.entry = nm
            continue
        if cur is None:
            nm = str(len([p for p in F.params if p[0].isdigit()])) if False else '0entry'
            cur = Block(nm); F.blocks[nm] = cur; F.order.append(nm); F.entry = nm
        if s.startswith('switch') and '[' in s and ']' not in s:
            while True:
                ln2 = body[k]; k += 1; s += ' ' + ln2.strip()
                if ']' in ln2: break
        if 'call void @llvm.dbg.' in s or 'call void @llvm.lifetime' in s or 'llvm.experimental.noalias' in s: continue
        I = parse_inst(s)
        if I.op in ('br', 'cbr', 'switch', 'ret', 'unreachable'):
            cur.term = I
            if I.op == 'br': cur.succs = [I.a]
            elif I.op == 'cbr': cur.succs = [I.b, I.c] if I.b != I.c else [I.b]
            elif I.op == 'switch':
                seen = []
                for l in [I.b] + [x[1] for x in I.c]:
                    if l not in seen: seen.append(l)
                cur.succs = seen
        else: cur.insts.append(I)
    # drop unreachable blocks
    reach = set(); st = [F.entry]
    while st:
        b = st.pop()
        if b in reach: continue
        reach.add(b); st += F.blocks[b].succs
    F.order = [b for b in F.order if b in reach]
    F.blocks = {b: F.blocks[b] for b in F.order}
    for b in F.order:
        for I in F.blocks[b].insts:
            if I.op == 'phi': I.a = [(v, l) for v, l in I.a if l in reach]
    return F

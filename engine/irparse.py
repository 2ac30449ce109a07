"""Parser for the subset of LLVM-18 textual IR produced by the extraction pipeline."""
import re

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'el', 'els', 'packed', 'name', 'size', 'align', 'offs')
    def __init__(self, k, n=0, el=None, els=None, packed=False, name=None):
        self.k = k; self.n = n; self.el = el; self.els = els; self.packed = packed
        self.name = name; self.size = None; self.align = None; self.offs = None
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'vec': return '<%d x %r>' % (self.n, self.el)
        if self.k == 'struct': return self.name or '{%s}' % ','.join(map(repr, self.els or []))
        return self.k

_INT = {}
def INT(n):
    t = _INT.get(n)
    if t is None:
        t = _INT[n] = Ty('int', n)
        b = (n + 7) // 8
        s = 1
        while s < b: s *= 2
        t.size = s; t.align = min(s, 16)
    return t
PTR = Ty('ptr'); PTR.size = PTR.align = 8
VOID = Ty('void'); VOID.size = 0; VOID.align = 1
FLOAT = Ty('float'); FLOAT.size = FLOAT.align = 4
DOUBLE = Ty('double'); DOUBLE.size = DOUBLE.align = 8
HALF = Ty('half'); HALF.size = HALF.align = 2
X80 = Ty('x86_fp80'); X80.size = X80.align = 16
LABEL = Ty('label'); META = Ty('metadata')

def layout(t):
    if t.size is not None:
        return t.size
    if t.k == 'arr':
        t.size = layout(t.el) * t.n; t.align = t.el.align
    elif t.k == 'vec':
        t.size = layout(t.el) * t.n; t.align = t.size
    elif t.k == 'struct':
        if t.els is None:
            t.size = 0; t.align = 1; t.offs = []
            return 0
        o = 0; al = 1; offs = []
        for e in t.els:
            layout(e)
            a = 1 if t.packed else e.align
            o = (o + a - 1) // a * a
            offs.append(o)
            o += e.size
            al = max(al, a)
        o = (o + al - 1) // al * al
        t.size = o; t.align = al; t.offs = offs
    else:
        raise IRError('layout of %s' % t.k)
    return t.size

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<gid>@(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
 | (?P<lid>%(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
 | (?P<sym>[\[\]{}()<>,=*:|])
)''', re.X)

class Lex:
    def __init__(self, s):
        self.s = s; self.toks = []
        pos = 0; n = len(s)
        while pos < n:
            if s[pos] == ';': break
            m = TOK.match(s, pos)
            if not m:
                if s[pos:].strip() == '' or s[pos:].lstrip().startswith(';'): break
                raise IRError('lex: %r' % s[pos:pos+60])
            pos = m.end()
            k = m.lastgroup
            self.toks.append((k, m.group(k)))
        self.i = 0
    def peek(self, o=0):
        j = self.i + o
        return self.toks[j][1] if j < len(self.toks) else None
    def kind(self, o=0):
        j = self.i + o
        return self.toks[j][0] if j < len(self.toks) else None
    def next(self):
        t = self.toks[self.i]; self.i += 1
        return t[1]
    def accept(self, v):
        if self.i < len(self.toks) and self.toks[self.i][1] == v:
            self.i += 1
            return True
        return False
    def expect(self, v):
        if not self.accept(v):
            raise IRError('expected %r got %r in %s' % (v, self.peek(), self.s[:200]))
    def done(self):
        return self.i >= len(self.toks)

class Const:      # constant operand kinds
    __slots__ = ('k', 'v', 'ty')
    def __init__(self, k, v, ty): self.k = k; self.v = v; self.ty = ty
    def __repr__(self): return 'C(%s,%r)' % (self.k, self.v)
# operand: ('l', name) local, Const

class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'x')
    def __init__(self, op, res, ty, a, x=None):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.x = x; self.dbg = None

class Block:
    __slots__ = ('name', 'phis', 'insts', 'term', 'succ', 'preds')
    def __init__(self, name):
        self.name = name; self.phis = []; self.insts = []; self.term = None; self.succ = []; self.preds = []

class Func:
    def __init__(self, name):
        self.name = name; self.params = []; self.ret = None; self.blocks = {}; self.order = []
        self.dbg = None; self.body = None; self.varargs = False; self._parsed = False; self.attrs = ''
        self._cfg = None

class Global:
    def __init__(self, name): self.name = name; self.ty = None; self.init = None; self.const = False; self.ext = False

PATTRS = {'noundef','nonnull','signext','zeroext','inreg','noalias','nocapture','readonly','readnone','writeonly',
          'returned','nest','swiftself','immarg','nofree','allocptr','allocalign','noinline','writable','dead_on_unwind','nocapture','noreturn','nounwind','willreturn','memory'}
PATTRSP = {'align','dereferenceable','dereferenceable_or_null','byval','sret','elementtype','byref','preallocated','inalloca','captures','range'}
FNFLAGS = {'nnan','ninf','nsz','arcp','contract','afn','reassoc','fast','nuw','nsw','exact','inbounds','tail','musttail','notail','disjoint','nneg','samesign'}
CCS = {'fastcc','ccc','coldcc'}

def unq(n):
    n = n[1:]
    if n.startswith('"'): n = n[1:-1]
    return n

class Module:
    def __init__(self, text):
        self.types = {}; self.globals = {}; self.funcs = {}; self.aliases = {}
        self.meta = {}
        self.lines = text.split('\n')
        self.parse()

    # ------------------------------------------------ types
    def ty(self, lx):
        t = self._ty0(lx)
        while True:
            if lx.peek() == '(' and t.k != 'struct' or (lx.peek() == '(' and lx.peek(1) in ('...',)):
                # function type: only valid after call; leave to the caller
                break
            break
        return t
    def _ty0(self, lx):
        k = lx.kind(); v = lx.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit(): return INT(int(v[1:]))
            if v == 'ptr':
                if lx.peek() == 'addrspace':
                    lx.next(); lx.expect('('); lx.next(); lx.expect(')')
                return PTR
            if v == 'void': return VOID
            if v == 'float': return FLOAT
            if v == 'double': return DOUBLE
            if v == 'half': return HALF
            if v == 'x86_fp80': return X80
            if v == 'label': return LABEL
            if v == 'metadata': return META
            if v == 'opaque': return Ty('struct', els=[])
            raise IRError('type word %s' % v)
        if v == '[':
            n = int(lx.next()); lx.expect('x'); e = self._ty0(lx); lx.expect(']')
            return Ty('arr', n, e)
        if v == '<':
            if lx.peek() == '{':
                lx.next(); els = self._tylist(lx, '}'); lx.expect('>')
                return Ty('struct', els=els, packed=True)
            n = int(lx.next()); lx.expect('x'); e = self._ty0(lx); lx.expect('>')
            return Ty('vec', n, e)
        if v == '{':
            return Ty('struct', els=self._tylist(lx, '}'))
        if k == 'lid':
            nm = unq(v)
            t = self.types.get(nm)
            if t is None:
                t = self.types[nm] = Ty('struct', els=None, name=nm)
            return t
        raise IRError('type tok %r in %s' % (v, lx.s[:120]))
    def _tylist(self, lx, close):
        els = []
        if lx.accept(close): return els
        while True:
            els.append(self._ty0(lx))
            if lx.accept(close): return els
            lx.expect(',')

    def istype(self, lx):
        k = lx.kind(); v = lx.peek()
        if k == 'word':
            return v in ('ptr','void','float','double','half','x86_fp80','label','metadata') or (v[0] == 'i' and v[1:].isdigit())
        return v in ('[', '<', '{') or k == 'lid'

    # ------------------------------------------------ constants / operands
    def operand(self, lx, ty):
        k = lx.kind(); v = lx.peek()
        if k == 'lid':
            lx.next(); return ('l', unq(v))
        return self.const(lx, ty)
    def const(self, lx, ty):
        k = lx.kind(); v = lx.next()
        if k == 'gid': return Const('g', unq(v), ty)
        if k == 'num':
            if ty.k == 'int':
                return Const('i', int(v) & ((1 << ty.n) - 1), ty)
            return Const('f', v, ty)
        if k == 'word':
            if v == 'true': return Const('i', 1, ty)
            if v == 'false': return Const('i', 0, ty)
            if v == 'null': return Const('i', 0, ty)
            if v in ('undef', 'poison'): return Const('undef', None, ty)
            if v == 'zeroinitializer': return Const('zero', None, ty)
            if v == 'none': return Const('zero', None, ty)
            if v == 'getelementptr':
                while lx.peek() in ('inbounds', 'nuw', 'nusw'): lx.next()
                lx.expect('('); bt = self._ty0(lx); lx.expect(',')
                args = []
                while True:
                    if lx.peek() == 'inrange': lx.next()
                    t = self._ty0(lx); args.append((t, self.const(lx, t)))
                    if lx.accept(')'): break
                    lx.expect(',')
                return Const('gep', (bt, args), PTR)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
                lx.expect('('); t = self._ty0(lx); c = self.const(lx, t); lx.expect('to'); t2 = self._ty0(lx); lx.expect(')')
                return Const('cast', (v, c), t2)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr'):
                while lx.peek() in FNFLAGS: lx.next()
                lx.expect('('); t = self._ty0(lx); a = self.const(lx, t); lx.expect(','); t2 = self._ty0(lx); b = self.const(lx, t2); lx.expect(')')
                return Const('bin', (v, a, b), t)
            if v == 'icmp':
                p = lx.next(); lx.expect('('); t = self._ty0(lx); a = self.const(lx, t); lx.expect(','); t2 = self._ty0(lx); b = self.const(lx, t2); lx.expect(')')
                return Const('icmp', (p, a, b), INT(1))
            if v == 'select':
                lx.expect('('); t = self._ty0(lx); c = self.const(lx, t); lx.expect(','); t2 = self._ty0(lx); a = self.const(lx, t2); lx.expect(','); t3 = self._ty0(lx); b = self.const(lx, t3); lx.expect(')')
                return Const('select', (c, a, b), t2)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return self.const(lx, ty)
            if v == 'blockaddress': raise IRError('blockaddress')
        if k == 'str' and v.startswith('c"'):
            s = v[2:-1]; out = bytearray(); i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i+1] == '\\': out.append(92); i += 2
                    else: out.append(int(s[i+1:i+3], 16)); i += 3
                else:
                    out.append(ord(s[i])); i += 1
            return Const('str', bytes(out), ty)
        if v == '[' or v == '{' or v == '<':
            if v == '<' and lx.peek() == '{':
                lx.next(); els = self._clist(lx, '}'); lx.expect('>')
            else:
                els = self._clist(lx, {'[': ']', '{': '}', '<': '>'}[v])
            return Const('agg', els, ty)
        raise IRError('const %r in %s' % (v, lx.s[:160]))
    def _clist(self, lx, close):
        els = []
        if lx.accept(close): return els
        while True:
            t = self._ty0(lx); els.append(self.const(lx, t))
            if lx.accept(close): return els
            lx.expect(',')

    def skip_attrs(self, lx):
        while True:
            v = lx.peek()
            if v in PATTRS: lx.next()
            elif v in PATTRSP:
                lx.next()
                if lx.accept('('):
                    d = 1
                    while d:
                        t = lx.next()
                        if t == '(': d += 1
                        elif t == ')': d -= 1
                elif v == 'align': lx.next()
            elif lx.kind() == 'attr': lx.next()
            elif lx.kind() == 'str' : 
                lx.next()
                if lx.accept('='): lx.next()
            else: return

    # ------------------------------------------------ top level
    def parse(self):
        L = self.lines; i = 0; n = len(L)
        # types first
        for ln in L:
            if ln.startswith('%') and ' = type ' in ln:
                nm, rest = ln.split(' = type ', 1)
                nm = unq(nm.strip())
                lx = Lex(rest)
                t = self._ty0(lx)
                u = self.types.get(nm)
                if u is None:
                    u = self.types[nm] = Ty('struct', name=nm)
                u.els = t.els; u.packed = t.packed
        while i < n:
            ln = L[i]
            if ln.startswith('@'):
                self.parse_global(ln)
            elif ln.startswith('define '):
                j = i
                while not L[j].startswith('}'): j += 1
                f = self.parse_header(ln)
                f.body = (i + 1, j)
                self.funcs[f.name] = f
                i = j
            elif ln.startswith('declare '):
                f = self.parse_header(ln)
                if f.name not in self.funcs: self.funcs[f.name] = f
            elif ln.startswith('!') and ' = ' in ln:
                a, b = ln.split(' = ', 1)
                self.meta[a[1:]] = b
            i += 1

    def parse_global(self, ln):
        lx = Lex(ln)
        name = unq(lx.next()); lx.expect('=')
        g = Global(name)
        while True:
            v = lx.peek()
            if v == 'alias':
                lx.next(); t = self._ty0(lx)
                if lx.accept('('):
                    while lx.next() != ')': pass
                lx.expect(','); t2 = self._ty0(lx)
                self.aliases[name] = self.const(lx, t2)
                return
            if v in ('global', 'constant'):
                g.const = v == 'constant'; lx.next(); break
            if v in ('external', 'extern_weak', 'available_externally'):
                g.ext = v != 'available_externally'
            lx.next()
            if v in ('thread_local', 'addrspace') and lx.peek() == '(':
                while lx.next() != ')': pass
        g.ty = self._ty0(lx)
        if not g.ext and not lx.done() and lx.peek() != ',':
            g.init = self.const(lx, g.ty)
        self.globals[name] = g

    def parse_header(self, ln):
        # strip trailing '{'
        at = ln.index('@')
        pre = ln[:at]
        lx = Lex(ln.rstrip().rstrip('{'))
        lx.next()
        rt = None
        # skip linkage words until a type
        while True:
            self.skip_attrs(lx)
            if self.istype(lx):
                rt = self._ty0(lx); break
            lx.next()
        self.skip_attrs(lx)
        name = unq(lx.next())
        f = Func(name); f.ret = rt
        lx.expect('(')
        if not lx.accept(')'):
            idx = 0
            while True:
                if lx.accept('...'):
                    f.varargs = True
                else:
                    t = self._ty0(lx)
                    sret = None
                    byval = None
                    save = lx.i
                    # detect byval type
                    while True:
                        v = lx.peek()
                        if v == 'byval':
                            lx.next(); lx.expect('('); byval = self._ty0(lx); lx.expect(')')
                            continue
                        o = lx.i
                        if v in PATTRS or v in PATTRSP or lx.kind() in ('attr',):
                            self.skip_attrs_one(lx)
                            continue
                        break
                    pn = None
                    if lx.kind() == 'lid': pn = unq(lx.next())
                    else: pn = str(idx)
                    f.params.append((t, pn, byval)); idx += 1
                if lx.accept(')'): break
                lx.expect(',')
        m = re.search(r'!dbg !(\d+)', ln)
        if m: f.dbg = m.group(1)
        f.unnamed = all(True for _ in [0])
        return f
    def skip_attrs_one(self, lx):
        v = lx.next()
        if v in PATTRSP:
            if lx.accept('('):
                d = 1
                while d:
                    t = lx.next()
                    if t == '(': d += 1
                    elif t == ')': d -= 1
            elif v == 'align': lx.next()

    # ------------------------------------------------ function bodies (lazy)
    def body(self, f):
        if f._parsed: return f
        if f.body is None: return None
        s, e = f.body
        cur = None
        lines = []
        i = s
        # join continued lines (switch tables, calls with arg lists over lines)
        while i < e:
            ln = self.lines[i]
            if ln.strip() == '' : i += 1; continue
            if ln.lstrip().startswith('switch ') and ']' not in ln.split('[', 1)[1]:
                j = i + 1
                while not self.lines[j].strip().startswith(']'): ln += ' ' + self.lines[j]; j += 1
                ln += ' ' + self.lines[j]; i = j
            lines.append(ln); i += 1
        # implicit first block name
        nparam = sum(1 for _ in f.params)
        first = True
        for ln in lines:
            if not ln.startswith(' '):
                m = re.match(r'^("(?:[^"])*"|[-a-zA-Z$._0-9]+):', ln)
                if m:
                    nm = m.group(1)
                    if nm.startswith('"'): nm = nm[1:-1]
                    cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm); first = False
                    continue
            if cur is None:
                # entry block unnamed: its number = count of unnamed params
                nm = '%entry'
                cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm)
            ins = self.inst(ln)
            if ins is None: continue
            if ins.op == 'phi': cur.phis.append(ins)
            elif ins.op in ('ret', 'br', 'switch', 'unreachable', 'condbr'):
                cur.term = ins; cur.insts.append(ins)
            else: cur.insts.append(ins)
        if f.order[0] == '%entry':
            # numbered entry label: references use the number; alias it
            cnt = sum(1 for (_, p, _b) in f.params if p.isdigit())
            if str(cnt) not in f.blocks:
                b = f.blocks.pop('%entry'); b.name = str(cnt)
                f.blocks[str(cnt)] = b; f.order[0] = str(cnt)
        for b in f.blocks.values():
            t = b.term
            if t.op == 'br': b.succ = [t.a[0]]
            elif t.op == 'condbr': b.succ = [t.a[1], t.a[2]]
            elif t.op == 'switch': b.succ = [t.a[1]] + [x[1] for x in t.a[2]]
        for b in f.blocks.values():
            for s_ in b.succ: f.blocks[s_].preds.append(b.name)
        f._parsed = True
        return f

    def inst(self, ln):
        m = re.search(r', !dbg !(\d+)', ln)
        dbg = m.group(1) if m else None
        ln2 = re.sub(r'(, ![a-zA-Z_.]+ !\d+)+\s*$', '', ln)
        ln2 = re.sub(r', !srcloc !\d+', '', ln2)
        lx = Lex(ln2)
        if lx.done(): return None
        ins = self._inst(lx)
        ins.dbg = dbg
        return ins

    def _tv(self, lx):
        t = self._ty0(lx)
        return t, self.operand(lx, t)

    def _inst(self, lx):
        res = None
        if lx.kind() == 'lid' and lx.peek(1) == '=':
            res = unq(lx.next()); lx.next()
        op = lx.next()
        if op in ('tail', 'musttail', 'notail'): op = lx.next()
        fl = set()
        if op in ('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'):
            while lx.peek() in FNFLAGS: fl.add(lx.next())
            t, a = self._tv(lx); lx.expect(','); b = self.operand(lx, t)
            return Inst('bin', res, t, [a, b], (op, fl))
        if op == 'fneg':
            while lx.peek() in FNFLAGS: lx.next()
            t, a = self._tv(lx)
            return Inst('fneg', res, t, [a])
        if op in ('icmp', 'fcmp'):
            while lx.peek() in FNFLAGS: lx.next()
            p = lx.next(); t, a = self._tv(lx); lx.expect(','); b = self.operand(lx, t)
            return Inst(op, res, t, [a, b], p)
        if op in ('trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast','addrspacecast'):
            while lx.peek() in FNFLAGS: lx.next()
            t, a = self._tv(lx); lx.expect('to'); t2 = self._ty0(lx)
            return Inst('cast', res, t2, [a], (op, t))
        if op == 'load':
            if lx.peek() == 'atomic': lx.next()
            if lx.peek() == 'volatile': lx.next()
            t = self._ty0(lx); lx.expect(','); pt, p = self._tv(lx)
            return Inst('load', res, t, [p])
        if op == 'store':
            if lx.peek() == 'atomic': lx.next()
            if lx.peek() == 'volatile': lx.next()
            t, v = self._tv(lx); lx.expect(','); pt, p = self._tv(lx)
            return Inst('store', None, t, [v, p])
        if op == 'getelementptr':
            while lx.peek() in ('inbounds','nuw','nusw'): lx.next()
            bt = self._ty0(lx); lx.expect(',')
            pt, p = self._tv(lx)
            idx = []
            while lx.accept(','):
                idx.append(self._tv(lx))
            return Inst('gep', res, PTR, [p], (bt, idx))
        if op == 'alloca':
            if lx.peek() == 'inalloca': lx.next()
            t = self._ty0(lx); cnt = None
            if lx.accept(','):
                if lx.peek() != 'align':
                    cnt = self._tv(lx)
            return Inst('alloca', res, PTR, [cnt], t)
        if op == 'phi':
            while lx.peek() in FNFLAGS: lx.next()
            t = self._ty0(lx); inc = []
            while True:
                lx.expect('['); v = self.operand(lx, t); lx.expect(','); b = unq(lx.next()); lx.expect(']')
                inc.append((v, b))
                if not lx.accept(','): break
            return Inst('phi', res, t, inc)
        if op == 'select':
            while lx.peek() in FNFLAGS: lx.next()
            ct, c = self._tv(lx); lx.expect(','); t, a = self._tv(lx); lx.expect(','); t2, b = self._tv(lx)
            return Inst('select', res, t, [c, a, b], ct)
        if op == 'br':
            if lx.peek() == 'label':
                lx.next(); return Inst('br', None, VOID, [unq(lx.next())])
            t, c = self._tv(lx); lx.expect(','); lx.expect('label'); a = unq(lx.next()); lx.expect(','); lx.expect('label'); b = unq(lx.next())
            return Inst('condbr', None, VOID, [c, a, b])
        if op == 'switch':
            t, v = self._tv(lx); lx.expect(','); lx.expect('label'); d = unq(lx.next()); lx.expect('[')
            cases = []
            while not lx.accept(']'):
                ct, c = self._tv(lx); lx.expect(','); lx.expect('label'); cases.append((c.v, unq(lx.next())))
            return Inst('switch', None, t, [v, d, cases])
        if op == 'ret':
            if lx.peek() == 'void': return Inst('ret', None, VOID, [])
            t, v = self._tv(lx)
            return Inst('ret', None, t, [v])
        if op == 'unreachable': return Inst('unreachable', None, VOID, [])
        if op == 'call':
            while lx.peek() in FNFLAGS or lx.peek() in CCS: lx.next()
            self.skip_attrs(lx)
            rt = self._ty0(lx)
            if lx.peek() == '(':   # function type (varargs)
                d = 0
                while True:
                    v = lx.next()
                    if v == '(': d += 1
                    elif v == ')':
                        d -= 1
                        if d == 0: break
            self.skip_attrs(lx)
            if lx.kind() == 'word' and lx.peek() == 'asm':
                raise IRError('inline asm')
            callee = self.operand(lx, PTR)
            lx.expect('(')
            args = []
            if not lx.accept(')'):
                while True:
                    t = self._ty0(lx)
                    if t is META:
                        # metadata arg: skip to , or )
                        d = 0
                        while not (d == 0 and lx.peek() in (',', ')')):
                            v = lx.next()
                            if v in '([{': d += 1
                            elif v in ')]}': d -= 1
                        args.append((t, None))
                    else:
                        self.skip_attrs(lx)
                        args.append((t, self.operand(lx, t)))
                    if lx.accept(')'): break
                    lx.expect(',')
            return Inst('call', res, rt, [callee, args])
        if op == 'extractvalue':
            t, a = self._tv(lx); idx = []
            while lx.accept(','): idx.append(int(lx.next()))
            return Inst('extractvalue', res, t, [a], idx)
        if op == 'insertvalue':
            t, a = self._tv(lx); lx.expect(','); t2, b = self._tv(lx); idx = []
            while lx.accept(','): idx.append(int(lx.next()))
            return Inst('insertvalue', res, t, [a, b], (idx, t2))
        if op == 'freeze':
            t, a = self._tv(lx)
            return Inst('freeze', res, t, [a])
        if op == 'extractelement':
            t, a = self._tv(lx); lx.expect(','); t2, b = self._tv(lx)
            return Inst('extractelement', res, t, [a, b])
        if op == 'insertelement':
            t, a = self._tv(lx); lx.expect(','); t2, b = self._tv(lx); lx.expect(','); t3, c = self._tv(lx)
            return Inst('insertelement', res, t, [a, b, c])
        if op == 'shufflevector':
            t, a = self._tv(lx); lx.expect(','); t2, b = self._tv(lx); lx.expect(','); t3, c = self._tv(lx)
            return Inst('shufflevector', res, t, [a, b, c], t3)
        if op == 'atomicrmw':
            if lx.peek() == 'volatile': lx.next()
            o = lx.next(); pt, p = self._tv(lx); lx.expect(','); t, v = self._tv(lx)
            return Inst('atomicrmw', res, t, [p, v], o)
        if op == 'cmpxchg':
            while lx.peek() in ('weak', 'volatile'): lx.next()
            pt, p = self._tv(lx); lx.expect(','); t, c = self._tv(lx); lx.expect(','); t2, v = self._tv(lx)
            return Inst('cmpxchg', res, t, [p, c, v])
        if op == 'fence': return Inst('nop', None, VOID, [])
        raise IRError('inst %s: %s' % (op, lx.s[:160]))

    # ------------------------------------------------ debug info
    def dbgloc(self, mid):
        """(file, line, function) of a DILocation id."""
        s = self.meta.get(mid)
        if s is None: return None
        m = re.search(r'DILocation\(line: (\d+)', s)
        if not m: return None
        line = int(m.group(1))
        m = re.search(r'scope: !(\d+)', s)
        sc = m.group(1) if m else None
        f = None; fn = None; hops = 0
        while sc is not None and hops < 40:
            hops += 1
            t = self.meta.get(sc, '')
            if f is None:
                m = re.search(r'file: !(\d+)', t)
                if m: f = self.difile(m.group(1))
            if 'DISubprogram(' in t:
                m = re.search(r'name: "([^"]*)"', t); fn = m.group(1) if m else None
                break
            m = re.search(r'scope: !(\d+)', t)
            sc = m.group(1) if m else None
        return (f, line, fn)
    def difile(self, mid):
        s = self.meta.get(mid, '')
        m = re.search(r'DIFile\(filename: "([^"]*)", directory: "([^"]*)"', s)
        if not m: return None
        fn, d = m.groups()
        return fn if fn.startswith('/') else d + '/' + fn
    def fn_src(self, f):
        if not f.dbg: return None
        s = self.meta.get(f.dbg, '')
        m = re.search(r'file: !(\d+)', s); l = re.search(r'line: (\d+)', s); nm = re.search(r'name: "([^"]*)"', s)
        return (self.difile(m.group(1)) if m else None, int(l.group(1)) if l else 0, nm.group(1) if nm else f.name)

"""irv: contract verifier on LLVM IR. Symbolic values, memory model and executor.

Every path of a contract harness is executed symbolically on the IR extracted from the real source; every
`vp_assert`, every implicit memory-safety condition and every reachable abort is one proof obligation that is
handed to the SMT solver with no bound on the inputs.  See DESIGN.md for the memory model.
"""
import sys, time, re
import z3
from irparse import Module, Const, IRError, INT, PTR, layout, Ty
sys.setrecursionlimit(100000)

M64 = (1 << 64) - 1
BASE_SHIFT = 44

class Undecided(Exception):
    """the engine cannot decide (unsupported construct, loop not summarised, solver unknown)"""
class Fork(Exception):
    def __init__(self, conds): self.conds = conds
class PathEnd(Exception):
    pass

# ------------------------------------------------------------------ values
class Lin:
    """const + sum coef*term modulo 2^64; term = BV64 z3 expr"""
    __slots__ = ('c', 't', '_bv')
    def __init__(self, c, t): self.c = c & M64; self.t = t; self._bv = None
    def bv(self):
        if self._bv is None:
            e = None
            for (x, k) in self.t.values():
                y = x if k == 1 else x * z3.BitVecVal(k, 64)
                e = y if e is None else e + y
            if e is None: e = z3.BitVecVal(self.c, 64)
            elif self.c: e = e + z3.BitVecVal(self.c, 64)
            self._bv = e
        return self._bv
    def key(self):
        return (self.c, tuple(sorted((i, k) for i, (x, k) in self.t.items())))

def lin_norm(l):
    if isinstance(l, Lin) and not l.t: return l.c
    return l
def lin_add(a, b, kb=1):
    """a + kb*b, a,b int or Lin"""
    if isinstance(a, int) and isinstance(b, int): return (a + kb * b) & M64
    ac, at = (a, {}) if isinstance(a, int) else (a.c, a.t)
    bc, bt = (b, {}) if isinstance(b, int) else (b.c, b.t)
    t = dict(at)
    for i, (x, k) in bt.items():
        o = t.get(i)
        nk = ((o[1] if o else 0) + kb * k) & M64
        if nk: t[i] = (x, nk)
        elif i in t: del t[i]
    c = (ac + kb * bc) & M64
    if not t: return c
    return Lin(c, t)
def lin_mul(a, k):
    if isinstance(a, int): return (a * k) & M64
    return lin_norm(Lin(a.c * k, {i: (x, (kk * k) & M64) for i, (x, kk) in a.t.items() if (kk * k) & M64}))
def lin_of(e, depth=0):
    """BV64 expression -> int or Lin"""
    if isinstance(e, int): return e & M64
    k = e.decl().kind()
    if k == z3.Z3_OP_BNUM: return e.as_long()
    if depth < 40:
        if k == z3.Z3_OP_BADD:
            r = 0
            for ch in e.children(): r = lin_add(r, lin_of(ch, depth + 1))
            return r
        if k == z3.Z3_OP_BSUB:
            ch = e.children(); r = lin_of(ch[0], depth + 1)
            for c2 in ch[1:]: r = lin_add(r, lin_of(c2, depth + 1), -1)
            return r
        if k == z3.Z3_OP_BNEG: return lin_mul(lin_of(e.children()[0], depth + 1), -1)
        if k == z3.Z3_OP_BMUL:
            ch = e.children()
            if len(ch) == 2:
                for a, b in ((0, 1), (1, 0)):
                    if ch[a].decl().kind() == z3.Z3_OP_BNUM:
                        return lin_mul(lin_of(ch[b], depth + 1), ch[a].as_long())
        if k == z3.Z3_OP_BSHL:
            ch = e.children()
            if ch[1].decl().kind() == z3.Z3_OP_BNUM:
                s = ch[1].as_long()
                if s < 64: return lin_mul(lin_of(ch[0], depth + 1), 1 << s)
    return Lin(0, {e.get_id(): (e, 1)})
def lin_bv(l):
    return z3.BitVecVal(l & M64, 64) if isinstance(l, int) else l.bv()

class Ptr:
    __slots__ = ('rid', 'off')
    def __init__(self, rid, off): self.rid = rid; self.off = off
    def __repr__(self): return 'Ptr(%d,%s)' % (self.rid, self.off if isinstance(self.off, int) else self.off.bv())

class Undef:
    __slots__ = ('ty',)
    def __init__(self, ty): self.ty = ty

def is_sym(v): return isinstance(v, z3.ExprRef)

def bv(v, w):
    """int / BV / Ptr -> z3 BV of width w"""
    if isinstance(v, int): return z3.BitVecVal(v, w)
    if isinstance(v, Ptr): return z3.BitVecVal((v.rid << BASE_SHIFT), 64) + lin_bv(v.off) if not isinstance(v.off, int) else z3.BitVecVal((v.rid << BASE_SHIFT) + v.off, 64)
    if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v
def boolv(v):
    if isinstance(v, int): return z3.BoolVal(bool(v))
    if isinstance(v, z3.BitVecRef): return v != 0
    return v
def mk_extract(hi, lo, v):
    if isinstance(v, int): return (v >> lo) & ((1 << (hi - lo + 1)) - 1)
    w = v.size()
    if lo == 0 and hi == w - 1: return v
    k = v.decl().kind()
    if k == z3.Z3_OP_CONCAT:
        # narrow down
        pos = w
        for ch in v.children():
            cw = ch.size(); l = pos - cw; h = pos - 1
            if lo >= l and hi <= h:
                return mk_extract(hi - l, lo - l, ch)
            pos = l
    elif k == z3.Z3_OP_EXTRACT:
        l0 = v.params()[1]
        return mk_extract(hi + l0, lo + l0, v.children()[0])
    elif k == z3.Z3_OP_ZERO_EXT:
        ch = v.children()[0]
        if hi < ch.size(): return mk_extract(hi, lo, ch)
        if lo >= ch.size(): return 0
    elif k == z3.Z3_OP_BNUM:
        return (v.as_long() >> lo) & ((1 << (hi - lo + 1)) - 1)
    return z3.Extract(hi, lo, v)
def mk_concat(parts):
    """parts: list of (val,width) little-endian (lowest first)"""
    # merge ints & adjacent extracts
    out = []
    for v, w in parts:
        if out:
            pv, pw = out[-1]
            if isinstance(v, int) and isinstance(pv, int):
                out[-1] = (pv | (v << pw), pw + w); continue
            if is_sym(v) and is_sym(pv) and v.decl().kind() == z3.Z3_OP_EXTRACT and pv.decl().kind() == z3.Z3_OP_EXTRACT:
                a, b = v.children()[0], pv.children()[0]
                if a.eq(b):
                    h1, l1 = v.params(); h0, l0 = pv.params()
                    if l1 == h0 + 1:
                        out[-1] = (mk_extract(h1, l0, a), pw + w); continue
        out.append((v, w))
    if len(out) == 1: return out[0][0]
    return z3.Concat(*[bv(v, w) for v, w in reversed(out)])

# ------------------------------------------------------------------ memory
class Region:
    __slots__ = ('rid', 'name', 'size', 'kind', 'unit', 'count', 'init', 'const', 'initial', 'fn')
    def __init__(self, rid, name, size, kind):
        self.rid = rid; self.name = name; self.size = size; self.kind = kind
        self.unit = None; self.count = None; self.init = ('undef',); self.const = False
        self.initial = None; self.fn = None

class Content:
    __slots__ = ('init', 'cells', 'log')
    def __init__(self, init, cells=None, log=None):
        self.init = init; self.cells = cells if cells is not None else {}; self.log = log
    def copy(self):
        return Content(self.init, dict(self.cells), list(self.log) if self.log is not None else None)

class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'loc', 'prev', 'res', 'allocas', 'iters', 'depth')
    def __init__(self, fn):
        self.fn = fn; self.blk = None; self.ip = 0; self.loc = {}; self.prev = None; self.res = None
        self.allocas = []; self.iters = {}
    def copy(self):
        f = Frame(self.fn)
        f.blk = self.blk; f.ip = self.ip; f.loc = dict(self.loc); f.prev = self.prev; f.res = self.res
        f.allocas = list(self.allocas); f.iters = dict(self.iters)
        return f

class State:
    __slots__ = ('frames', 'mem', 'own', 'dead', 'pc', 'inputs', 'approx', 'nheap', 'ghost')
    def __init__(self):
        self.frames = []; self.mem = {}; self.own = set(); self.dead = frozenset(); self.pc = []
        self.inputs = []; self.approx = (); self.nheap = 0; self.ghost = {}
    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem); self.own = set()
        s.dead = self.dead; s.pc = list(self.pc); s.inputs = list(self.inputs); s.approx = self.approx; s.nheap = self.nheap
        s.ghost = dict(self.ghost)
        return s

class Obl:
    __slots__ = ('label', 'kind', 'loc', 'status', 'model', 'approx', 't', 'backend', 'hname')

FPS = {'half': lambda: z3.FPSort(5, 11), 'float': z3.Float32, 'double': z3.Float64}

class Engine:
    def __init__(self, module, opts=None):
        self.m = module
        self.o = {'max_iter': 80, 'q_ms': 4000, 'q2_ms': 60000, 'max_paths': 4000, 'deadline': None, 'merge': True}
        if opts: self.o.update(opts)
        self.regions = {}
        self.next_rid = 1
        self.greg = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', self.o['q_ms'])
        self.stack = []
        self.cache = {}
        self.keep = []          # keep z3 refs alive (ids are cache keys)
        self.nfresh = 0
        self.obls = []
        self.covers = {}
        self.stats = {'queries': 0, 'solver_s': 0.0, 'paths': 0, 'instrs': 0, 'forks': 0, 'merges': 0, 'escalated': 0, 'maxq': 0.0}
        self.funcs_seen = {}
        self.notes = set()
        self.bounded = set()
        self.loop_hooks = []
        self.seqs = {}
        self.iter_inputs = set()
        if not self.o.get('no_summary'):
            import loops
            self.loop_hooks = [loops.hook]
        self.hname = None
        self.oracle = None
        self.intr = dict(INTRINSICS)
        self.axioms = {}
        self.loops_done = {}
        self.summarising = []
        self.spec = 0
        self.probing = 0
        self.witness = {}

    # -------------------------------------------------------------- solver
    def fresh(self, name, w):
        self.nfresh += 1
        return z3.BitVec('%s!%d' % (name, self.nfresh), w)
    def fresh_bool(self, name):
        self.nfresh += 1
        return z3.Bool('%s!%d' % (name, self.nfresh))

    def sync(self, pc):
        st = self.stack
        n = 0
        L = min(len(st), len(pc))
        while n < L and st[n] is pc[n]: n += 1
        if len(st) > n:
            self.solver.pop(len(st) - n)
            del st[n:]
        for c in pc[n:]:
            self.solver.push(); self.solver.add(c); st.append(c)

    def check(self, pc, extra=None, want_model=False, hard=False):
        """is pc /\\ extra satisfiable: 'sat' / 'unsat' / 'unknown'"""
        if self.o['deadline'] and time.time() > self.o['deadline']:
            raise Undecided('time budget exhausted')
        key = (tuple(c.get_id() for c in pc), extra.get_id() if extra is not None else None)
        if not want_model:
            r = self.cache.get(key)
            if r is not None and not (hard and r == 'unknown'): return r
        if extra is not None: self.keep.append(extra)
        t0 = time.time()
        self.stats['queries'] += 1
        self.sync(pc)
        self.solver.push()
        if extra is not None: self.solver.add(extra)
        r = str(self.solver.check())
        model = self.solver.model() if (r == 'sat' and want_model) else None
        self.solver.pop()
        if r == 'unknown':
            self.stats['escalated'] += 1
            cs = list(pc) + ([extra] if extra is not None else [])
            # relevance filter: a subset of the hypotheses may already be contradictory
            for lim in (30, 80, 200):
                sub = [c for c in pc if self.dag_size(c, 220) <= lim]
                if len(sub) == len(pc): break
                s = z3.SolverFor('QF_AUFBV'); s.set('timeout', self.o['q_ms'])
                s.add(sub)
                if extra is not None: s.add(extra)
                if str(s.check()) == 'unsat': r = 'unsat'; break
        if r == 'unknown' and hard:
            r = self.refute_forgetting(list(pc) + ([extra] if extra is not None else []))
        if r == 'unknown':
            cs = list(pc) + ([extra] if extra is not None else [])
            for tac in (('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'smt'), None):
                s = z3.Then(*tac).solver() if tac else z3.SolverFor('QF_AUFBV')
                s.set('timeout', self.o['q2_ms'] if hard else self.o['q_ms'] * 2)
                s.add(cs)
                r = str(s.check())
                if r != 'unknown':
                    model = s.model() if (r == 'sat' and want_model) else None
                    break
        dt = time.time() - t0
        self.stats['solver_s'] += dt
        self.stats['maxq'] = max(self.stats['maxq'], dt)
        self.cache[key] = r
        for c in pc: self.keep.append(c)
        if want_model: return r, model
        return r

    def refute_forgetting(self, cs):
        """array reads and function values become unknowns (equal terms stay equal): what is contradictory then is contradictory"""
        if sum(self.dag_size(c, 2000) for c in cs) > 20000: return 'unknown'
        s = z3.SolverFor('QF_BV'); s.set('timeout', 45000)
        s.add(self.forget_functions(cs))
        names = {}
        key = (re.sub(r'[\w.]+![\d!]+', lambda m: names.setdefault(m.group(0), '@%d' % len(names)), s.sexpr()))   # up to the names of unknowns
        known = self.__dict__.setdefault('_refuted', {})
        if key not in known: known[key] = str(s.check())
        return 'unsat' if known[key] == 'unsat' else 'unknown'

    def forget_functions(self, cs):
        subs = {}
        def go(x, memo):
            i = x.get_id()
            r = memo.get(i)
            if r is not None: return r
            if z3.is_app(x) and (z3.is_select(x) or (x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args())):
                if z3.is_bv(x): r = z3.BitVec('ff!%d' % i, x.size())
                elif z3.is_bool(x): r = z3.Bool('ff!%d' % i)
                else: r = x
            elif z3.is_app(x) and x.num_args():
                ch = [go(c, memo) for c in x.children()]
                r = x if all(p.eq(q) for p, q in zip(ch, x.children())) else x.decl()(*ch)
            else: r = x
            memo[i] = r
            return r
        return [go(c, subs) for c in cs]

    def dag_size(self, e, lim):
        k = ('dag', e.get_id())
        v = self.cache.get(k)
        if v is not None: return v
        seen = set(); stk = [e]
        while stk and len(seen) < lim:
            x = stk.pop(); i = x.get_id()
            if i in seen: continue
            seen.add(i); stk.extend(x.children())
        self.cache[k] = len(seen)
        return len(seen)

    def must(self, st, cond, filtered=False):
        """pc |= cond ?   filtered: try the small hypotheses first"""
        if isinstance(cond, (bool, int)): return bool(cond)
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if filtered and len(st.pc) > 6:
            for lim in (25, 60):
                sub = [x for x in st.pc if self.dag_size(x, 220) <= lim]
                s = z3.SolverFor('QF_AUFBV'); s.set('timeout', 400)
                s.add(sub); s.add(z3.Not(c))
                t0 = time.time(); r = str(s.check()); self.stats['solver_s'] += time.time() - t0; self.stats['queries'] += 1
                if r == 'unsat': return True
            return self.check(st.pc, z3.Not(c), hard=True) == 'unsat'
        return self.check(st.pc, z3.Not(c)) == 'unsat'
    def may(self, st, cond):
        if isinstance(cond, (bool, int)): return bool(cond)
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self.check(st.pc, c) != 'unsat'
    def assume(self, st, cond):
        if isinstance(cond, (bool, int)):
            if not cond: raise PathEnd()
            return
        c = z3.simplify(cond)
        if z3.is_true(c): return
        if z3.is_false(c): raise PathEnd()
        if self.check(st.pc, c) == 'unsat': raise PathEnd()
        st.pc.append(c)
        self.keep.append(c)

    def oblige(self, st, cond, label, kind, loc=None):
        """proof obligation pc => cond; afterwards cond is assumed"""
        if self.spec:
            # inside a specification function: total logic functions, out-of-range reads are unspecified values
            if isinstance(cond, (bool, int)) and not cond: raise PathEnd()
            return
        if self.probing:
            # exploratory run of a loop body: the obligation is discharged in the final run
            if isinstance(cond, (bool, int)):
                if not cond: raise PathEnd()
                return
            cc = z3.simplify(cond)
            if z3.is_false(cc): raise PathEnd()
            if not z3.is_true(cc): st.pc.append(cc); self.keep.append(cc)
            return
        o = Obl(); o.label = label; o.kind = kind; o.loc = loc or self.where(st); o.model = None
        o.approx = st.approx; o.t = 0.0; o.hname = self.hname; o.backend = 'z3'
        if isinstance(cond, (bool, int)):
            cc = z3.BoolVal(bool(cond))
        else:
            cc = z3.simplify(cond)
        t0 = time.time()
        if z3.is_true(cc):
            o.status = 'proved'; o.backend = 'simplifier'
        else:
            neg = z3.Not(cc)
            r = self.check(st.pc, neg, hard=True)
            if r == 'unsat':
                o.status = 'proved'
                if self.oracle: self.oracle(st.pc, neg, o)
            elif r == 'sat':
                o.status = 'failed'
                o.model = self.small_model(st, neg)
            else:
                o.status = 'unknown'
        o.t = time.time() - t0
        self.obls.append(o)
        if z3.is_false(cc): raise PathEnd()
        if not z3.is_true(cc): self.assume(st, cc)

    def small_model(self, st, neg):
        """a model of pc /\\ neg, preferring short regions"""
        cnts = [it[5] for it in st.inputs if it[0] == 'region' and not isinstance(it[5], int)]
        # inputs named n, n1, size... are counts: keep them small so that the native replay can allocate them
        cnts += [z3.ZeroExt(64 - it[2], it[3]) if it[2] < 64 else it[3] for it in st.inputs if it[0] == 'any' and it[2] > 8 and (it[1].rstrip('0123456789') in ('n', 'num', 'size', 'len', 'cnt'))]
        n0 = z3.BoolVal(True) if neg is None else neg
        for lim in ((8, 64, 2048, 8192, 1 << 20, None) if cnts else (None,)):
            c = n0 if lim is None else z3.And(n0, *[z3.ULE(x, z3.BitVecVal(lim, 64)) for x in cnts])
            r, mod = self.check(st.pc, c, want_model=True)
            if r == 'sat' and mod is not None: return self.extract_model(st, mod)
        return None

    def extract_model(self, st, mod):
        out = []
        for it in st.inputs:
            if it[0] == 'any':
                v = mod.eval(it[3], model_completion=True)
                if isinstance(it[3], z3.BoolRef): out.append(['any', it[1], it[2], 1 if z3.is_true(v) else 0])
                else: out.append(['any', it[1], it[2], v.as_long()])
            elif it[0] == 'region':
                _, name, rid, arr, unit, cnt = it
                n = cnt if isinstance(cnt, int) else mod.eval(cnt, model_completion=True).as_long()
                data = []
                for i in range(min(n, 4096)):
                    data.append(mod.eval(z3.Select(arr, z3.BitVecVal(i, 64)), model_completion=True).as_long())
                out.append(['region', name, unit, n, data])
            elif it[0] == 'uf':
                out.append(['uf', it[1]])
        return out

    def where(self, st):
        # innermost location with debug info, preferring /repo
        best = None
        for f in reversed(st.frames):
            b = f.fn.blocks.get(f.blk) if f.fn._parsed else None
            if b is None or f.ip >= len(b.insts): continue
            d = b.insts[f.ip].dbg
            if d is None: continue
            l = self.m.dbgloc(d)
            if l is None: continue
            if best is None: best = l
            if l[0] and l[0].startswith('/repo/'): return l
        return best

    # -------------------------------------------------------------- regions
    def new_region(self, st, name, size, kind, init=('undef',)):
        rid = self.next_rid; self.next_rid += 1
        r = Region(rid, name, size, kind); r.init = init
        self.regions[rid] = r
        if st is not None:
            st.mem[rid] = Content(init); st.own.add(rid)
        return r
    def content(self, st, rid):
        c = st.mem.get(rid)
        if c is None:
            r = self.regions[rid]
            c = r.initial
            if c is None: c = r.initial = Content(r.init)
        return c
    def wcontent(self, st, rid):
        c = self.content(st, rid)
        if rid not in st.own:
            c = c.copy(); st.mem[rid] = c; st.own.add(rid)
        return c
    def global_region(self, name):
        rid = self.greg.get(name)
        if rid is not None: return rid
        if name in self.m.aliases:
            v = self.constval(self.m.aliases[name])
            self.greg[name] = v.rid
            return v.rid
        if name in self.m.funcs:
            r = self.new_region(None, '@' + name, 1, 'func'); r.fn = name; r.const = True
            self.greg[name] = r.rid
            return r.rid
        g = self.m.globals.get(name)
        if g is None: raise Undecided('unknown global ' + name)
        try: sz = layout(g.ty)
        except IRError: sz = 8
        r = self.new_region(None, '@' + name, sz, 'global')
        r.const = g.const
        self.greg[name] = r.rid
        c = Content(('zero',) if g.init is not None else ('undef',))
        if g.init is not None:
            self.flatten(c, 0, g.init, g.ty)
        r.initial = c
        r.init = c.init
        return r.rid
    def flatten(self, c, off, k, ty):
        if k.k == 'zero': return
        if k.k == 'undef': return
        if k.k == 'str':
            for i, b in enumerate(k.v): c.cells[off + i] = (1, b)
            return
        if k.k == 'agg':
            if ty.k in ('arr', 'vec'):
                es = layout(ty.el)
                for i, e in enumerate(k.v): self.flatten(c, off + i * es, e, ty.el)
            else:
                layout(ty)
                for i, e in enumerate(k.v): self.flatten(c, off + ty.offs[i], e, ty.els[i])
            return
        v = self.constval(k)
        c.cells[off] = (layout(ty), v)

    # -------------------------------------------------------------- constants
    def fconst(self, k):
        import struct
        s = k.v; t = k.ty.k
        if s.startswith('0x'):
            if s[2] in 'KLMHR': raise Undecided('float constant')
            bits = int(s, 16)
            d = struct.unpack('<d', struct.pack('<Q', bits))[0]
        else:
            d = float(s); bits = struct.unpack('<Q', struct.pack('<d', d))[0]
        if t == 'double': return bits
        if t == 'float':
            import math
            if math.isnan(d):
                return ((bits >> 63) << 31) | 0x7f800000 | ((bits >> 29) & 0x7fffff)
            return struct.unpack('<I', struct.pack('<f', d))[0]
        raise Undecided('float const ' + t)
    def constval(self, k):
        kk = k.k
        if kk == 'i': return k.v
        if kk == 'g': return Ptr(self.global_region(k.v), 0) if k.v not in self.m.aliases else self.constval(self.m.aliases[k.v])
        if kk == 'f': return self.fconst(k)
        if kk == 'undef': return self.undefval(k.ty)
        if kk == 'zero': return self.zeroval(k.ty)
        if kk == 'agg': return [self.constval(e) for e in k.v]
        if kk == 'str': return [b for b in k.v]
        if kk == 'gep':
            bt, args = k.v
            p = self.constval(args[0][1])
            return self.gep(None, p, bt, [(t, self.constval(c)) for t, c in args[1:]])
        if kk == 'cast':
            op, c = k.v
            v = self.constval(c)
            if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'): return v
            if op == 'trunc': return mk_extract(k.ty.n - 1, 0, bv(v, c.ty.n))
            raise Undecided('const cast ' + op)
        if kk == 'bin':
            op, a, b = k.v
            return self.binop(None, op, k.ty.n, self.constval(a), self.constval(b))
        if kk == 'icmp':
            p, a, b = k.v
            return self.icmp(p, a.ty, self.constval(a), self.constval(b))
        if kk == 'select':
            c, a, b = k.v
            cv = self.constval(c)
            return self.constval(a) if cv else self.constval(b)
        raise Undecided('const ' + kk)
    def zeroval(self, ty):
        if ty.k in ('arr', 'vec'): return [self.zeroval(ty.el) for _ in range(ty.n)]
        if ty.k == 'struct': return [self.zeroval(e) for e in ty.els]
        return 0
    def undefval(self, ty):
        if ty.k in ('arr', 'vec'): return [self.undefval(ty.el) for _ in range(ty.n)]
        if ty.k == 'struct': return [self.undefval(e) for e in ty.els]
        return Undef(ty)
    def conc(self, v, ty):
        """materialise undef"""
        if isinstance(v, Undef):
            if ty.k == 'int':
                return self.fresh_bool('undef') if ty.n == 1 else self.fresh('undef', ty.n)
            return self.fresh('undef', {'ptr': 64, 'double': 64, 'float': 32, 'half': 16}[ty.k])
        return v

    # -------------------------------------------------------------- arithmetic
    def val(self, fr, op, ty=None):
        if isinstance(op, tuple):
            try: v = fr.loc[op[1]]
            except KeyError: raise Undecided('undefined local %' + op[1])
            return v
        return self.constval(op)

    def binop(self, st, op, w, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub':
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    if a.rid == b.rid:
                        d = lin_add(a.off, b.off, -1)
                        return d if isinstance(d, int) else d.bv()
                elif isinstance(a, Ptr): return Ptr(a.rid, lin_add(a.off, lin_of(b), -1))
            if op == 'add':
                if isinstance(a, Ptr) and not isinstance(b, Ptr): return Ptr(a.rid, lin_add(a.off, lin_of(b)))
                if isinstance(b, Ptr) and not isinstance(a, Ptr): return Ptr(b.rid, lin_add(b.off, lin_of(a)))
            a = bv(a, w); b = bv(b, w)
            a = z3.simplify(a); b = z3.simplify(b)
            if z3.is_bv_value(a): a = a.as_long()
            if z3.is_bv_value(b): b = b.as_long()
        if w == 1:
            if isinstance(a, int) and isinstance(b, int):
                return {'add': a ^ b, 'sub': a ^ b, 'xor': a ^ b, 'and': a & b, 'or': a | b, 'mul': a & b}[op]
            A = boolv(a); B = boolv(b)
            if op == 'and':
                if isinstance(a, int): return b if a else 0
                if isinstance(b, int): return a if b else 0
                return z3.And(A, B)
            if op == 'or':
                if isinstance(a, int): return 1 if a else b
                if isinstance(b, int): return 1 if b else a
                return z3.Or(A, B)
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, int): return z3.Not(B) if a else b
                if isinstance(b, int): return z3.Not(A) if b else a
                return z3.Xor(A, B)
            if op == 'mul': return z3.And(A, B)
            raise Undecided('i1 ' + op)
        mask = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add': return (a + b) & mask
            if op == 'sub': return (a - b) & mask
            if op == 'mul': return (a * b) & mask
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & mask if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            if op == 'ashr': return (sa >> min(b, w - 1)) & mask
            if b != 0:
                if op == 'udiv': return a // b
                if op == 'urem': return a % b
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0): q = -q
                if op == 'sdiv': return q & mask
                if op == 'srem': return (sa - q * sb) & mask
        # identities
        if isinstance(b, int):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
            if b == 0 and op in ('and', 'mul'): return 0
            if b == mask and op == 'and': return a
            if b == 1 and op in ('mul', 'udiv'): return a
        if isinstance(a, int):
            if a == 0 and op in ('add', 'or', 'xor'): return b
            if a == 0 and op in ('and', 'mul', 'shl', 'lshr'): return 0
            if a == mask and op == 'and': return b
            if a == 1 and op == 'mul': return b
        A = bv(a, w); B = bv(b, w)
        if op == 'add':
            return A + B
        if op == 'sub':
            if A.eq(B): return 0
            return A - B
        if op == 'mul': return A * B
        if op == 'and':
            return A & B
        if op == 'or': return A | B
        if op == 'xor': return A ^ B
        if op in ('shl', 'lshr', 'ashr'):
            r = {'shl': lambda: A << B, 'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B}[op]()
            if isinstance(b, int): return r
            # an over-wide shift is poison: any value
            return z3.If(z3.ULT(B, z3.BitVecVal(w, w)), r, self.fresh('overshift', w))
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if st is not None:
                if not (isinstance(b, int) and b):
                    self.oblige(st, B != 0, 'no division by zero', 'arith')
                if op in ('sdiv', 'srem'):
                    self.oblige(st, z3.Not(z3.And(A == z3.BitVecVal(1 << (w - 1), w), B == z3.BitVecVal(mask, w))), 'no signed division overflow', 'arith')
            return {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda x, y: x / y, 'srem': z3.SRem}[op](A, B)
        raise Undecided('binop ' + op)

    def fbin(self, op, ty, a, b):
        S = FPS[ty.k]()
        w = S.ebits() + S.sbits()
        A = z3.fpBVToFP(bv(a, w), S); B = z3.fpBVToFP(bv(b, w), S)
        rm = z3.RNE()
        r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, A, B)
        return z3.fpToIEEEBV(r)

    def icmp(self, p, ty, a, b):
        if isinstance(a, list):
            return [self.icmp(p, ty.el, x, y) for x, y in zip(a, b)]
        w = 64 if ty.k == 'ptr' else ty.n
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.rid == b.rid:
                a, b = a.off, b.off
                if not isinstance(a, int): a = a.bv()
                if not isinstance(b, int): b = b.bv()
                d = None
                if p in ('eq', 'ne') and not (isinstance(a, int) and isinstance(b, int)):
                    d = lin_add(lin_of(a), lin_of(b), -1)
                    if isinstance(d, int): return int((d == 0) == (p == 'eq'))
            else:
                if p == 'eq': return 0
                if p == 'ne': return 1
                a = (a.rid << BASE_SHIFT); b = (b.rid << BASE_SHIFT)
        elif isinstance(a, Ptr) and isinstance(b, int) and b == 0:
            return {'eq': 0, 'ne': 1, 'ugt': 1, 'ult': 0, 'uge': 1, 'ule': 0}[p]
        elif isinstance(b, Ptr) and isinstance(a, int) and a == 0:
            return {'eq': 0, 'ne': 1, 'ult': 1, 'ugt': 0, 'ule': 1, 'uge': 0}[p]
        if isinstance(a, Ptr): a = z3.simplify(bv(a, 64))
        if isinstance(b, Ptr): b = z3.simplify(bv(b, 64))
        if w == 1:
            if isinstance(a, int) and isinstance(b, int):
                pass
            else:
                A = boolv(a); B = boolv(b)
                if p == 'eq': return A == B
                if p == 'ne': return z3.Xor(A, B)
                if p == 'ult': return z3.And(z3.Not(A), B)
                if p == 'ugt': return z3.And(A, z3.Not(B))
                if p == 'ule': return z3.Or(z3.Not(A), B)
                if p == 'uge': return z3.Or(A, z3.Not(B))
                raise Undecided('icmp i1 ' + p)
        if isinstance(a, int) and isinstance(b, int):
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                        'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[p])
        A = bv(a, w); B = bv(b, w)
        if p == 'eq': return A == B
        if p == 'ne': return A != B
        return {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE, 'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y,
                'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}[p](A, B)

    def fcmp(self, p, ty, a, b):
        S = FPS[ty.k](); w = S.ebits() + S.sbits()
        A = z3.fpBVToFP(bv(a, w), S); B = z3.fpBVToFP(bv(b, w), S)
        un = z3.Or(z3.fpIsNaN(A), z3.fpIsNaN(B))
        if p == 'ord': return z3.Not(un)
        if p == 'uno': return un
        if p == 'true': return 1
        if p == 'false': return 0
        f = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}
        core = p[1:]
        if core == 'ne': c = z3.Not(z3.fpEQ(A, B))
        else: c = f[core](A, B)
        if p[0] == 'o': return z3.And(z3.Not(un), c)
        return z3.Or(un, c)

    def has_counter(self, e):
        i = e.get_id()
        m = self.__dict__.setdefault('_hc', {})
        if i in m: return m[i]
        seen = set(); stk = [e]; r = False
        while stk and not r:
            x = stk.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if len(seen) > 60: break
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('it!'): r = True
            stk.extend(x.children())
        self.keep.append(e); m[i] = r
        return r
    def lift(self, st, v, signed):
        """extension to 64 bits of a narrow expression over loop counters as a linear 64-bit term, when it provably does not wrap"""
        if not is_sym(v) or not isinstance(v, z3.BitVecRef) or v.size() >= 64 or not self.has_counter(v): return None
        w = v.size()
        ok = [False]
        def go(e):
            if z3.is_bv_value(e):
                n = e.as_long()
                return z3.BitVecVal(n - (1 << w) if n >> (w - 1) and signed else n, 64)
            k = e.decl().kind()
            if k == z3.Z3_OP_EXTRACT and e.params() == [w - 1, 0] and e.children()[0].size() == 64 and self.has_counter(e): ok[0] = True; return e.children()[0]
            if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL):
                r = None
                for c in e.children():
                    x = go(c)
                    r = x if r is None else (r + x if k == z3.Z3_OP_BADD else r * x)
                return r
            if k == z3.Z3_OP_BSUB: return go(e.children()[0]) - go(e.children()[1])
            if k == z3.Z3_OP_BNEG: return -go(e.children()[0])
            return z3.SignExt(64 - w, e) if signed else z3.ZeroExt(64 - w, e)
        r = go(v)
        if not ok[0]: return None
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if not self.must(st, z3.And(r >= z3.BitVecVal(lo, 64), r <= z3.BitVecVal(hi, 64))): return None
        r = lin_bv(lin_of(z3.simplify(r)))
        self.keep.append(r)
        return r

    def cast(self, st, op, v, t, t2):
        if isinstance(v, list) and t.k == 'vec' and t2.k == 'vec' and t.n == t2.n:
            return [self.cast(st, op, self.conc(x, t.el), t.el, t2.el) for x in v]
        if op == 'trunc':
            if isinstance(v, int): return v & ((1 << t2.n) - 1)
            if isinstance(v, Ptr): v = bv(v, 64)
            if t2.n == 1: return mk_extract(0, 0, v) == 1 if is_sym(mk_extract(0, 0, v)) else mk_extract(0, 0, v)
            return mk_extract(t2.n - 1, 0, v)
        if op == 'zext':
            if isinstance(v, int): return v
            if t.n == 1: return z3.If(v, z3.BitVecVal(1, t2.n), z3.BitVecVal(0, t2.n))
            if t2.n == 64:
                r = self.lift(st, v, False)
                if r is not None: return r
            return z3.ZeroExt(t2.n - t.n, v)
        if op == 'sext':
            if isinstance(v, int):
                if v >> (t.n - 1): return v | (((1 << t2.n) - 1) ^ ((1 << t.n) - 1))
                return v
            if t.n == 1: return z3.If(v, z3.BitVecVal((1 << t2.n) - 1, t2.n), z3.BitVecVal(0, t2.n))
            if t2.n == 64:
                r = self.lift(st, v, True)
                if r is not None: return r
            return z3.SignExt(t2.n - t.n, v)
        if op in ('ptrtoint',):
            if t2.n == 64: return v
            if isinstance(v, int): return v & ((1 << t2.n) - 1)
            return mk_extract(t2.n - 1, 0, bv(v, 64))
        if op == 'inttoptr':
            if t.n == 64: return v
            if isinstance(v, int): return v
            return z3.ZeroExt(64 - t.n, v)
        if op == 'bitcast':
            if t.k == 'vec' or t2.k == 'vec':
                parts = [(self.conc(x, t.el), t.el.size * 8) for x in v] if t.k == 'vec' else [(v, layout(t) * 8)]
                whole = mk_concat(parts)
                if t2.k == 'vec':
                    w = t2.el.size * 8
                    return [mk_extract((i + 1) * w - 1, i * w, whole) for i in range(t2.n)]
                return whole
            return v
        if op in ('fptosi', 'fptoui'):
            S = FPS[t.k](); w = S.ebits() + S.sbits()
            f = z3.fpBVToFP(bv(v, w), S)
            n = t2.n
            g = self.fresh('fptoi_oob', n)
            # in range test through a rounded-to-integral value
            r = z3.fpRoundToIntegral(z3.RTZ(), f)
            if op == 'fptosi':
                lo = z3.fpRealToFP(z3.RNE(), z3.RealVal(-(1 << (n - 1))), z3.FPSort(15, 113)); hi = z3.fpRealToFP(z3.RNE(), z3.RealVal(1 << (n - 1)), z3.FPSort(15, 113))
                rr = z3.fpFPToFP(z3.RNE(), r, z3.FPSort(15, 113))
                ok = z3.And(z3.Not(z3.fpIsNaN(f)), z3.fpGEQ(rr, lo), z3.fpLT(rr, hi))
                return z3.If(ok, z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(n)), g)
            lo = z3.fpRealToFP(z3.RNE(), z3.RealVal(0), z3.FPSort(15, 113)); hi = z3.fpRealToFP(z3.RNE(), z3.RealVal(1 << n), z3.FPSort(15, 113))
            rr = z3.fpFPToFP(z3.RNE(), r, z3.FPSort(15, 113))
            ok = z3.And(z3.Not(z3.fpIsNaN(f)), z3.fpGEQ(rr, lo), z3.fpLT(rr, hi))
            return z3.If(ok, z3.fpToUBV(z3.RTZ(), f, z3.BitVecSort(n)), g)
        if op in ('sitofp', 'uitofp'):
            S = FPS[t2.k]()
            b_ = bv(v, t.n) if t.n > 1 else z3.If(boolv(v), z3.BitVecVal(1, 2), z3.BitVecVal(0, 2))
            f = (z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP)(z3.RNE(), b_, S)
            return z3.fpToIEEEBV(f)
        if op in ('fpext', 'fptrunc'):
            S = FPS[t.k](); S2 = FPS[t2.k]()
            f = z3.fpBVToFP(bv(v, S.ebits() + S.sbits()), S)
            return z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), f, S2))
        raise Undecided('cast ' + op)

    def ite(self, c, a, b, ty=None):
        """c z3 Bool"""
        if a is b: return a
        if isinstance(a, list):
            return [self.ite(c, x, y, None) for x, y in zip(a, b)]
        if isinstance(a, Undef): return b
        if isinstance(b, Undef): return a
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid:
                d = lin_add(a.off, b.off, -1)
                if d == 0: return a
                return Ptr(a.rid, lin_of(z3.If(c, lin_bv(a.off), lin_bv(b.off))))
            return z3.If(c, bv(a, 64), bv(b, 64))
        if isinstance(a, int) and isinstance(b, int):
            if a == b: return a
            w = ty.n if ty is not None and ty.k == 'int' else (layout(ty) * 8 if ty is not None else None)
            if w is None: raise Undecided('ite width')
            if w == 1: return c if a else z3.Not(c)
            return z3.If(c, z3.BitVecVal(a, w), z3.BitVecVal(b, w))
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            return z3.If(c, boolv(a), boolv(b))
        w = a.size() if is_sym(a) else b.size()
        A = bv(a, w); B = bv(b, w)
        if A.eq(B): return a
        return z3.If(c, A, B)

    # -------------------------------------------------------------- pointers
    def gep(self, st, p, bt, idx):
        off = 0
        t = bt
        for i, (it, v) in enumerate(idx):
            if i == 0:
                sc = layout(t)
            else:
                if t.k == 'struct':
                    layout(t); off = lin_add(off, t.offs[v]); t = t.els[v]; continue
                t = t.el; sc = layout(t)
            if isinstance(v, Undef): v = self.conc(v, it)
            w = it.n
            if isinstance(v, int):
                if v >> (w - 1): v -= (1 << w)
                off = lin_add(off, (v * sc) & M64)
            else:
                if w < 64:
                    r = self.lift(st, v, True)
                    v = z3.SignExt(64 - w, v) if r is None else r
                off = lin_add(off, lin_of(v), sc)
        if isinstance(p, Undef): p = self.conc(p, PTR)
        if isinstance(p, Ptr): return Ptr(p.rid, lin_add(p.off, off))
        if isinstance(p, int):
            if p >> BASE_SHIFT: return Ptr(p >> BASE_SHIFT, lin_add(p & ((1 << BASE_SHIFT) - 1), off))
            if isinstance(off, int): return (p + off) & M64
            return z3.BitVecVal(p, 64) + lin_bv(off)
        if off == 0: return p
        return p + lin_bv(off)

    def resolve(self, st, p, what='access'):
        """-> Ptr; may Fork; obligation failure on invalid pointers"""
        if isinstance(p, Ptr): return p
        if isinstance(p, Undef): p = self.conc(p, PTR)
        if isinstance(p, int):
            rid = p >> BASE_SHIFT
            if rid in self.regions: return Ptr(rid, p & ((1 << BASE_SHIFT) - 1))
            self.oblige(st, False, 'valid pointer (%s through null or wild pointer)' % what, 'memory')
        e = z3.simplify(p)
        if z3.is_bv_value(e): return self.resolve(st, e.as_long(), what)
        # candidate regions by model enumeration
        cands = []
        excl = []
        hi = z3.Extract(63, BASE_SHIFT, e)
        for _ in range(24):
            r, mod = self.check(st.pc + [], z3.And(*excl) if excl else z3.BoolVal(True), want_model=True)
            if r == 'unsat': break
            if r != 'sat': raise Undecided('cannot resolve pointer')
            rid = mod.eval(hi, model_completion=True).as_long()
            cands.append(rid); excl.append(hi != rid)
        else:
            self.oblige(st, False, 'valid pointer (%s through an unconstrained pointer)' % what, 'memory')
        if len(cands) == 1:
            rid = cands[0]
            if rid not in self.regions:
                self.oblige(st, False, 'valid pointer (%s through null or wild pointer)' % what, 'memory')
            off = lin_of(z3.simplify(e - z3.BitVecVal(rid << BASE_SHIFT, 64)))
            r = self.regions[rid]
            if r.unit and r.unit > 1 and self.split_unit(off, r.unit) is None:
                # an element named by an equation the path knows, e.g. p == base + k*unit
                le = lin_of(e)
                for (t, k) in (list(le.t.values()) if isinstance(le, Lin) else []):
                    if k != 1: continue
                    for x in self.known_equals(st, t):
                        o2 = lin_add(lin_add(lin_add(le, lin_of(t), -1), lin_of(x)), rid << BASE_SHIFT, -1)
                        if self.split_unit(o2, r.unit) is not None and self.must(st, t == x): return Ptr(rid, o2)
            return Ptr(rid, off)
        raise Fork([hi == r for r in cands])

    def known_equals(self, st, e):
        """terms some condition of the path equates e with (under whatever guard: the caller proves it)"""
        memo = self.__dict__.setdefault('_eqs', {})
        out = []; seen = set(); eid = e.get_id()
        def eqs(c):
            i = c.get_id()
            m = memo.get(i)
            if m is None:
                m = []
                todo = [c]; vis = set()
                while todo:
                    t = todo.pop()
                    if t.get_id() in vis or not z3.is_app(t) or len(vis) > 400: continue
                    vis.add(t.get_id())
                    if z3.is_eq(t) and z3.is_bv(t.arg(0)):
                        if t.arg(0).size() == 64: m.append((t.arg(0), t.arg(1)))
                        continue
                    if z3.is_bool(t): todo.extend(t.children())
                memo[i] = m; self.keep.append(c)
            return m
        for c in reversed(st.pc):
            for (a, b) in eqs(c):
                for (x, y) in ((a, b), (b, a)):
                    if x.get_id() == eid or z3.simplify(x).get_id() == eid:
                        if y.get_id() not in seen: seen.add(y.get_id()); out.append(y)
        return out[:6]

    def bounds(self, st, ptr, n, what):
        r = self.regions[ptr.rid]
        if ptr.rid in st.dead or (r.kind == 'stack' and ptr.rid not in st.mem):
            self.oblige(st, False, '%s of freed memory (%s)' % (what, r.name), 'memory')
        if r.kind == 'func': self.oblige(st, False, 'valid pointer', 'memory')
        if what == 'write' and r.const:
            self.oblige(st, False, 'write to constant', 'memory')
        off = ptr.off
        if isinstance(off, int) and isinstance(r.size, int):
            ok = off + n <= r.size
            if not ok: self.oblige(st, False, '%s in bounds of %s' % (what, r.name), 'memory')
            return
        if r.unit and r.unit > 1:
            d = self.split_unit(off, r.unit)
            if d is not None and d[1] + n <= r.unit:
                self.oblige(st, z3.ULT(lin_bv(d[0]), bv(r.count, 64)), '%s in bounds of %s' % (what, r.name), 'memory')
                return
        sz = bv(r.size, 64); o = lin_bv(off)
        self.oblige(st, z3.And(z3.UGE(sz, n), z3.ULE(o, sz - z3.BitVecVal(n, 64))), '%s in bounds of %s' % (what, r.name), 'memory')

    @staticmethod
    def split_unit(off, u):
        """off = u*idx + rem with 0<=rem<u, or None (exact only when u*idx does not wrap, guaranteed by bounds)"""
        if isinstance(off, int): return (off // u, off % u)
        t = {}
        for i, (x, k) in off.t.items():
            ks = k - (1 << 64) if k >> 63 else k
            if ks % u: return None
            t[i] = (x, (ks // u) & M64)
        c = off.c - (1 << 64) if off.c >> 63 else off.c
        return (lin_norm(Lin((c // u) & M64, t)), c % u)

    # -------------------------------------------------------------- read / write
    def init_read(self, st, rid, c, off, n):
        k = c.init[0]
        if k == 'zero': return 0
        if k == 'undef' or k == 'symobj':
            if isinstance(off, int):
                return z3.BitVec('m!%d!%d!%d' % (rid, off, n), 8 * n) if (off % n == 0 or True) else None
            arr = z3.Array('ma!%d' % rid, z3.BitVecSort(64), z3.BitVecSort(8))
            self.notes.add('symbolic offset into uninitialised region')
            return mk_concat([(z3.Select(arr, lin_bv(lin_add(off, i))), 8) for i in range(n)])
        if k == 'sym':
            arr, u = c.init[1], c.init[2]
            d = self.split_unit(off, u)
            if d is not None and d[1] + n <= u:
                idx, rem = d
                e = self.select(st, arr, lin_bv(idx))
                return mk_extract((rem + n) * 8 - 1, rem * 8, e)
            if d is not None and d[1] == 0 and n % u == 0:
                return mk_concat([(self.select(st, arr, lin_bv(lin_add(d[0], i))), 8 * u) for i in range(n // u)])
            # byte level
            parts = []
            for i in range(n):
                o = lin_add(off, i)
                d = self.split_unit(o, u)
                if d is not None:
                    e = self.select(st, arr, lin_bv(d[0])); parts.append((mk_extract(d[1] * 8 + 7, d[1] * 8, e), 8))
                else:
                    ob = lin_bv(o); U = z3.BitVecVal(u, 64)
                    e = self.select(st, arr, z3.UDiv(ob, U))
                    rem = z3.URem(ob, U)
                    w = 8 * u
                    sh = (z3.ZeroExt(w - 64, rem) if w > 64 else mk_extract(w - 1, 0, rem)) * 8
                    parts.append((z3.Extract(7, 0, z3.LShR(e, sh)), 8))
            return mk_concat(parts)
        raise Undecided('init ' + k)

    def select(self, st, arr, idx):
        e = z3.Select(arr, idx)
        ax = self.axioms.get(arr.get_id())
        if ax:
            e2 = z3.simplify(e)
            for f in ax:
                c = f(idx, e)
                if c is not None:
                    key = ('ax', c.get_id())
                    if not any(c.eq(x) for x in st.pc[-40:]):
                        st.pc.append(c); self.keep.append(c)
        return e

    def read(self, st, rid, off, n, want_ptr=False):
        c = self.content(st, rid)
        return self.cread(st, rid, c, off, n, want_ptr)

    def cread(self, st, rid, c, off, n, want_ptr=False, logn=None):
        if c.log is None and isinstance(off, int):
            return self.cells_read(st, rid, c, off, n)
        log = c.log or []
        i = len(log) if logn is None else logn
        pend = []     # (cond, val) ite prefix
        res = None
        while i > 0:
            i -= 1
            e = log[i]
            kind, guard, eo, es = e[0], e[1], e[2], e[3]
            if kind == 'havoc':
                if e[5]: st.approx = tuple(sorted(set(st.approx) | {e[5]}))
                res = self.init_read(st, rid, Content(e[4]), off, n); break
            if kind == 'map':
                hit = self.map_read(st, e, off, n)
                if hit is None: continue
                cond, v = hit
                if cond is True: res = v; break
                if want_ptr and e[4]['isptr']: raise Fork([cond, z3.Not(cond)])
                pend.append((cond, v)); continue
            d = lin_add(off, eo, -1)
            if isinstance(es, int) and isinstance(d, int):
                ds = d - (1 << 64) if d >> 63 else d
                if ds >= es or ds + n <= 0: continue
                if kind == 'w' and ds == 0 and es == n:
                    hit = True
                elif ds >= 0 and ds + n <= es:
                    hit = True
                else:
                    return self.finish(pend, self.bytes_read(st, rid, c, off, n, i + 1), n)
                v = self.entry_val(st, e, ds, n)
                if guard is None:
                    res = v; break
                if self.must(st, guard): res = v; break
                if not self.may(st, guard): continue
                if want_ptr and (isinstance(v, Ptr)): raise Fork([guard, z3.Not(guard)])
                pend.append((guard, v)); continue
            # symbolic distance
            ob = lin_bv(off); eb = lin_bv(eo); esb = bv(es, 64)
            db = z3.simplify(lin_bv(d))
            inside = z3.And(z3.ULT(db, esb), z3.ULE(z3.BitVecVal(n, 64), esb - db)) if not (isinstance(es, int) and es == n) else (db == 0)
            disj = z3.And(z3.UGE(db, esb), z3.UGE(-db, z3.BitVecVal(n, 64)))
            if guard is not None:
                inside = z3.And(guard, inside); disj = z3.Or(z3.Not(guard), disj)
            if self.must(st, disj): continue
            if self.must(st, inside):
                res = self.entry_val(st, e, d if not (isinstance(es, int) and es == n) else 0, n); break
            if self.must(st, z3.Or(inside, disj)):
                v = self.entry_val(st, e, d if not (isinstance(es, int) and es == n) else 0, n)
                if want_ptr or isinstance(v, Ptr):
                    raise Fork([inside, z3.Not(inside)])
                pend.append((inside, v)); continue
            if want_ptr: raise Fork([inside, disj, z3.And(z3.Not(inside), z3.Not(disj))])
            return self.finish(pend, self.bytes_read(st, rid, c, off, n, i + 1), n)
        if res is None:
            if isinstance(off, int) :
                res = self.cells_read(st, rid, c, off, n)
            elif not c.cells:
                res = self.init_read(st, rid, c, off, n)
            else:
                res = self.cells_sym_read(st, rid, c, off, n, want_ptr)
        return self.finish(pend, res, n)

    def map_read(self, st, e, off, n):
        """read n bytes at off through a loop-map entry: None (no overlap) or (cond|True, value)"""
        mp, cnt, K = e[4], e[5], e[6]
        size, s = mp['size'], mp['stride']
        ss = s - (1 << 64) if s >> 63 else s
        o0 = lin_norm(Lin(mp['off'].c, {i: x for i, x in mp['off'].t.items() if i != K.get_id()}))
        d = lin_add(off, o0, -1)          # off - a
        if ss < 0: d = lin_mul(d, -1)     # offsets go down: a - |s|*i
        a = abs(ss)
        sp = self.split_unit(d, a)
        if sp is not None:
            idx, rem = sp
            if ss < 0 and rem: idx = lin_add(idx, 1); rem = a - rem; rem = -rem   # off = a - a*idx' + rem'
            if ss < 0: rem = -rem if rem else 0
            if rem >= size: return None
            if rem + n > size:
                if rem + n > a or True: raise Undecided('read across loop-written elements')
            t = lin_bv(idx)
            cond = z3.ULT(t, lin_bv(lin_of(cnt)))
            val = mk_extract((rem + n) * 8 - 1, rem * 8, mp['V'](t)) if n != size else mp['V'](t)
        else:
            if ss < 0: raise Undecided('descending map')
            db = lin_bv(d); A = z3.BitVecVal(a, 64)
            t = z3.UDiv(db, A); r = z3.URem(db, A)
            w = 8 * size
            cond = z3.And(z3.ULT(t, lin_bv(lin_of(cnt))), z3.ULT(r, z3.BitVecVal(size, 64)))
            if n != 1 and not self.must(st, z3.Or(z3.Not(cond), z3.ULE(r + n, z3.BitVecVal(size, 64)))): raise Undecided('unaligned read of loop-written elements')
            if size == n: val = mp['V'](t)
            else:
                sh = (z3.ZeroExt(w - 64, r) if w > 64 else mk_extract(w - 1, 0, r)) * 8
                val = z3.Extract(8 * n - 1, 0, z3.LShR(mp['V'](t), sh))
        if not self.may(st, cond): return None
        f = mp.get('fact')
        if f is not None:
            for c in f(z3.simplify(t)):
                c = z3.simplify(z3.Implies(z3.ULT(t, lin_bv(lin_of(cnt))), c))
                if not z3.is_true(c) and not any(c.eq(x) for x in st.pc):
                    st.pc.append(c); self.keep.append(c)
        g = mp['G'](t)
        if self.must(st, z3.Implies(cond, g)):
            if self.must(st, cond): return (True, self.map_ptr(mp, val))
            return (cond, self.map_ptr(mp, val))
        return (z3.And(cond, g), self.map_ptr(mp, val))
    def map_ptr(self, mp, val): return val

    def finish(self, pend, res, n):
        if not pend: return res
        w = 8 * n
        r = bv(res, w) if not isinstance(res, Undef) else self.fresh('u', w)
        for cnd, v in reversed(pend):
            r = z3.If(cnd, bv(v, w), r)
        return r

    def entry_val(self, st, e, d, n):
        """value of n bytes at distance d inside entry e"""
        kind = e[0]
        if kind == 'w':
            v = e[4]; es = e[3]
            if d == 0 and es == n: return v
            vv = bv(v, es * 8)
            if isinstance(d, int): return mk_extract((d + n) * 8 - 1, d * 8, vv)
            w = es * 8
            db = lin_bv(d)
            sh = (z3.ZeroExt(w - 64, db) if w > 64 else mk_extract(w - 1, 0, db)) * 8
            return z3.Extract(8 * n - 1, 0, z3.LShR(vv, sh))
        if kind == 'cpy':
            _, g, eo, es, snap, srid, so = e
            return self.cread(st, srid, snap, lin_add(so, d), n)
        if kind == 'set':
            return mk_concat([(e[4], 8)] * n)
        raise Undecided('entry ' + kind)

    def bytes_read(self, st, rid, c, off, n, logn):
        if n == 1:
            return self.byte_read(st, rid, c, off, logn)
        return mk_concat([(self.byte_read(st, rid, c, lin_add(off, i), logn), 8) for i in range(n)])

    def byte_read(self, st, rid, c, off, logn):
        pend = []; res = None
        i = logn
        log = c.log or []
        while i > 0:
            i -= 1
            e = log[i]
            kind, guard, eo, es = e[0], e[1], e[2], e[3]
            if kind == 'havoc':
                res = self.init_read(st, rid, Content(e[4]), off, 1); break
            if kind == 'map':
                hit = self.map_read(st, e, off, 1)
                if hit is None: continue
                cond, v = hit
                if cond is True: res = v; break
                pend.append((cond, v)); continue
            d = lin_add(off, eo, -1)
            if isinstance(d, int) and isinstance(es, int):
                if d >= es: continue
                v = self.entry_val(st, e, d, 1)
                if guard is None: res = v; break
                pend.append((guard, v)); continue
            db = lin_bv(d)
            cond = z3.ULT(db, bv(es, 64))
            if guard is not None: cond = z3.And(guard, cond)
            if self.must(st, z3.Not(cond)): continue
            v = self.entry_val(st, e, d, 1)
            if self.must(st, cond): res = v; break
            pend.append((cond, v))
        if res is None:
            if isinstance(off, int): res = self.cells_read(st, rid, c, off, 1)
            elif not c.cells: res = self.init_read(st, rid, c, off, 1)
            else: res = self.cells_sym_read(st, rid, c, off, 1, False)
        return self.finish(pend, res, 1)

    def cells_sym_read(self, st, rid, c, off, n, want_ptr):
        pend = []
        ob = lin_bv(off)
        if len(c.cells) > 600: raise Undecided('symbolic read over many cells')
        # concrete cells, symbolic offset
        allsame = all(s == n for s, _ in c.cells.values())
        res = None
        if allsame:
            for co, (cs, v) in c.cells.items():
                cond = ob == co
                if not self.may(st, cond): continue
                if self.must(st, cond): return v
                if want_ptr or isinstance(v, Ptr):
                    raise Fork([cond, z3.Not(cond)])
                pend.append((cond, v))
            conds = [cnd for cnd, _ in pend]
            if conds and self.must(st, z3.Or(*conds)):
                v = pend.pop()[1]
                return self.finish(pend, v, n)
            # remaining offsets must not partially overlap: require alignment
            res = self.init_read(st, rid, c, off, n)
            return self.finish(pend, res, n)
        if want_ptr:
            for co, (cs, v) in c.cells.items():
                cond = ob == co
                if self.may(st, cond):
                    if self.must(st, cond): return self.cells_read(st, rid, c, co, n)
                    raise Fork([cond, z3.Not(cond)])
            return self.init_read(st, rid, c, off, n)
        parts = []
        for i in range(n):
            o = lin_bv(lin_add(off, i)); pend = []
            for co, (cs, v) in c.cells.items():
                for b in range(cs):
                    cond = o == co + b
                    if self.may(st, cond):
                        pend.append((cond, mk_extract(8 * b + 7, 8 * b, bv(v, cs * 8))))
            parts.append((self.finish(pend, self.init_read(st, rid, c, lin_add(off, i), 1), 1), 8))
        return mk_concat(parts)

    def cells_read(self, st, rid, c, off, n):
        x = c.cells.get(off)
        if x is not None and x[0] == n: return x[1]
        # any overlapping cell?
        ov = False
        for o in range(off - 31, off + n):
            y = c.cells.get(o)
            if y is not None and o + y[0] > off: ov = True; break
        if not ov:
            return self.init_read(st, rid, c, off, n)
        if x is not None and x[0] > n:
            return mk_extract(8 * n - 1, 0, bv(x[1], 8 * x[0]))
        parts = []
        i = 0
        while i < n:
            o = off + i
            y = c.cells.get(o)
            if y is not None and y[0] <= n - i:
                parts.append((y[1] if not isinstance(y[1], Ptr) else bv(y[1], 64), 8 * y[0])); i += y[0]; continue
            hit = False
            for b in range(o, o - 32, -1):
                y = c.cells.get(b)
                if y is not None:
                    if b + y[0] > o:
                        k = o - b
                        parts.append((mk_extract(8 * k + 7, 8 * k, bv(y[1], 8 * y[0])), 8)); hit = True
                    break
            if not hit:
                parts.append((self.init_read(st, rid, c, o, 1), 8))
            i += 1
        return mk_concat(parts)

    def write(self, st, rid, off, n, v):
        c = self.wcontent(st, rid)
        if c.log is None and isinstance(off, int):
            if n > 32:      # cells are at most 32 bytes wide
                V = bv(v, 8 * n)
                for i in range(0, n, 8): self.cells_write(c, off + i, min(8, n - i), z3.simplify(mk_extract(8 * min(i + 8, n) - 1, 8 * i, V)))
                return
            self.cells_write(c, off, n, v)
            return
        if c.log is None: c.log = []
        if c.log and isinstance(off, Lin):
            # overwrite of the newest entry at the same place
            e = c.log[-1]
            if e[0] == 'w' and e[1] is None and e[3] == n and lin_add(off, e[2], -1) == 0:
                c.log[-1] = ('w', None, off, n, v); return
        c.log.append(('w', None, off, n, v))

    def cells_write(self, c, off, n, v):
        x = c.cells.get(off)
        if x is not None and x[0] == n:
            c.cells[off] = (n, v); return
        for o in range(off - 31, off + n):
            y = c.cells.get(o)
            if y is not None and o + y[0] > off:
                del c.cells[o]
                for b in range(y[0]):
                    p = o + b
                    if p < off or p >= off + n:
                        c.cells[p] = (1, mk_extract(8 * b + 7, 8 * b, bv(y[1], 8 * y[0])))
        c.cells[off] = (n, v)

    def load(self, st, p, ty):
        if ty.k in ('struct', 'arr', 'vec'):
            ptr = self.resolve(st, p, 'read')
            if ty.k == 'struct':
                layout(ty)
                return [self.load(st, Ptr(ptr.rid, lin_add(ptr.off, o)), e) for o, e in zip(ty.offs, ty.els)]
            es = layout(ty.el)
            return [self.load(st, Ptr(ptr.rid, lin_add(ptr.off, i * es)), ty.el) for i in range(ty.n)]
        ptr = self.resolve(st, p, 'read')
        n = layout(ty)
        self.bounds(st, ptr, n, 'read')
        v = self.read(st, ptr.rid, ptr.off, n, ty.k == 'ptr')
        if ty.k == 'int' and ty.n < 8 * n:
            if isinstance(v, Ptr): raise Undecided('ptr as int')
            if ty.n == 1:
                if isinstance(v, z3.BoolRef): return v
                x = mk_extract(0, 0, v)
                return x if isinstance(x, int) else (x == 1)
            return mk_extract(ty.n - 1, 0, v)
        return v
    def store(self, st, p, ty, v):
        if ty.k in ('struct', 'arr', 'vec'):
            ptr = self.resolve(st, p, 'write')
            if ty.k == 'struct':
                layout(ty)
                for o, e, x in zip(ty.offs, ty.els, v): self.store(st, Ptr(ptr.rid, lin_add(ptr.off, o)), e, x)
            else:
                es = layout(ty.el)
                for i, x in enumerate(v): self.store(st, Ptr(ptr.rid, lin_add(ptr.off, i * es)), ty.el, x)
            return
        ptr = self.resolve(st, p, 'write')
        n = layout(ty)
        self.bounds(st, ptr, n, 'write')
        if isinstance(v, Undef): v = self.conc(v, ty)
        if ty.k == 'int' and ty.n < 8 * n:
            if ty.n == 1: v = v if isinstance(v, int) else z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            elif not isinstance(v, int): v = z3.ZeroExt(8 * n - ty.n, v)
        self.write(st, ptr.rid, ptr.off, n, v)

    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0: return
        if is_sym(n):
            ns = z3.simplify(n)
            if z3.is_bv_value(ns): n = ns.as_long()
        if is_sym(n) and self.may(st, n == 0):
            if self.must(st, n == 0): return
            if not (isinstance(d, Ptr) and isinstance(s, Ptr)): raise Fork([n == 0, n != 0])
        dp = self.resolve(st, d, 'write'); sp = self.resolve(st, s, 'read')
        if isinstance(n, int):
            self.bounds(st, sp, n, 'read'); self.bounds(st, dp, n, 'write')
        else:
            for q, w in ((sp, 'read'), (dp, 'write')):
                r = self.regions[q.rid]
                if q.rid in st.dead: self.oblige(st, False, '%s of freed memory (%s)' % (w, r.name), 'memory')
                sz = bv(r.size, 64); o = lin_bv(q.off)
                self.oblige(st, z3.And(z3.ULE(n, sz), z3.ULE(o, sz - n)), '%s in bounds of %s' % (w, r.name), 'memory')
        if isinstance(n, int) and n <= 512:
            sc = self.content(st, sp.rid); 
            if sc.log is None and isinstance(sp.off, int):
                # cell-wise
                items = []
                i = 0
                while i < n:
                    x = sc.cells.get(sp.off + i)
                    if x is not None and x[0] <= n - i:
                        items.append((i, x[0], x[1])); i += x[0]
                    else:
                        # next boundary
                        step = 8
                        while step > 1 and (step > n - i or (sp.off + i) % step or any((sp.off + i + j) in sc.cells for j in range(1, step))): step //= 2
                        items.append((i, step, self.cells_read(st, sp.rid, sc, sp.off + i, step))); i += step
            else:
                items = []; i = 0
                while i < n:
                    step = 8
                    while step > n - i: step //= 2
                    items.append((i, step, self.read(st, sp.rid, lin_add(sp.off, i), step, step == 8))); i += step
            for i, k, v in items:
                self.write(st, dp.rid, lin_add(dp.off, i), k, v)
            return
        snap = self.content(st, sp.rid).copy()
        c = self.wcontent(st, dp.rid)
        if c.log is None: c.log = []
        c.log.append(('cpy', None, dp.off, n, snap, sp.rid, sp.off))

    def memset(self, st, d, b, n):
        if is_sym(n):
            ns = z3.simplify(n)
            if z3.is_bv_value(ns): n = ns.as_long()
        if isinstance(n, int) and n == 0: return
        if is_sym(n) and self.may(st, n == 0):
            if self.must(st, n == 0): return
            if not isinstance(d, Ptr): raise Fork([n == 0, n != 0])
        dp = self.resolve(st, d, 'write')
        r = self.regions[dp.rid]
        if isinstance(n, int): self.bounds(st, dp, n, 'write')
        else:
            sz = bv(r.size, 64); o = lin_bv(dp.off)
            self.oblige(st, z3.And(z3.ULE(n, sz), z3.ULE(o, sz - n)), 'write in bounds of %s' % r.name, 'memory')
        if isinstance(n, int) and isinstance(dp.off, int) and self.content(st, dp.rid).log is None and n <= 1024:
            i = 0
            while i < n:
                step = 8
                while step > n - i or (dp.off + i) % step: step //= 2
                self.write(st, dp.rid, dp.off + i, step, mk_concat([(b, 8)] * step)); i += step
            return
        if isinstance(n, int) and b == 0 and dp.off == 0 and isinstance(r.size, int) and n == r.size:
            c = self.wcontent(st, dp.rid)
            c.init = ('zero',); c.cells = {}; c.log = None
            return
        c = self.wcontent(st, dp.rid)
        if c.log is None: c.log = []
        c.log.append(('set', None, dp.off, n, b))

    # -------------------------------------------------------------- cfg helpers
    def cfg(self, fn):
        if fn._cfg is not None: return fn._cfg
        self.m.body(fn)
        order = fn.order
        succ = {b: fn.blocks[b].succ for b in order}
        # blocks that can reach a ret
        ret = [b for b in order if fn.blocks[b].term.op == 'ret']
        reach = set(ret); work = list(ret)
        while work:
            b = work.pop()
            for p in fn.blocks[b].preds:
                if p not in reach: reach.add(p); work.append(p)
        # post-dominators over reach with virtual exit
        nodes = [b for b in order if b in reach]
        pd = {b: None for b in nodes}
        full = set(nodes) | {'$exit'}
        pd = {b: set(full) for b in nodes}; pd['$exit'] = {'$exit'}
        ch = True
        while ch:
            ch = False
            for b in reversed(nodes):
                ss = [s for s in succ[b] if s in reach]
                if fn.blocks[b].term.op == 'ret': ss = ['$exit']
                new = set.intersection(*[pd[s] for s in ss]) if ss else set()
                new = new | {b}
                if new != pd[b]: pd[b] = new; ch = True
        ipd = {}
        for b in nodes:
            c = pd[b] - {b}
            best = None
            for x in c:
                if all(x == y or y in pd[x] for y in c):
                    best = x; break
            ipd[b] = best
        # dominators
        dom = {b: set(order) for b in order}; dom[order[0]] = {order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in fn.blocks[b].preds]
                new = (set.intersection(*[dom[p] for p in ps]) if ps else set()) | {b}
                if new != dom[b]: dom[b] = new; ch = True
        loops = {}
        for b in order:
            for s in succ[b]:
                if s in dom[b]:   # back edge b->s
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body: continue
                        body.add(x)
                        work.extend(fn.blocks[x].preds)
        # live-in SSA names per block (used in block or any reachable block)
        fn._cfg = {'ipd': ipd, 'loops': loops, 'dom': dom, 'reach': reach, 'live': {}}
        return fn._cfg

    def live_at(self, fn, blk):
        """SSA names used at or after blk (over-approximation by reachability)"""
        cf = self.cfg(fn)
        l = cf['live'].get(blk)
        if l is not None: return l
        seen = {blk}; work = [blk]; used = set()
        while work:
            b = work.pop()
            B = fn.blocks[b]
            for ins in B.insts:
                self._uses(ins, used)
            for s in B.succ:
                for ph in fn.blocks[s].phis:
                    for v, pb in ph.a:
                        if pb == b and isinstance(v, tuple): used.add(v[1])
                if s not in seen: seen.add(s); work.append(s)
        cf['live'][blk] = used
        return used
    @staticmethod
    def _uses(ins, used):
        def u(o):
            if isinstance(o, tuple) and len(o) == 2 and o[0] == 'l': used.add(o[1])
        if ins.op == 'call':
            u(ins.a[0])
            for t, v in ins.a[1]: u(v)
        elif ins.op == 'gep':
            u(ins.a[0])
            for t, v in ins.x[1]: u(v)
        elif ins.op == 'alloca':
            if ins.a[0]: u(ins.a[0][1])
        else:
            for o in ins.a: u(o)

    # -------------------------------------------------------------- execution
    def run_harness(self, name):
        fn = self.m.funcs.get(name)
        if fn is None or fn.body is None: raise Undecided('no harness ' + name)
        self.hname = name
        st = State()
        self.m.body(fn)
        fr = Frame(fn); fr.blk = fn.order[0]
        st.frames.append(fr)
        out = self.run(st, 0, None)
        return out

    def run(self, st, depth, stop):
        """run st until frame index `depth` arrives at block `stop` (after its phis) or, when stop is None, until that frame returned.
        returns the list of states that arrived."""
        arrived = []
        work = [st]
        while work:
            s = work.pop()
            try:
                while True:
                    if len(s.frames) <= depth:
                        arrived.append(s); break
                    fr = s.frames[-1]
                    if len(s.frames) - 1 == depth and stop is not None and fr.blk == stop and fr.ip == 0 and fr.iters.get('$arr') == stop:
                        fr.iters['$arr'] = None
                        arrived.append(s); break
                    r = self.step(s)
                    if r is None: continue
                    # r: list of successor states (possibly with a join)
                    work.extend(r[1:])
                    if not r: break
                    s = r[0]
            except PathEnd:
                self.stats['paths'] += 1
                if self.stats['paths'] > self.o['max_paths']: raise Undecided('too many paths')
                continue
        return arrived

    def goto(self, st, target, depth=None):
        fr = st.frames[-1]
        fn = fr.fn
        B = fn.blocks[target]
        src = fr.blk
        if B.phis:
            vals = []
            for ph in B.phis:
                for v, pb in ph.a:
                    if pb == src:
                        x = self.val(fr, v)
                        if isinstance(x, Undef): x = self.conc(x, ph.ty)
                        vals.append((ph.res, x)); break
                else: raise Undecided('phi without edge')
            for r, v in vals: fr.loc[r] = v
        fr.prev = src; fr.blk = target; fr.ip = 0
        fr.iters['$arr'] = target
        cf = self.cfg(fn)
        body = cf['loops'].get(target)
        if body is not None:
            if src in body:
                k = fr.iters.get(target, 0) + 1
                fr.iters[target] = k
                if k > self.o['max_concrete_iter'] if 'max_concrete_iter' in self.o else k > 20000: raise Undecided('loop iteration limit')
            else:
                fr.iters[target] = 0
                fr.iters[('sym', target)] = 0
                if self.loop_hooks:
                    fr.iters.pop(('snap', target), None)
                    sn = st.fork()
                    fr.iters[('snap', target)] = sn

    def step(self, st):
        """execute one instruction; None if straight-line, else list of states to continue with"""
        fr = st.frames[-1]
        B = fr.fn.blocks[fr.blk]
        ins = B.insts[fr.ip]
        self.stats['instrs'] += 1
        if (self.stats['instrs'] & 1023) == 0 and self.o['deadline'] and time.time() > self.o['deadline']:
            raise Undecided('time budget exhausted')
        try:
            op = ins.op
            if op == 'condbr': return self.do_branch(st, fr, ins)
            if op == 'br':
                self.goto(st, ins.a[0]); return None
            if op == 'switch': return self.do_switch(st, fr, ins)
            if op == 'ret':
                v = self.val(fr, ins.a[0]) if ins.a else None
                if isinstance(v, Undef): v = self.conc(v, ins.ty)
                st.frames.pop()
                for a in fr.allocas: st.mem.pop(a, None)
                if st.frames:
                    up = st.frames[-1]
                    ci = up.fn.blocks[up.blk].insts[up.ip]
                    if ci.res is not None: up.loc[ci.res] = v
                    up.ip += 1
                return None
            if op == 'unreachable':
                raise PathEnd()
            if op == 'call':
                return self.do_call(st, fr, ins)
            self.exec(st, fr, ins, op)
            fr.ip += 1
            return None
        except Fork as f:
            self.stats['forks'] += 1
            out = []
            for c in f.conds:
                cs = z3.simplify(c)
                if z3.is_false(cs): continue
                if self.check(st.pc, cs) == 'unsat': continue
                s2 = st.fork()
                if not z3.is_true(cs): s2.pc.append(cs); self.keep.append(cs)
                out.append(s2)
            if not out: raise PathEnd()
            return out

    def exec(self, st, fr, ins, op):
        if op == 'load':
            fr.loc[ins.res] = self.load(st, self.val(fr, ins.a[0]), ins.ty)
        elif op == 'store':
            self.store(st, self.val(fr, ins.a[1]), ins.ty, self.val(fr, ins.a[0]))
        elif op == 'gep':
            bt, idx = ins.x
            fr.loc[ins.res] = self.gep(st, self.val(fr, ins.a[0]), bt, [(t, self.val(fr, v)) for t, v in idx])
        elif op == 'bin':
            o, fl = ins.x
            a = self.val(fr, ins.a[0]); b = self.val(fr, ins.a[1])
            t = ins.ty
            if t.k == 'vec':
                if o[0] == 'f' and o in ('fadd', 'fsub', 'fmul', 'fdiv'):
                    fr.loc[ins.res] = [self.fbin(o, t.el, self.conc(x, t.el), self.conc(y, t.el)) for x, y in zip(a, b)]
                else:
                    fr.loc[ins.res] = [self.binop(st, o, t.el.n, self.conc(x, t.el), self.conc(y, t.el)) for x, y in zip(a, b)]
                return
            a = self.conc(a, t); b = self.conc(b, t)
            if t.k == 'int': fr.loc[ins.res] = self.binop(st, o, t.n, a, b)
            else: fr.loc[ins.res] = self.fbin(o, t, a, b)
        elif op == 'icmp':
            a = self.val(fr, ins.a[0]); b = self.val(fr, ins.a[1])
            if ins.ty.k != 'vec': a = self.conc(a, ins.ty); b = self.conc(b, ins.ty)
            fr.loc[ins.res] = self.icmp(ins.x, ins.ty, a, b)
        elif op == 'fcmp':
            fr.loc[ins.res] = self.fcmp(ins.x, ins.ty, self.conc(self.val(fr, ins.a[0]), ins.ty), self.conc(self.val(fr, ins.a[1]), ins.ty))
        elif op == 'fneg':
            w = layout(ins.ty) * 8
            fr.loc[ins.res] = self.binop(st, 'xor', w, self.conc(self.val(fr, ins.a[0]), ins.ty), 1 << (w - 1))
        elif op == 'cast':
            o, t = ins.x
            v = self.val(fr, ins.a[0])
            if t.k != 'vec': v = self.conc(v, t)
            fr.loc[ins.res] = self.cast(st, o, v, t, ins.ty)
        elif op == 'select':
            c = self.val(fr, ins.a[0])
            a = self.val(fr, ins.a[1]); b = self.val(fr, ins.a[2])
            if isinstance(c, list):
                fr.loc[ins.res] = [(x if k else y) if isinstance(k, int) else self.ite(k, x, y, ins.ty.el) for k, x, y in zip(c, a, b)]
                return
            c = self.conc(c, INT(1))
            if isinstance(c, int): fr.loc[ins.res] = a if c else b
            else:
                if ins.ty.k == 'ptr' and not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid):
                    cs = z3.simplify(c)
                    if z3.is_true(cs): fr.loc[ins.res] = a; return
                    if z3.is_false(cs): fr.loc[ins.res] = b; return
                    if self.must(st, cs): fr.loc[ins.res] = a; return
                    if self.must(st, z3.Not(cs)): fr.loc[ins.res] = b; return
                    raise Fork([cs, z3.Not(cs)])
                fr.loc[ins.res] = self.ite(c, a, b, ins.ty)
        elif op == 'alloca':
            n = layout(ins.x)
            if ins.a[0] is not None:
                k = self.val(fr, ins.a[0][1])
                n = n * k if isinstance(k, int) else bv(k, 64) * n
            r = self.new_region(st, 'stack:%s:%s' % (fr.fn.name[-40:], ins.res), n, 'stack')
            fr.allocas.append(r.rid)
            fr.loc[ins.res] = Ptr(r.rid, 0)
        elif op == 'extractvalue':
            v = self.val(fr, ins.a[0])
            for i in ins.x: v = v[i]
            fr.loc[ins.res] = v
        elif op == 'insertvalue':
            v = self.val(fr, ins.a[0]); x = self.val(fr, ins.a[1])
            def setp(v, idx):
                if not idx: return x
                l = list(v); l[idx[0]] = setp(l[idx[0]], idx[1:]); return l
            fr.loc[ins.res] = setp(v, ins.x[0])
        elif op == 'freeze':
            v = self.val(fr, ins.a[0])
            fr.loc[ins.res] = self.conc(v, ins.ty) if not isinstance(v, list) else [self.conc(x, ins.ty.el) for x in v]
        elif op == 'extractelement':
            v = self.val(fr, ins.a[0]); i = self.val(fr, ins.a[1])
            if not isinstance(i, int): raise Undecided('extractelement')
            fr.loc[ins.res] = v[i]
        elif op == 'insertelement':
            v = list(self.val(fr, ins.a[0])); i = self.val(fr, ins.a[2])
            if not isinstance(i, int): raise Undecided('insertelement')
            v[i] = self.val(fr, ins.a[1]); fr.loc[ins.res] = v
        elif op == 'shufflevector':
            a = self.val(fr, ins.a[0]); b = self.val(fr, ins.a[1]); m = self.val(fr, ins.a[2])
            ab = list(a) + list(b)
            fr.loc[ins.res] = [ab[i] if isinstance(i, int) else Undef(ins.ty.el) for i in m]
        elif op == 'atomicrmw':
            p = self.val(fr, ins.a[0]); v = self.val(fr, ins.a[1])
            old = self.load(st, p, ins.ty)
            o = ins.x
            if o == 'xchg': nv = v
            elif o in ('add', 'sub', 'and', 'or', 'xor'): nv = self.binop(st, o, ins.ty.n, old, v)
            else: raise Undecided('atomicrmw ' + o)
            self.store(st, p, ins.ty, nv); fr.loc[ins.res] = old
        elif op == 'nop': pass
        else: raise Undecided('instruction ' + op)

    # -------------------------------------------------------------- branching
    def do_branch(self, st, fr, ins):
        c = self.conc(self.val(fr, ins.a[0]), INT(1))
        if isinstance(c, int):
            self.goto(st, ins.a[1] if c else ins.a[2]); return None
        cs = z3.simplify(c)
        if z3.is_true(cs): self.goto(st, ins.a[1]); return None
        if z3.is_false(cs): self.goto(st, ins.a[2]); return None
        rt = self.check(st.pc, cs); rf = self.check(st.pc, z3.Not(cs))
        if rt == 'unsat' and rf == 'unsat': raise PathEnd()
        if rt == 'unsat' or rf == 'unsat':
            r = self.long_loop(st, fr, [(cs, ins.a[1]), (z3.Not(cs), ins.a[2])])
            if r is not None: return r
        if rt == 'unsat': self.goto(st, ins.a[2]); return None
        if rf == 'unsat': self.goto(st, ins.a[1]); return None
        ncs = z3.Not(cs)
        return self.split(st, fr, [(cs, ins.a[1]), (ncs, ins.a[2])])

    def do_switch(self, st, fr, ins):
        v = self.conc(self.val(fr, ins.a[0]), ins.ty)
        d, cases = ins.a[1], ins.a[2]
        if isinstance(v, int):
            for k, b in cases:
                if k == v: self.goto(st, b); return None
            self.goto(st, d); return None
        alts = []
        for k, b in cases:
            c = v == z3.BitVecVal(k, ins.ty.n)
            if self.may(st, c): alts.append((c, b))
        dc = z3.And(*[v != z3.BitVecVal(k, ins.ty.n) for k, b in cases]) if cases else z3.BoolVal(True)
        if self.may(st, dc): alts.append((dc, d))
        # cases with the same target are one alternative
        if len({t for _, t in alts}) < len(alts):
            g = {}
            for c, t in alts: g.setdefault(t, []).append(c)
            alts = [(z3.Or(*cs) if len(cs) > 1 else cs[0], t) for t, cs in g.items()]
        if len(alts) == 1:
            self.goto(st, alts[0][1]); return None
        return self.split(st, fr, alts)

    def long_loop(self, st, fr, alts):
        """a loop that cannot end yet but has been going on for long: summarise it from its entry instead"""
        if not self.loop_hooks or not any(isinstance(k, str) and k != '$arr' and n == 40 for k, n in fr.iters.items()): return None
        loops = self.cfg(fr.fn)['loops']; blk = fr.blk
        depth = len(st.frames) - 1
        hs = [h for h, body in loops.items() if blk in body and any(t not in body for _, t in alts) and any(t in body for _, t in alts)]
        if not hs: return None
        h = min(hs, key=lambda h: len(loops[h]))
        if fr.iters.get(h, 0) != 40 or fr.iters.get(('sym', h)) or (depth, h) in self.summarising: return None
        for hook in self.loop_hooks:
            r = hook(self, st, fr, h, loops[h], alts)
            if r is not None: return r
        return None

    def split(self, st, fr, alts):
        cf = self.cfg(fr.fn)
        blk = fr.blk
        depth = len(st.frames) - 1
        # innermost loop whose exit this branch decides
        exiting = None
        for h, body in cf['loops'].items():
            if blk in body and any(t not in body for _, t in alts) and any(t in body for _, t in alts):
                if exiting is None or len(body) < len(cf['loops'][exiting]): exiting = h
        if exiting is not None and (depth, exiting) not in self.summarising:
            key = ('sym', exiting)
            n = fr.iters.get(key, 0) + 1
            if n == 1 or n == self.o.get('resummarise', -1):
                for hook in self.loop_hooks:
                    r = hook(self, st, fr, exiting, cf['loops'][exiting], alts)
                    if r is not None: return r
            if n > self.o['max_iter']:
                lim = self.o.get('on_bound', 'undecided')
                l = self.where(st)
                if lim == 'cut':
                    self.bounded.add('loop at %s:%s cut after %d iterations' % ((l[0] or '?').split('/')[-1] if l else '?', l[1] if l else '?', self.o['max_iter']))
                    out = []
                    for c, t in alts:
                        if t not in cf['loops'][exiting]:
                            s2 = st.fork(); self.keep.append(c); s2.pc.append(c); self.goto(s2, t); out.append(s2)
                    return out
                raise Undecided('loop at %s needs an invariant (unrolled %d times)' % (l, self.o['max_iter']))
            fr.iters[key] = n
        out = []
        for c, t in alts:
            s2 = st.fork(); self.keep.append(c)
            s2.pc.append(c)
            self.goto(s2, t)
            out.append(s2)
        join = cf['ipd'].get(blk)
        if not self.o['merge'] or exiting is not None or join is None or join == '$exit':
            return out
        if len(self.o.get('nomerge', ())) and any(re.search(p, fr.fn.name) for p in self.o['nomerge']): return out
        base = len(st.pc)
        arr = []
        for s2 in out:
            arr.extend(self.run(s2, depth, join))
        if not arr: raise PathEnd()
        res = [arr[0]]
        for s2 in arr[1:]:
            for i in range(len(res)):
                m = self.merge(res[i], s2, st, base, depth, join)
                if m is not None:
                    res[i] = m; self.stats['merges'] += 1
                    break
            else: res.append(s2)
        for r in res:
            r.frames[-1].iters['$arr'] = join
        return res

    def merge(self, a, b, parent, base, depth, join):
        if len(a.frames) != len(b.frames): return None
        if a.dead != b.dead:
            return None
        if len(a.inputs) != len(b.inputs): return None
        if a.nheap != b.nheap: return None
        if len(a.pc) < base or len(b.pc) < base: return None
        for i in range(base):
            if a.pc[i] is not b.pc[i]: return None
        ea = a.pc[base:]; eb = b.pc[base:]
        ca = z3.And(*ea) if len(ea) != 1 else ea[0]
        cb = z3.And(*eb) if len(eb) != 1 else eb[0]
        # discriminating condition: first differing literal of a is enough if b contains its negation
        sel = ca
        if ea and eb and z3.Not(ea[0]).eq(eb[0]) or (ea and eb and ea[0].eq(z3.Not(eb[0]))): sel = ea[0]
        m = a.fork()
        fa, fb = a.frames[-1], b.frames[-1]
        live = self.live_at(fa.fn, join)
        tys = self.ssa_types(fa.fn)
        loc = {}
        nd = 0
        for k, va in fa.loc.items():
            if k not in fb.loc: continue
            vb = fb.loc[k]
            if va is vb: loc[k] = va; continue
            if k not in live: continue
            v = self.merge_val(sel, va, vb, tys.get(k))
            if v is None: return None
            loc[k] = v
        # memory
        rids = set(a.mem) | set(b.mem)
        newmem = {}
        for r in rids:
            xa = a.mem.get(r); xb = b.mem.get(r)
            if xa is xb: continue
            reg = self.regions[r]
            if xa is None or xb is None:
                if reg.kind in ('global',):
                    xa = xa or reg.initial or Content(reg.init); xb = xb or reg.initial or Content(reg.init)
                else:
                    if reg.kind != 'stack': newmem[r] = xa if xa is not None else xb
                    continue
            mc = self.merge_content(a, b, r, xa, xb, sel, ca, cb)
            if mc is None: return None
            newmem[r] = mc
        if a.ghost.keys() != b.ghost.keys(): return None
        for k in a.ghost:
            va, vb = a.ghost[k], b.ghost[k]
            if va is vb: continue
            if isinstance(va, tuple):
                if va != vb: return None
                continue
            v = self.merge_val(sel, va, vb, 64)
            if v is None: return None
            m.ghost[k] = v
        for r, c in newmem.items(): m.mem[r] = c
        m.own = set()
        m.frames[-1].loc = loc
        m.frames[-1].allocas = list(dict.fromkeys(fa.allocas + fb.allocas))
        m.pc = a.pc[:base]
        o = z3.simplify(z3.Or(ca, cb))
        if not z3.is_true(o):
            m.pc.append(o); self.keep.append(o)
        self.keep.append(sel)
        m.approx = tuple(sorted(set(a.approx) | set(b.approx)))
        return m

    def merge_val(self, sel, va, vb, ty=None):
        """ty: Ty, or int bit width, or None"""
        if va is vb: return va
        if isinstance(va, list):
            if not isinstance(vb, list) or len(va) != len(vb): return None
            out = []
            for i, (x, y) in enumerate(zip(va, vb)):
                t = None
                if isinstance(ty, Ty): t = ty.els[i] if ty.k == 'struct' else ty.el
                z = self.merge_val(sel, x, y, t)
                if z is None: return None
                out.append(z)
            return out
        if isinstance(va, Undef): return vb
        if isinstance(vb, Undef): return va
        if isinstance(va, Ptr) or isinstance(vb, Ptr):
            if isinstance(va, Ptr) and isinstance(vb, Ptr) and va.rid == vb.rid:
                if lin_add(va.off, vb.off, -1) == 0: return va
                return Ptr(va.rid, lin_of(z3.If(sel, lin_bv(va.off), lin_bv(vb.off))))
            return None
        if isinstance(va, int) and isinstance(vb, int):
            if va == vb: return va
            if ty is None: return None
            w = ty if isinstance(ty, int) else (ty.n if ty.k == 'int' else layout(ty) * 8)
            if isinstance(ty, Ty) and ty.k == 'ptr': return None
            if w == 1: return sel if va else z3.Not(sel)
            return z3.If(sel, z3.BitVecVal(va, w), z3.BitVecVal(vb, w))
        if isinstance(va, z3.BoolRef) or isinstance(vb, z3.BoolRef):
            return z3.simplify(z3.If(sel, boolv(va), boolv(vb)))
        ww = va.size() if is_sym(va) else vb.size()
        A = bv(va, ww); B = bv(vb, ww)
        if A.eq(B): return va
        return z3.If(sel, A, B)
    def ssa_types(self, fn):
        t = fn.__dict__.get('_tys')
        if t is None:
            t = {}
            for ty, pn, _ in fn.params: t[pn] = ty
            for b in fn.blocks.values():
                for i in b.phis + b.insts:
                    if i.res is None: continue
                    if i.op in ('icmp', 'fcmp'): t[i.res] = INT(1) if i.ty.k != 'vec' else Ty('vec', i.ty.n, INT(1))
                    elif i.op == 'extractvalue':
                        x = i.ty
                        for k in i.x: x = x.els[k] if x.k == 'struct' else x.el
                        t[i.res] = x
                    elif i.op == 'extractelement': t[i.res] = i.ty.el
                    else: t[i.res] = i.ty
            fn._tys = t
        return t

    def merge_content(self, a, b, rid, xa, xb, sel, ca, cb):
        if xa.init is not xb.init and xa.init != xb.init: return None
        if xa.log is None and xb.log is None:
            c = Content(xa.init, {}, None)
            keys = set(xa.cells) | set(xb.cells)
            for o in sorted(keys):
                pa = xa.cells.get(o); pb = xb.cells.get(o)
                if pa is not None and pb is not None and pa[0] == pb[0]:
                    if pa[1] is pb[1]: c.cells[o] = pa; continue
                    va, vb, n = pa[1], pb[1], pa[0]
                else:
                    n = (pa or pb)[0]
                    if pa is not None and pb is not None: return None
                    va = pa[1] if pa else self.cells_read(a, rid, xa, o, n)
                    vb = pb[1] if pb else self.cells_read(b, rid, xb, o, n)
                    if (pa is None or pb is None) and xa.init[0] == 'undef' and self.regions[rid].kind in ('stack', 'heap'):
                        # initialised on one side only: keep the initialised value if scalars differ in kind
                        if isinstance(va, Ptr) and not isinstance(vb, Ptr): vb = va
                        elif isinstance(vb, Ptr) and not isinstance(va, Ptr): va = vb
                if isinstance(va, int) and isinstance(vb, int):
                    v = va if va == vb else z3.If(sel, z3.BitVecVal(va, 8 * n), z3.BitVecVal(vb, 8 * n))
                else:
                    if (isinstance(va, Ptr) or isinstance(vb, Ptr)) and not (isinstance(va, Ptr) and isinstance(vb, Ptr) and va.rid == vb.rid):
                        return None
                    v = self.merge_val(sel, va, vb)
                if v is None: return None
                c.cells[o] = (n, v)
            return c
        la = xa.log or []; lb = xb.log or []
        if xa.cells is not xb.cells and xa.cells.keys() != xb.cells.keys(): return None
        for o in xa.cells:
            if xa.cells[o][1] is not xb.cells[o][1] or xa.cells[o][0] != xb.cells[o][0]:
                pa, pb = xa.cells[o], xb.cells[o]
                if pa[0] != pb[0] or not (isinstance(pa[1], int) and pa[1] == pb[1]): return None
        k = 0
        while k < len(la) and k < len(lb) and la[k] is lb[k]: k += 1
        c = Content(xa.init, dict(xa.cells), list(la[:k]))
        # same-shape writes merge into one entry
        ra, rb = la[k:], lb[k:]
        if len(ra) == len(rb) and all(p[0] == q[0] == 'w' and p[1] is None and q[1] is None and p[3] == q[3] and lin_add(p[2], q[2], -1) == 0 for p, q in zip(ra, rb)):
            for p, q in zip(ra, rb):
                va, vb, n = p[4], q[4], p[3]
                if isinstance(va, int) and isinstance(vb, int):
                    v = va if va == vb else z3.If(sel, z3.BitVecVal(va, 8 * n), z3.BitVecVal(vb, 8 * n))
                else: v = self.merge_val(sel, va, vb)
                if v is None: return None
                c.log.append(('w', None, p[2], n, v))
            return c
        nsel = z3.Not(sel)
        for p in ra:
            if p[0] == 'havoc': return None
            c.log.append((p[0], sel if p[1] is None else z3.And(sel, p[1])) + tuple(p[2:]))
        for p in rb:
            if p[0] == 'havoc': return None
            c.log.append((p[0], nsel if p[1] is None else z3.And(nsel, p[1])) + tuple(p[2:]))
        return c

    # -------------------------------------------------------------- calls
    def do_call(self, st, fr, ins):
        cal, args = ins.a
        if isinstance(cal, tuple):
            p = self.resolve(st, fr.loc[cal[1]], 'call')
        else:
            p = self.constval(cal)
            if isinstance(p, int): p = self.resolve(st, p, 'call')
        r = self.regions[p.rid]
        if r.kind != 'func':
            self.oblige(st, False, 'call through a valid function pointer', 'memory')
        name = r.fn
        av = [self.val(fr, v) if t.k != 'metadata' else None for t, v in args]
        av = [self.conc(v, t) if isinstance(v, Undef) else v for v, (t, _) in zip(av, args)]
        h = self.intr.get(name)
        if h is None and name.startswith('llvm.'):
            base = name
            while h is None and '.' in base:
                h = self.intr.get(base); base = base.rsplit('.', 1)[0]
            if h is None: h = self.intr.get(base)
        if h is not None:
            res = h(self, st, fr, ins, av, args)
            if isinstance(res, Multi): return res.states
            if ins.res is not None: fr.loc[ins.res] = res
            fr.ip += 1
            return None
        fn = self.m.funcs[name]
        rp = 'vp_contract_' + name      # a contract given by the harness stands for the body (proved elsewhere)
        if rp not in self.m.funcs and 'vp_rec_' + name in self.m.funcs and any(x.fn is fn for x in st.frames):
            rp = 'vp_rec_' + name       # a recursive call is checked against the function's own contract
        if rp in self.m.funcs:
            fn = self.m.funcs[rp]; name = rp
        if fn.body is None:
            raise Undecided('external function ' + name)
        if len(st.frames) > 400: raise Undecided('recursion too deep')
        self.m.body(fn)
        if name not in self.funcs_seen:
            self.funcs_seen[name] = self.m.fn_src(fn)
        nf = Frame(fn); nf.blk = fn.order[0]
        for (t, pn, byval), v in zip(fn.params, av):
            if byval is not None:
                n = layout(byval)
                rr = self.new_region(st, 'byval', n, 'stack'); nf.allocas.append(rr.rid)
                self.memcpy(st, Ptr(rr.rid, 0), v, n)
                v = Ptr(rr.rid, 0)
            nf.loc[pn] = v
        st.frames.append(nf)
        return None

class Multi:
    def __init__(self, states): self.states = states

INTRINSICS = {}
import intrinsics  # noqa: E402  (registers into INTRINSICS)

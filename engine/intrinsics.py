"""Semantics of LLVM intrinsics, the C runtime functions the IR calls, and the vp_* specification primitives."""
import z3
from sym import *   # noqa
import sym as _s
from irparse import INT, PTR, layout

I = _s.INTRINSICS

def reg(*names):
    def d(f):
        for n in names: I[n] = f
        return f
    return d

@reg('llvm.lifetime.start', 'llvm.lifetime.end', 'llvm.dbg.declare', 'llvm.dbg.value', 'llvm.dbg.label', 'llvm.assume', 'llvm.experimental.noalias.scope.decl',
     'llvm.stackrestore', 'llvm.donothing', 'llvm.prefetch', 'llvm.invariant.end', '__cxa_atexit', 'atexit', 'llvm.var.annotation')
def _nop(e, st, fr, ins, a, args): return 0

@reg('llvm.invariant.start', 'llvm.stacksave')
def _nullp(e, st, fr, ins, a, args): return 0

@reg('llvm.launder.invariant.group', 'llvm.strip.invariant.group', 'llvm.expect', 'llvm.threadlocal.address', 'llvm.ptr.annotation', 'llvm.ssa.copy')
def _id(e, st, fr, ins, a, args): return a[0]

@reg('llvm.memcpy', 'llvm.memmove')
def _memcpy(e, st, fr, ins, a, args):
    e.memcpy(st, a[0], a[1], a[2]); return 0
@reg('memcpy', 'memmove')
def _memcpy2(e, st, fr, ins, a, args):
    e.memcpy(st, a[0], a[1], a[2]); return a[0]
@reg('llvm.memset')
def _memset(e, st, fr, ins, a, args):
    e.memset(st, a[0], a[1] if isinstance(a[1], int) else a[1], a[2]); return 0
@reg('memset')
def _memset2(e, st, fr, ins, a, args):
    e.memset(st, a[0], mk_extract(7, 0, a[1]), a[2]); return a[0]

def w_of(args, i=0): return args[i][0].n

@reg('llvm.umul.with.overflow', 'llvm.uadd.with.overflow', 'llvm.usub.with.overflow', 'llvm.smul.with.overflow', 'llvm.sadd.with.overflow', 'llvm.ssub.with.overflow')
def _ovf(e, st, fr, ins, a, args):
    name = ins.a[0].v
    w = w_of(args); x, y = a[0], a[1]
    op = name.split('.')[1][1:]; signed = name.split('.')[1][0] == 's'
    r = e.binop(st, op, w, x, y)
    ext = z3.SignExt if signed else z3.ZeroExt
    k = w if op == 'mul' else 2
    X = ext(k, bv(x, w)); Y = ext(k, bv(y, w))
    R = {'mul': lambda: X * Y, 'add': lambda: X + Y, 'sub': lambda: X - Y}[op]()
    o = z3.simplify(R != ext(k, bv(r, w)))
    if z3.is_true(o): o = 1
    elif z3.is_false(o): o = 0
    return [r, o]

@reg('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')
def _mm(e, st, fr, ins, a, args):
    name = ins.a[0].v.split('.')[1]
    w = w_of(args)
    p = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[name]
    c = e.icmp(p, INT(w), a[0], a[1])
    if isinstance(c, int): return a[0] if c else a[1]
    return z3.If(c, bv(a[0], w), bv(a[1], w))
@reg('llvm.abs')
def _abs(e, st, fr, ins, a, args):
    w = w_of(args); x = bv(a[0], w)
    return z3.simplify(z3.If(x < 0, -x, x)) if isinstance(a[0], int) is False else (a[0] if not a[0] >> (w-1) else (-a[0]) & ((1 << w) - 1))
@reg('llvm.usub.sat')
def _usubsat(e, st, fr, ins, a, args):
    w = w_of(args); x, y = bv(a[0], w), bv(a[1], w)
    return cint(z3.If(z3.ULT(x, y), z3.BitVecVal(0, w), x - y))
@reg('llvm.uadd.sat')
def _uaddsat(e, st, fr, ins, a, args):
    w = w_of(args); x, y = bv(a[0], w), bv(a[1], w)
    return cint(z3.If(z3.ULT(x + y, x), z3.BitVecVal((1 << w) - 1, w), x + y))
def cint(x):
    x = z3.simplify(x)
    return x.as_long() if z3.is_bv_value(x) else x
@reg('llvm.ctpop')
def _ctpop(e, st, fr, ins, a, args):
    w = w_of(args)
    if isinstance(a[0], int): return bin(a[0]).count('1')
    p = [z3.Extract(i, i, a[0]) for i in range(w)]
    while len(p) > 1:
        q = [z3.ZeroExt(1, p[i]) + z3.ZeroExt(1, p[i + 1]) for i in range(0, len(p) - 1, 2)]
        if len(p) % 2: q.append(z3.ZeroExt(1, p[-1]))
        p = q
    r = p[0]
    return cint(z3.ZeroExt(w - r.size(), r) if r.size() < w else r)
@reg('llvm.ctlz')
def _ctlz(e, st, fr, ins, a, args):
    w = w_of(args)
    if isinstance(a[0], int): return w - a[0].bit_length()
    r = z3.BitVecVal(w, w)
    for i in range(w): r = z3.If(z3.Extract(i, i, a[0]) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return r
@reg('llvm.cttz')
def _cttz(e, st, fr, ins, a, args):
    w = w_of(args)
    if isinstance(a[0], int): return (a[0] & -a[0]).bit_length() - 1 if a[0] else w
    r = z3.BitVecVal(w, w)
    for i in reversed(range(w)): r = z3.If(z3.Extract(i, i, a[0]) == 1, z3.BitVecVal(i, w), r)
    return r
@reg('llvm.bswap')
def _bswap(e, st, fr, ins, a, args):
    w = w_of(args); n = w // 8
    return mk_concat([(mk_extract(8 * i + 7, 8 * i, a[0]), 8) for i in reversed(range(n))])
@reg('llvm.fshl', 'llvm.fshr')
def _fsh(e, st, fr, ins, a, args):
    w = w_of(args); name = ins.a[0].v
    x, y, s = bv(a[0], w), bv(a[1], w), bv(a[2], w)
    s2 = z3.ZeroExt(w, z3.URem(s, z3.BitVecVal(w, w)))
    c = z3.Concat(x, y)
    if 'fshl' in name: return cint(z3.Extract(2 * w - 1, w, c << s2))
    return cint(z3.Extract(w - 1, 0, z3.LShR(c, s2)))
@reg('llvm.is.constant')
def _isc(e, st, fr, ins, a, args): return 0
@reg('llvm.objectsize')
def _objsize(e, st, fr, ins, a, args): return M64
@reg('llvm.fabs')
def _fabs(e, st, fr, ins, a, args):
    w = layout(args[0][0]) * 8
    return e.binop(st, 'and', w, a[0], (1 << (w - 1)) - 1)
@reg('llvm.is.fpclass')
def _fpclass(e, st, fr, ins, a, args):
    S = FPS[args[0][0].k](); w = S.ebits() + S.sbits(); x = z3.fpBVToFP(bv(a[0], w), S); m = a[1]
    neg = z3.fpIsNegative(x)
    q = z3.Extract(S.sbits() - 2, S.sbits() - 2, bv(a[0], w)) == 1
    cl = [z3.And(z3.fpIsNaN(x), z3.Not(q)), z3.And(z3.fpIsNaN(x), q), z3.And(z3.fpIsInf(x), neg), z3.And(z3.fpIsNormal(x), neg),
          z3.And(z3.fpIsSubnormal(x), neg), z3.And(z3.fpIsZero(x), neg), z3.And(z3.fpIsZero(x), z3.Not(neg)), z3.And(z3.fpIsSubnormal(x), z3.Not(neg)),
          z3.And(z3.fpIsNormal(x), z3.Not(neg)), z3.And(z3.fpIsInf(x), z3.Not(neg))]
    return z3.Or(*[c for i, c in enumerate(cl) if m >> i & 1])

@reg('llvm.trap', 'abort', '__assert_fail', '_ZSt9terminatev', '__cxa_pure_virtual', 'exit', '_ZSt20__throw_length_errorPKc', '_ZSt20__throw_out_of_rangePKc',
     '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt19__throw_logic_errorPKc', '_ZSt25__throw_bad_function_callv', '_ZSt17__throw_bad_allocv',
     '_ZSt28__throw_bad_array_new_lengthv', 'llvm.ubsantrap')
def _abort(e, st, fr, ins, a, args):
    name = ins.a[0].v if not isinstance(ins.a[0], tuple) else '?'
    lab = 'no abort reachable'
    if name == '__assert_fail': lab = 'assertion in the code holds: ' + (e.cstr(st, a[0]) or '')
    elif 'throw' in name: lab = 'no ' + name
    allow = e.o.get('allow_abort')
    if st.ghost.get('abort_ok'):
        raise PathEnd()
    e.oblige(st, False, lab, 'abort')
    raise PathEnd()

# ---------------------------------------------------------------- heap
@reg('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def _new(e, st, fr, ins, a, args):
    n = a[0]
    if not isinstance(n, int):
        n = z3.simplify(n)
        if z3.is_bv_value(n): n = n.as_long()
        else: e.assume(st, z3.ULT(n, z3.BitVecVal(1 << 42, 64)))
    else:
        if n >= 1 << 42: raise PathEnd()
    r = e.new_region(st, 'heap%d' % e.next_rid, n, 'heap')
    if not isinstance(n, int): r.unit = 1; r.count = n
    st.nheap += 1
    return Ptr(r.rid, 0)
@reg('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def _new2(e, st, fr, ins, a, args): return _new(e, st, fr, ins, a, args)
@reg('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '_ZdaPvSt11align_val_t', '_ZdaPvmSt11align_val_t')
def _del(e, st, fr, ins, a, args):
    p = a[0]
    if isinstance(p, int) and p == 0: return 0
    if is_sym(p):
        if e.may(st, p == 0):
            if e.must(st, p == 0): return 0
            raise Fork([p == 0, p != 0])
    p = e.resolve(st, p, 'delete')
    r = e.regions[p.rid]
    ok = r.kind == 'heap' and p.rid not in st.dead
    e.oblige(st, ok, 'delete of a live heap object (%s)' % r.name, 'memory') if not ok else None
    if p.off != 0:
        e.oblige(st, lin_bv(p.off) == 0, 'delete of the start of a heap object', 'memory')
    st.dead = st.dead | {p.rid}
    st.nheap -= 1
    return 0

def _cstr(e, st, p):
    if not isinstance(p, Ptr) or not isinstance(p.off, int): return None
    out = bytearray()
    c = e.content(st, p.rid)
    o = p.off
    while len(out) < 300:
        x = c.cells.get(o)
        v = x[1] if x else 0
        if v == 0 or not isinstance(v, int): break
        out.append(v); o += 1
    return out.decode('latin1')
_s.Engine.cstr = lambda self, st, p: _cstr(self, st, p)

@reg('strlen')
def _strlen(e, st, fr, ins, a, args):
    p = e.resolve(st, a[0])
    if not isinstance(p.off, int): raise Undecided('strlen')
    n = 0
    while True:
        v = e.load(st, Ptr(p.rid, p.off + n), INT(8))
        if not isinstance(v, int): raise Undecided('strlen symbolic')
        if v == 0: return n
        n += 1
@reg('memcmp', 'bcmp')
def _memcmp(e, st, fr, ins, a, args):
    n = a[2]
    if not isinstance(n, int): raise Undecided('memcmp symbolic length')
    if n == 0: return 0
    if n > 256: raise Undecided('memcmp length')
    p = e.resolve(st, a[0]); q = e.resolve(st, a[1])
    r = z3.BitVecVal(0, 32)
    for i in reversed(range(n)):
        x = bv(e.load(st, Ptr(p.rid, lin_add(p.off, i)), INT(8)), 8); y = bv(e.load(st, Ptr(q.rid, lin_add(q.off, i)), INT(8)), 8)
        r = z3.If(x == y, r, z3.If(z3.ULT(x, y), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
    return cint(r)
def _ctype(lo, hi, delta):
    def f(e, st, fr, ins, a, args):
        x = bv(a[0], 32)
        c = z3.And(z3.UGE(x, lo), z3.ULE(x, hi))
        if delta is None: return cint(z3.If(c, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
        return cint(z3.If(c, x + delta, x))
    return f
I['toupper'] = _ctype(97, 122, -32)
I['tolower'] = _ctype(65, 90, 32)
I['isupper'] = _ctype(65, 90, None)
I['islower'] = _ctype(97, 122, None)

@reg('__cxa_guard_acquire')
def _cga(e, st, fr, ins, a, args): return 1
@reg('__cxa_guard_release')
def _cgr(e, st, fr, ins, a, args): return 0

# ---------------------------------------------------------------- specification primitives
def lab(e, st, p): return e.cstr(st, p) or '?'

@reg('__vp_any')
def _any(e, st, fr, ins, a, args):
    name = lab(e, st, a[0]); w = a[1]
    v = z3.BitVec('%s#%d' % (name, len(st.inputs)), w)
    st.inputs.append(('any', name, w, v))
    r = v if w == 64 else z3.ZeroExt(64 - w, v)
    return r
@reg('__vp_assume')
def _assume(e, st, fr, ins, a, args):
    e.assume(st, boolv(a[0])); return 0
@reg('__vp_assert')
def _assert(e, st, fr, ins, a, args):
    e.oblige(st, boolv(a[0]), lab(e, st, a[1]), 'ensures'); return 0
@reg('__vp_cover')
def _cover(e, st, fr, ins, a, args):
    l = lab(e, st, a[0])
    k = (e.hname, l)
    if e.covers.get(k) != 'sat':
        r = e.check(st.pc, None)
        e.covers[k] = r if r == 'sat' or k not in e.covers else e.covers[k]
        if r == 'sat' and not st.approx and e.o.get('witness') and not e.summarising: e.witness[k] = e.small_model(st, None)
    return 0
@reg('__vp_region')
def _region(e, st, fr, ins, a, args):
    """void* __vp_region(size_t count, size_t unit, const char* name): heap block with arbitrary contents"""
    n, unit, name = a[0], a[1], lab(e, st, a[2])
    if is_sym(n):
        n = z3.simplify(n)
        if z3.is_bv_value(n): n = n.as_long()
    if not isinstance(unit, int): raise Undecided('region unit')
    if is_sym(n): e.assume(st, z3.ULT(n, z3.BitVecVal(1 << 36, 64)))
    arr = z3.Array('%s@%d' % (name, len(st.inputs)), z3.BitVecSort(64), z3.BitVecSort(8 * unit))
    size = n * unit
    r = e.new_region(st, name, size, 'heap', ('sym', arr, unit))
    r.unit = unit; r.count = n
    st.nheap += 1
    st.inputs.append(('region', name, r.rid, arr, unit, n))
    return Ptr(r.rid, 0)
def _rinv(e, st, fr, ins, a, args, at=False):
    """void __vp_region_inv(void* p, bool (*inv)(const void* element)): every element of the region's initial contents satisfies inv;
    void __vp_region_inv_at(void* p, bool (*inv)(const void* element, uint64_t index))"""
    p = e.resolve(st, a[0]); r = e.regions[p.rid]; fp = a[1]
    arr, unit = r.init[1], r.init[2]
    cnt = bv(r.count, 64)
    snap = st.fork(); snap.pc = []
    cache = {}
    def ax(idx, el):
        k = (el.get_id(), idx.get_id() if at else 0)
        if k in cache: return cache[k]
        s = snap.fork()
        rr = e.new_region(s, 'ghost', unit, 'stack')
        e.write(s, rr.rid, 0, unit, el)
        rs, fn = pure_run(e, s, fp, [Ptr(rr.rid, 0)] + ([idx] if at else []))
        c = z3.simplify(z3.Implies(z3.ULT(idx, cnt), combine(rs, lambda x: boolv(x.frames[-1].loc['r']))))
        e.keep.append(el); e.keep.append(idx); e.keep.append(c)
        cache[k] = None if z3.is_true(c) else c
        return cache[k]
    e.axioms.setdefault(arr.get_id(), []).append(ax); e.keep.append(arr)
    return 0
reg('__vp_region_inv')(_rinv)
@reg('__vp_region_inv_at')
def _rinv_at(e, st, fr, ins, a, args): return _rinv(e, st, fr, ins, a, args, True)
@reg('__vp_arena')
def _arena(e, st, fr, ins, a, args):
    """void* __vp_arena(size_t unit): storage of a modelled container, practically unlimited, uninitialised, not counted as an allocation"""
    r = e.new_region(st, 'arena', (1 << 36) * a[0], 'arena')
    return Ptr(r.rid, 0)
@reg('__vp_havoc_obj')
def _hobj(e, st, fr, ins, a, args):
    """arbitrary contents for the object at p (n bytes): fresh initial content"""
    p = e.resolve(st, a[0]); n = a[1]
    r = e.regions[p.rid]
    if p.off == 0 and r.size == n:
        c = e.wcontent(st, p.rid)
        c.cells = {}; c.log = None
        return 0
    raise Undecided('havoc_obj')
@reg('__vp_heap_count')
def _hc(e, st, fr, ins, a, args): return st.nheap
@reg('__vp_is_live')
def _live(e, st, fr, ins, a, args):
    p = a[0]
    if isinstance(p, int): return 0
    p = e.resolve(st, p)
    return 0 if p.rid in st.dead else 1
@reg('__vp_stop')
def _stop(e, st, fr, ins, a, args): raise PathEnd()
@reg('__vp_abort_ok')
def _aok(e, st, fr, ins, a, args):
    st.ghost['abort_ok'] = 1 if (isinstance(a[0], int) and a[0]) else 0
    return 0
@reg('__vp_symbolic')
def _symb(e, st, fr, ins, a, args): return 1
@reg('__vp_split')
def _split(e, st, fr, ins, a, args):
    """case split on a condition (proof hint)"""
    c = boolv(a[0])
    if e.must(st, c) or e.must(st, z3.Not(c)): return 0
    raise Fork([c, z3.Not(c)])
@reg('__vp_hint')
def _hint(e, st, fr, ins, a, args):
    """iteration number at which the facts of later loops are instantiated (proof hint, no assumption)"""
    st.ghost['hints'] = tuple(st.ghost.get('hints', ())) + (a[0],)
    return 0
@reg('__vp_fresh_id')
def _fid(e, st, fr, ins, a, args):
    e.nfresh += 1
    return e.nfresh + (1 << 32)
@reg('__vp_note')
def _note(e, st, fr, ins, a, args):
    e.notes.add(lab(e, st, a[0])); return 0
@reg('__vp_print')
def _print(e, st, fr, ins, a, args):
    print('PRINT', lab(e, st, a[0]), [z3.simplify(x) if is_sym(x) else x for x in a[1:]]); return 0

# ---------------------------------------------------------------- ghost sequences
def pure_run(e, st, fp, argv):
    """all paths of a pure, loop-free specification function: list of (condition or None, end state)"""
    p = e.resolve(st, fp, 'call')
    fn = e.m.funcs[e.regions[p.rid].fn]
    e.m.body(fn)
    s = st.fork()
    base = len(s.pc)
    d = len(s.frames)
    nf = Frame(fn); nf.blk = fn.order[0]
    for (t, pn, _), v in zip(fn.params, argv): nf.loc[pn] = v
    # a fake caller frame that receives the result
    from irparse import Inst, Block, Func
    cf = Func('$spec'); cf._parsed = True
    b = Block('e'); ci = Inst('call', 'r', fn.ret, [None, []]); b.insts = [ci, Inst('unreachable', None, None, [])]; b.term = b.insts[1]
    cf.blocks = {'e': b}; cf.order = ['e']; cf._cfg = {'ipd': {}, 'loops': {}, 'live': {}, 'reach': set(), 'dom': {}}
    f0 = Frame(cf); f0.blk = 'e'; f0.ip = 0
    s.frames.append(f0); s.frames.append(nf)
    e.spec += 1
    try: out = e.run(s, d + 1, None)
    finally: e.spec -= 1
    return [(z3.And(*x.pc[base:]) if len(x.pc) > base else None, x) for x in out], fn

def combine(rs, get):
    res = None
    for c, x in rs:
        v = get(x)
        res = v if res is None or c is None else z3.If(c, v, res)
    return z3.simplify(res)

@reg('__vp_mseq')
def _mseq(e, st, fr, ins, a, args):
    """int __vp_mseq(const char* name, int n, const uint64_t* init, void (*step)(uint64_t k, const uint64_t* cur, uint64_t* next, void*), void* env)"""
    import loops
    name = lab(e, st, a[0]); n = a[1]
    ip = e.resolve(st, a[2])
    init = [e.load(st, Ptr(ip.rid, lin_add(ip.off, 8 * i)), INT(64)) for i in range(n)]
    fp, env = a[3], a[4]
    snap = st.fork()
    snap.pc = []            # the definition does not depend on the path
    e.nfresh += 1
    def setup(vals):
        s = snap.fork()
        rc = e.new_region(s, 'ghost', 8 * n, 'stack'); rn = e.new_region(s, 'ghost', 8 * n, 'stack')
        for i, v in enumerate(vals): e.store(s, Ptr(rc.rid, 8 * i), INT(64), v)
        return s, rc, rn
    def step(k, cur):
        s, rc, rn = setup(cur)
        rs, fn = pure_run(e, s, fp, [k, Ptr(rc.rid, 0), Ptr(rn.rid, 0), env])
        return [combine(rs, lambda x: bv(e.load(x, Ptr(rn.rid, 8 * i), INT(64)), 64)) for i in range(n)]
    g = loops.SeqGroup(name, e.nfresh, init, step)
    g.setup = setup; g.env = env
    sid = len(e.seqs) + 1
    e.seqs[sid] = g
    st.ghost['seqs'] = tuple(st.ghost.get('seqs', ())) + (sid,)
    return sid
@reg('__vp_mseq_inv')
def _mseqinv(e, st, fr, ins, a, args):
    """inductive invariant of a ghost machine: proved here (base and step), then available at every index"""
    g = e.seqs[a[0]]; fp = a[1]; label = lab(e, st, a[2])
    def inv(k, cur):
        s, rc, rn = g.setup(cur)
        rs, fn = pure_run(e, s, fp, [k, Ptr(rc.rid, 0), g.env])
        return combine(rs, lambda x: boolv(x.frames[-1].loc['r']))
    e.oblige(st, inv(z3.BitVecVal(0, 64), [bv(x, 64) for x in g.init]), label + ': holds initially', 'lemma')
    split = a[3] if isinstance(a[3], int) else 0
    for ki in list(range(split)) + [None]:
        k = e.fresh('lk', 64) if ki is None else z3.BitVecVal(ki, 64)
        cur = g.at(k)
        s = st.fork()
        if ki is None:
            s.pc.append(z3.ULT(k, z3.BitVecVal(1 << 40, 64)))
            if split: s.pc.append(z3.UGE(k, z3.BitVecVal(split, 64)))
        s.pc.append(inv(k, cur))
        for other in g.invs: s.pc.append(other(k, cur))
        e.keep.extend(s.pc)
        if not split and e.check(s.pc, None) == 'unsat': raise Undecided('ghost invariant is contradictory')
        try: e.oblige(s, inv(z3.simplify(k + 1), g.stepfn(k, cur)), label + ': preserved by a step' + ('' if ki is None else ' (k=%d)' % ki), 'lemma')
        except PathEnd: pass
    g.invs.append(inv); g.inst = {}
    return 0
@reg('__vp_mseq_at')
def _mseqat(e, st, fr, ins, a, args):
    import loops
    g = e.seqs[a[0]]
    t = z3.simplify(bv(a[2], 64))
    for c in g.axioms(e, t): loops.add_pc(e, st, c)
    return g.f[a[1]](t)

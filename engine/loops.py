"""Automatic inductive loop summaries.

A loop whose exit condition is symbolic is not unrolled.  From the state S0 at loop entry we build the state S(k) of an arbitrary
iteration k:  every header phi and every scalar memory cell the loop modifies ("memory phi") is represented as
  - base + step*k                 (affine candidate, checked inductive),
  - g(k) for a ghost sequence g   (candidate, base case and step checked), or
  - an uninterpreted sequence H(k) with H(0)=init and the step axiom instantiated where needed (always sound);
array writes whose address is affine in k become "map" entries: V(i) at address a+s*i for all 0<=i<k.
The body is then executed once from S(k): its obligations are proved for every iteration; the states that leave the loop continue with
k an arbitrary number of completed iterations, together with instances of "no earlier iteration left the loop".
Termination is not proved; the trip count is assumed to be below 2^40.
"""
import os
import z3
import sym as S
from sym import (Lin, lin_add, lin_of, lin_bv, lin_mul, lin_norm, Ptr, Undef, Undecided, PathEnd, bv, boolv, is_sym, Content, M64, mk_extract)
from irparse import INT, layout

class Fail(Exception):
    pass

def occurs(e, vs, memo=None):
    """does any var (by id) of vs occur in e"""
    seen = set(); st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if i in vs: return True
        st.extend(x.children())
    return False

def free_consts(e):
    seen = set(); st = [e]; out = {}
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[i] = x
        st.extend(x.children())
    return out

def sub(v, pairs):
    if v is None or isinstance(v, int): return v
    if isinstance(v, Ptr):
        return Ptr(v.rid, lin_of(z3.simplify(z3.substitute(lin_bv(v.off), *pairs)))) if not isinstance(v.off, int) else v
    if isinstance(v, Lin): return lin_of(z3.simplify(z3.substitute(v.bv(), *pairs)))
    return z3.substitute(v, *pairs)

def width(v, ty):
    if isinstance(v, Ptr): return 64
    if isinstance(v, z3.BoolRef): return 1
    if is_sym(v): return v.size()
    if ty is not None: return ty.n if ty.k == 'int' else layout(ty) * 8
    return None

RANGES = [(lambda w: 0, lambda w: (1 << (w - 1)) - 1, True), (lambda w: -(1 << (w - 1)), lambda w: (1 << (w - 1)) - 1, True), (lambda w: 0, lambda w: (1 << w) - 1, False)]
class Slot:
    """one loop-carried scalar: header phi or memory cell"""
    def __init__(self, kind, key, init, w, rid=None, off=None, size=None):
        self.kind = kind; self.key = key; self.init = init; self.w = w
        self.mode = None; self.step = None; self.seq = None; self.H = None
        self.rid = rid; self.off = off; self.size = size; self.tried = set()
        self.next = None
        self.rng = None       # range invariant of a narrow affine counter: index into RANGES, or -1
    def wide(self, eng, t, signed):
        """the counter as a 64-bit value without wrap-around"""
        st = self.step - (1 << self.w) if self.step >> (self.w - 1) else self.step
        i = z3.SignExt(64 - self.w, bv(self.init, self.w)) if signed else z3.ZeroExt(64 - self.w, bv(self.init, self.w))
        return i + t * z3.BitVecVal(st, 64)
    def rng_at(self, eng, t):
        lo, hi, sg = RANGES[self.rng]
        w = self.wide(eng, t, sg)
        return z3.And(w >= z3.BitVecVal(lo(self.w), 64), w <= z3.BitVecVal(hi(self.w), 64))
    def at(self, eng, t):
        """value at iteration t (BV64 expr)"""
        i = self.init
        if self.mode == 'same': return i
        if self.mode == 'affine':
            if isinstance(i, Ptr): return Ptr(i.rid, lin_add(i.off, lin_mul(lin_of(t), self.step)))
            tt = t if self.w == 64 else mk_extract(self.w - 1, 0, t)
            b = bv(i, self.w)
            if self.w == 64:
                r = lin_add(lin_of(i), lin_mul(lin_of(t), self.step))
                return lin_bv(r) if not isinstance(r, int) else r
            return b + tt * z3.BitVecVal(self.step, self.w)
        if self.mode == 'linexpr':   # step is a loop-invariant expression
            tt = t if self.w == 64 else mk_extract(self.w - 1, 0, t)
            return bv(i, self.w) + tt * self.step
        if self.mode == 'seq': return self.seq.val(eng, t, self.w)
        if self.mode == 'H':
            if isinstance(i, Ptr):
                return Ptr(i.rid, lin_of(self.H(t)))
            return self.H(t)
        raise Fail('slot')

class Seq:
    """one field of a ghost state machine declared by a contract:  s(0)=init, s(k+1)=step(k,s(k)).
    Fields of one machine share the group object, which owns the step function and the proved inductive invariants."""
    def __init__(self, group, i):
        self.group = group; self.i = i; self.name = '%s.%d' % (group.name, i); self.w = 64
        self.init = group.init[i]
        self.f = group.f[i]
    def val(self, eng, t, w=None):
        v = self.f(t)
        if w == 1: return v != 0
        if w is not None and w < 64: return mk_extract(w - 1, 0, v)
        return v
    def init_val(self, w):
        if w == 1: return bv(self.init, 64) != 0
        return bv(mk_extract(w - 1, 0, self.init), w) if w < 64 else bv(self.init, 64)
    def axioms(self, eng, st, t): return self.group.axioms(eng, t)

class SeqGroup:
    def __init__(self, name, uid, init, stepfn):
        self.name = name; self.uid = uid; self.init = init; self.stepfn = stepfn; self.invs = []
        self.f = [z3.Function('seq!%s!%d!%d' % (name, uid, i), z3.BitVecSort(64), z3.BitVecSort(64)) for i in range(len(init))]
        self.fields = [Seq(self, i) for i in range(len(init))]
        self.inst = {}
    def at(self, t): return [f(t) for f in self.f]
    def axioms(self, eng, t):
        """facts defining s(t)"""
        t = z3.simplify(t)
        k = t.get_id()
        if k in self.inst: return self.inst[k]
        ax = []
        for f, i in zip(self.f, self.init): ax.append(z3.Implies(t == 0, f(t) == bv(i, 64)))
        if not (z3.is_bv_value(t) and t.as_long() == 0):
            tm = z3.simplify(t - 1)
            nx = self.stepfn(tm, self.at(tm))
            for f, n in zip(self.f, nx): ax.append(z3.Implies(t != 0, f(t) == bv(n, 64)))
            for inv in self.invs: ax.append(z3.Implies(t != 0, inv(tm, self.at(tm))))
        for inv in self.invs: ax.append(inv(t, self.at(t)))
        ax = [x for x in (z3.simplify(y) for y in ax) if not z3.is_true(x)]
        eng.keep.append(t); eng.keep.extend(ax)
        self.inst[k] = ax
        return ax

def add_pc(eng, st, c):
    if isinstance(c, (bool, int)):
        if not c: raise PathEnd()
        return
    c = z3.simplify(c)
    if z3.is_true(c): return
    if z3.is_false(c): raise PathEnd()
    if z3.is_and(c):
        for x in c.children(): add_pc(eng, st, x)
        return
    i = c.get_id()
    if any(i == x.get_id() for x in st.pc): return
    st.pc.append(c); eng.keep.append(c)

class Map:
    """array writes of a loop: V(i) stored at off(i), size bytes, for 0<=i<n when guard(i)"""
    pass

def hook(eng, st, fr, header, body, alts):
    if eng.o.get('no_summary'): return None
    snap = fr.iters.get(('snap', header))
    if snap is None: return None
    key = id(snap)
    tried = eng.loops_done.get(key)
    if tried == 'done': raise PathEnd()
    if tried == 'fail': return None
    eng.keep.append(snap)
    depth = len(st.frames) - 1
    mark = len(eng.obls)
    mx = eng.o['max_iter']
    eng.summarising.append((depth, header))
    try:
        try: out = summarise(eng, snap, depth, header, body)
        except Undecided as u:
            if 'time budget' in str(u): raise
            raise Fail('undecided: %s' % u)
        finally: eng.summarising.pop()
        eng.loops_done[key] = 'done'
        eng.stats['loops'] = eng.stats.get('loops', 0) + 1
        return out
    except Fail as f:
        if os.environ.get('VPDBG'): print('not summarised:', f)
        del eng.obls[mark:]
        l = eng.where(st)
        eng.loops_done[key] = 'done'
        eng.summarising.append((depth, header))
        try:
            out, rest = unroll(eng, snap, depth, header, body, eng.o.get('unroll', 40))
            w = '%s:%s' % ((l[0] or '?').split('/')[-1], l[1]) if l else '?'
            if rest:
                eng.notes.add('loop at %s not summarised (%s)' % (w, f))
                if eng.o.get('on_bound') != 'cut': raise Undecided('loop at %s needs an invariant (%s)' % (w, f))
                eng.bounded.add('loop at %s cut after %d iterations' % (w, eng.o.get('unroll', 40)))
            if not out: raise PathEnd()
            return out
        finally: eng.summarising.pop()

def unroll(eng, S0, depth, header, body, n):
    """execute up to n iterations one by one; (exit states, states still looping)"""
    cur = [S0.fork()]
    out = []
    for it in range(n):
        nxt = []
        for s in cur:
            f = s.frames[depth]; f.iters['$left'] = 0; f.iters['$arr'] = None
            base = len(s.pc); par = s.fork()
            back, exits = run_body(eng, s, depth, header, body)
            out += exits
            res = []
            for b in back:
                for i in range(len(res)):
                    m = eng.merge(res[i], b, par, base, depth, header) if eng.o['merge'] else None
                    if m is not None: res[i] = m; break
                else: res.append(b)
            nxt += res
        if not nxt: return out, []
        if len(nxt) > 64: return out, nxt
        cur = nxt
    return out, cur

def run_body(eng, s, depth, header, body):
    """run from the header (after phis) to the back edge or an exit: (back, exits)"""
    fn = s.frames[depth].fn
    back = []; exits = []
    base = len(s.pc)
    work = [s]
    # step manually: first step leaves the header position
    def arrive(x):
        fr = x.frames[depth] if len(x.frames) > depth else None
        if fr is None: return 'exit'
        if len(x.frames) - 1 != depth: return None
        if fr.iters.get('$arr') == header and fr.blk == header and fr.ip == 0 and fr.iters.get('$left'): return 'back'
        if fr.blk not in body: return 'exit'
        return None
    cnt = 0
    while work:
        x = work.pop()
        try:
            while True:
                a = arrive(x)
                if a == 'back': back.append(x); break
                if a == 'exit': exits.append(x); break
                at0 = len(x.frames) - 1 == depth and x.frames[depth].blk == header and x.frames[depth].ip == 0
                r = eng.step(x)
                if len(x.frames) > depth and x.frames[depth].blk != header or (len(x.frames) > depth and x.frames[depth].ip > 0): x.frames[depth].iters['$left'] = 1
                if r is None: continue
                for y in r:
                    # a case split of the first instruction of the header runs it again: the header has not been left
                    if len(y.frames) > depth and not (at0 and len(y.frames) - 1 == depth and y.frames[depth].blk == header and y.frames[depth].ip == 0): y.frames[depth].iters['$left'] = 1
                work.extend(r[1:])
                if not r: break
                x = r[0]
                cnt += 1
                if cnt > 400: raise Fail('too many body paths')
        except PathEnd:
            continue
    return back, exits

def changed(eng, a, b, news):
    """memory cells differing between state a (before) and b (after): list of (rid, off, size, guard, val) or None if unsupported"""
    out = []
    for rid, cb in b.mem.items():
        ca = a.mem.get(rid)
        if ca is cb: continue
        reg = eng.regions[rid]
        if rid in news: continue       # allocated in this iteration
        if ca is None:
            ca = reg.initial
            if ca is None: raise Fail('memory')
        if ca is cb: continue
        la = ca.log or []; lb = cb.log or []
        if ca.init is not cb.init: raise Fail('region re-initialised')
        if ca.log is None and cb.log is None:
            for o, (n, v) in cb.cells.items():
                x = ca.cells.get(o)
                if x is not None and x[0] == n and (x[1] is v or (isinstance(v, int) and isinstance(x[1], int) and v == x[1])): continue
                out.append(['cell', rid, o, n, None, v])
            for o in ca.cells:
                if o not in cb.cells: raise Fail('cell split')
            continue
        # log mode: cells must be unchanged unless region was in concrete mode
        for o, (n, v) in cb.cells.items():
            x = ca.cells.get(o)
            if x is None or x[0] != n or not (x[1] is v or (isinstance(v, int) and isinstance(x[1], int) and v == x[1])):
                out.append(['cell', rid, o, n, None, v])
        i = 0
        while i < len(la) and i < len(lb) and la[i] is lb[i]: i += 1
        if i < len(la): raise Fail('log rewritten')
        for e in lb[i:]:
            if e[0] != 'w': raise Fail('block copy in loop')
            out.append(['log', rid, e[2], e[3], e[1], e[4]])
    for rid in a.mem:
        if rid not in b.mem and eng.regions[rid].kind != 'stack': raise Fail('memory freed in loop')
    if a.dead != b.dead and (b.dead - a.dead) - news: raise Fail('memory freed in loop')
    return out

def summarise(eng, S0, depth, header, body):
    fn = S0.frames[depth].fn
    fr0 = S0.frames[depth]
    tys = eng.ssa_types(fn)
    phis = [p for p in fn.blocks[header].phis]
    saved = (list(eng.obls), dict(eng.covers))
    eng.nfresh += 1
    uid = eng.nfresh
    K = z3.BitVec('it!%d' % uid, 64)
    if eng.o.get('loop_depth', 0) > 3: raise Fail('nesting')

    slots = []
    for p in phis:
        v = fr0.loc[p.res]
        if isinstance(v, list): raise Fail('aggregate phi')
        slots.append(Slot('phi', p.res, v, width(v, p.ty)))
    havoc = {}        # rid -> fresh contents: regions written at indices the summary cannot follow
    maps = []         # list of dict(rid, off(K) Lin, size, stride, V, guard, val)
    memslots = {}
    facts = []        # functions t -> list of z3 facts valid for every completed iteration i<k   (instantiated at t)
    insts = [z3.simplify(K - 1)] + [z3.simplify(bv(h, 64)) for h in S0.ghost.get('hints', ())]

    def skol(s):
        s.H = z3.Function('H!%d!%s' % (uid, str(s.key)[-40:]), z3.BitVecSort(64), z3.BitVecSort(s.w) if s.w != 1 else z3.BoolSort())

    def probe(state_builder):
        m1 = len(eng.obls); cov = dict(eng.covers)
        oldd = eng.o.get('loop_depth', 0); eng.o['loop_depth'] = oldd + 1
        eng.probing += 1
        try:
            s = state_builder()
            pre = s.fork()
            r0 = eng.next_rid
            back, exits = run_body(eng, s, depth, header, body)
            return pre, back, exits, set(range(r0, eng.next_rid))
        finally:
            eng.probing -= 1
            eng.o['loop_depth'] = oldd

    def drop_obls(m):
        del eng.obls[m:]

    # ---- first concrete-entry iteration: find what changes
    m1 = len(eng.obls); cov0 = dict(eng.covers)
    def entry():
        s = S0.fork()
        f = s.frames[depth]; f.iters['$left'] = 0; f.iters['$arr'] = None
        return s
    pre, back, exits, news = probe(entry)
    drop_obls(m1); eng.covers = cov0
    if not back:
        # body never comes back: at most one iteration; just run it
        raise Fail('no back edge state')

    def classify(slot, vals):
        """guess the mode from the values after one iteration"""
        i = slot.init
        ds = set()
        for v in vals:
            if isinstance(v, Undef): return 'H'
            if isinstance(i, Ptr) != isinstance(v, Ptr): return 'bad'
            if isinstance(i, Ptr):
                if i.rid != v.rid: return 'bad'
                d = lin_add(v.off, i.off, -1)
            elif isinstance(i, int) and i == 0 and tys.get(slot.key) is not None and tys[slot.key].k == 'ptr' and slot.kind == 'phi' : 
                return 'bad' if not isinstance(v, int) else ('same' if v == i else 'bad')
            elif slot.w == 1:
                if isinstance(v, int) and isinstance(i, int) and v == i: d = 0
                elif is_sym(v) and is_sym(i) and v.eq(i): d = 0
                else: return 'H'
            else:
                d = z3.simplify(bv(v, slot.w) - bv(i, slot.w))
                if z3.is_bv_value(d): d = d.as_long()
                else: d = d
            if not isinstance(d, int): return 'H'
            ds.add(d)
        if len(ds) != 1: return 'H'
        slot.step = ds.pop()
        return 'same' if slot.step == 0 else 'affine'

    def phi_next(b, p): return b.frames[depth].loc[p.res]

    for s, p in zip(slots, phis):
        s.mode = classify(s, [phi_next(b, p) for b in back])
        if s.mode == 'bad': raise Fail('pointer phi')
        if s.mode == 'H': skol(s)

    def mk_havoc(rid, v):
        if isinstance(v, Ptr): raise Fail('pointer array write at a non-affine index')
        for k in [k for k, m in memslots.items() if m.rid == rid]: del memslots[k]
        maps[:] = [m for m in maps if m['rid'] != rid]
        havoc[rid] = ('sym', z3.Array('hav!%d!%d' % (uid, rid), z3.BitVecSort(64), z3.BitVecSort(8)), 1)

    def note_changes(pre, back, news):
        """returns True if new memory slots/maps were discovered"""
        new = False
        for b in back:
            for kind, rid, off, n, guard, v in changed(eng, pre, b, news):
                o = off
                if rid in havoc: continue
                if isinstance(o, int) or not occurs(o.bv(), {K.get_id()}):
                    inv = True
                    # an offset may depend on H sequences (non affine): treat as unsupported
                    if not isinstance(o, int):
                        for s in list(slots) + list(memslots.values()):
                            if s.H is not None and ('H!%d!' % uid) in str(o.bv()): mk_havoc(rid, v); new = True; break
                    if rid in havoc: continue
                    # first (concrete) probe may show stride-0 offsets which are really affine; decided in the next round
                    key = ('m', rid, o if isinstance(o, int) else o.key(), n)
                    if key not in memslots:
                        if pre is first_pre and kind == 'log':
                            cand.append((rid, o, n)); continue
                        c0 = eng.content(S0, rid)
                        try: iv = eng.cread(S0, rid, c0, o, n, isinstance(v, Ptr))
                        except S.Fork: raise Fail('ambiguous cell')
                        ms = Slot('mem', key, iv, 8 * n, rid, o, n)
                        ms.mode = 'H'; skol(ms)
                        if isinstance(v, Ptr) != isinstance(iv, Ptr): 
                            if isinstance(v, Ptr):
                                # a temporary that holds the object made in this iteration: forgotten (reading it later marks the state approximate)
                                if eng.regions[rid].kind == 'stack' and v.rid in news: mk_havoc(rid, 0); new = True; continue
                                raise Fail('pointer cell')
                        memslots[key] = ms; new = True
                else:
                    lk = None
                    for mp in maps:
                        if mp['rid'] == rid and mp['size'] == n and lin_add(mp['off'], o, -1) == 0: lk = mp
                    if lk is None:
                        kc = o.t.get(K.get_id())
                        if kc is None or not all(not occurs(x, {K.get_id()}) for i_, (x, kk) in o.t.items() if i_ != K.get_id()):
                            mk_havoc(rid, v); new = True; continue
                        if 'H!%d!' % uid in str(o.bv()): mk_havoc(rid, v); new = True; continue
                        maps.append({'rid': rid, 'off': o, 'size': n, 'stride': kc[1], 'V': z3.Function('V!%d!%d' % (uid, len(maps)), z3.BitVecSort(64), z3.BitVecSort(8 * n)),
                                     'G': z3.Function('G!%d!%d' % (uid, len(maps)), z3.BitVecSort(64), z3.BoolSort()), 'val': None, 'guard': None, 'isptr': isinstance(v, Ptr)})
                        new = True
        return new

    first_pre = pre; cand = []
    # in the concrete probe K does not occur, so log writes are only collected after a generic run; cells (fixed offset) become slots now
    first_pre = None

    ghosts = [f for g in S0.ghost.get('seqs', ()) for f in eng.seqs[g].fields]

    def build(final=False):
        s = S0.fork()
        f = s.frames[depth]
        f.iters['$left'] = 0
        f.iters['$arr'] = None
        f.iters[('sym', header)] = 0
        f.iters[header] = 0
        s.pc.append(z3.ULT(K, z3.BitVecVal(1 << 40, 64)))
        for sl in slots + list(memslots.values()):
            if sl.mode == 'affine' and sl.w is not None and 1 < sl.w < 64 and not isinstance(sl.init, Ptr) and isinstance(sl.step, int):
                if sl.rng is None:
                    sl.rng = 0
                    while sl.rng < len(RANGES) and not eng.must(S0, sl.rng_at(eng, z3.BitVecVal(0, 64))): sl.rng += 1
                    if sl.rng == len(RANGES): sl.rng = -1
                if sl.rng >= 0: add_pc(eng, s, sl.rng_at(eng, K))
        for sl, p in zip(slots, phis): f.loc[p.res] = sl.at(eng, K)
        for rid, ini in havoc.items():
            c = eng.wcontent(s, rid)
            if c.log is None: c.log = []
            c.log.append(('havoc', None, 0, None, ini, 'contents of region %s after the loop' % eng.regions[rid].name))
        for ms in memslots.values():
            c = eng.wcontent(s, ms.rid)
            if c.log is None and isinstance(ms.off, int): eng.cells_write(c, ms.off, ms.size, ms.at(eng, K))
            else:
                if c.log is None: c.log = []
                c.log.append(('w', None, ms.off, ms.size, ms.at(eng, K)))
        for mp in maps:
            c = eng.wcontent(s, mp['rid'])
            if c.log is None: c.log = []
            c.log.append(('map', None, mp['off'], mp['size'], mp, K, K))
        for sl in slots + list(memslots.values()):
            if sl.mode == 'seq':
                for a in sl.seq.axioms(eng, s, K): add_pc(eng, s, a)
                for a in sl.seq.axioms(eng, s, z3.simplify(K + 1)): add_pc(eng, s, a)
        for g in ghosts:
            for a in g.axioms(eng, s, K): add_pc(eng, s, a)
            for a in g.axioms(eng, s, z3.simplify(K + 1)): add_pc(eng, s, a)
        for sl in slots + list(memslots.values()):
            if sl.mode == 'H':
                if isinstance(sl.init, Ptr): ini = lin_bv(sl.init.off)
                else: ini = boolv(sl.init) if sl.w == 1 else bv(sl.init, sl.w)
                add_pc(eng, s, z3.Implies(K == 0, sl.H(K) == ini))
        if facts:
            for sl in slots + list(memslots.values()):
                if sl.mode == 'seq':
                    for t in insts[1:]:
                        for a in sl.seq.axioms(eng, s, t): add_pc(eng, s, a)
        for ft in facts:
            for t in insts:
                for c in ft(t): add_pc(eng, s, z3.Implies(z3.ULT(t, K), c))
        eng.keep.extend(s.pc)
        return s

    # values of the first iterations, to discard ghost candidates cheaply
    early = []
    def early_states():
        if early: return early
        early.append([S0])
        cur = [S0.fork()]
        eng.probing += 1
        oldd = eng.o.get('loop_depth', 0); eng.o['loop_depth'] = oldd + 1
        try:
            for it in range(3):
                nxt = []
                for s in cur:
                    f = s.frames[depth]; f.iters['$left'] = 0; f.iters['$arr'] = None
                    nxt += run_body(eng, s, depth, header, body)[0]
                if not nxt or len(nxt) > 12: break
                early.append([x.fork() for x in nxt])
                cur = nxt
        except (Fail, Undecided): pass
        finally:
            eng.probing -= 1; eng.o['loop_depth'] = oldd
        return early
    emodels = {}
    gvals = {}
    def gval(g, j):
        k = (id(g.group), j)
        if k not in gvals:
            gvals[k] = [bv(x, 64) for x in g.group.init] if j == 0 else [bv(x, 64) for x in g.group.stepfn(z3.BitVecVal(j - 1, 64), [gval(f, j - 1) for f in g.group.fields])]
        return gvals[k][g.i]
    def plausible(sl, g):
        """concrete test of a candidate on the first iterations (a filter only; accepted candidates are proved inductive)"""
        for j, sts in enumerate(early_states()):
            if j == 0: continue
            for bi, b in enumerate(sts):
                if (j, bi) not in emodels:
                    s = z3.SolverFor('QF_AUFBV'); s.set('timeout', 4000); s.add(b.pc)
                    emodels[(j, bi)] = s.model() if str(s.check()) == 'sat' else None
                m = emodels[(j, bi)]
                if m is None: continue
                try: nv = next_val(eng, b, sl, depth, phis, slots)
                except Exception: continue
                if isinstance(nv, Ptr) or isinstance(nv, Undef): return False
                w = gval(g, j)
                want = (w != 0) if sl.w == 1 else mk_extract(sl.w - 1, 0, w) if sl.w < 64 else w
                d = (boolv(nv) != boolv(want)) if sl.w == 1 else (bv(nv, sl.w) != bv(want, sl.w))
                if z3.is_true(m.eval(d, model_completion=True)): return False
                d = z3.simplify(d)
                if z3.is_false(d): continue
                s = z3.SolverFor('QF_AUFBV'); s.set('timeout', 1000); s.add(b.pc); s.add(d)
                if str(s.check()) == 'sat': emodels[(j, bi)] = s.model(); return False
        return True

    eng.cur_maps = getattr(eng, 'cur_maps', [])
    rounds = 0; okrng = set(); okslots = set(); confirm = False; misses = {}
    while True:
        rounds += 1
        if rounds > 50: raise Fail('no fixpoint')
        m1 = len(eng.obls); cov0 = dict(eng.covers); nf0 = eng.nfresh
        if rounds == 1 and not eng_feasible(eng, build()): raise Fail('infeasible generic state')
        pre, back, exits, news = probe(build)
        drop_obls(m1); eng.covers = cov0
        if note_changes(pre, back, news): confirm = False; continue
        if os.environ.get('VPDBG'): print('round', rounds, {str(sl.key)[-30:]: sl.mode + (':' + sl.seq.name if sl.mode == 'seq' else '') for sl in slots + list(memslots.values())}, len(maps), list(havoc))
        # check candidates
        again = False
        K1 = z3.simplify(K + 1)
        for sl in slots + list(memslots.values()):
            if sl.mode in ('same', 'affine', 'seq', 'linexpr') and (confirm or sl.key not in okslots):
                for b in back:
                    nv = next_val(eng, b, sl, depth, phis, slots)
                    want = sl.at(eng, K1)
                    ok = False
                    if isinstance(nv, Ptr) or isinstance(want, Ptr):
                        if isinstance(nv, Ptr) and isinstance(want, Ptr) and nv.rid == want.rid:
                            ok = eng.must(b, lin_bv(nv.off) == lin_bv(want.off), True)
                    elif sl.w == 1: ok = eng.must(b, boolv(nv) == boolv(want), True)
                    else: ok = eng.must(b, bv(nv, sl.w) == bv(want, sl.w), True)
                    if not ok:
                        if os.environ.get('VPDBG') == '2' and sl.mode == 'seq':
                            q = z3.SolverFor('QF_AUFBV'); q.set('timeout', 8000); q.add(b.pc); q.add(bv(nv, sl.w) != bv(want, sl.w))
                            print('step not proved', sl.key, str(q.check()), '\n NEXT', z3.simplify(bv(nv, sl.w)), '\n WANT', z3.simplify(bv(want, sl.w)), '\n', str(q.model())[:1500] if str(q.check()) == 'sat' else '')
                        nm = sl.mode if sl.mode != 'seq' else sl.seq.name
                        misses[(sl.key, nm)] = misses.get((sl.key, nm), 0) + 1
                        if sl.mode != 'seq' or misses[(sl.key, nm)] > 2: sl.tried.add(nm)
                        sl.mode = 'H'; skol(sl); again = True
                        break
                else: okslots.add(sl.key)
                if sl.mode == 'H': okslots.discard(sl.key); confirm = False
        # range invariants of narrow counters (assumed in the generic state, dropped when not inductive)
        for sl in slots + list(memslots.values()):
            while sl.mode == 'affine' and sl.rng is not None and sl.rng >= 0 and (confirm or (sl.key, sl.rng) not in okrng):
                if all(eng.must(b, sl.rng_at(eng, K1), True) for b in back): okrng.add((sl.key, sl.rng)); break
                again = True; confirm = False
                sl.rng += 1
                while sl.rng < len(RANGES) and not eng.must(S0, sl.rng_at(eng, z3.BitVecVal(0, 64))): sl.rng += 1
                if sl.rng == len(RANGES): sl.rng = -1
                havoc.clear(); maps.clear(); okrng.clear()
                break
        if again: continue
        # try to promote H slots
        for sl in slots + list(memslots.values()):
            if sl.mode != 'H' or isinstance(sl.init, Ptr): 
                if sl.mode == 'H' and isinstance(sl.init, Ptr) and 'affine' not in sl.tried:
                    ds = set()
                    for b in back:
                        nv = next_val(eng, b, sl, depth, phis, slots)
                        if not isinstance(nv, Ptr) or nv.rid != sl.init.rid: ds.add(None); break
                        d = lin_add(nv.off, lin_of(sl.H(K)), -1)
                        ds.add(d if isinstance(d, int) else None)
                    if len(ds) == 1 and None not in ds:
                        sl.mode = 'affine'; sl.step = ds.pop(); again = True; break
                continue
            if 'affine' not in sl.tried and 'same' not in sl.tried:
                ds = []
                for b in back:
                    nv = next_val(eng, b, sl, depth, phis, slots)
                    if isinstance(nv, Ptr): ds.append(None); break
                    if sl.w == 1: ds.append(None); break
                    d = z3.simplify(bv(nv, sl.w) - sl.H(K))
                    ds.append(d.as_long() if z3.is_bv_value(d) else None)
                if ds and ds[0] is not None and all(x == ds[0] for x in ds):
                    sl.mode = 'affine' if ds[0] else 'same'; sl.step = ds[0]; again = True; break
                if 'same?' not in sl.tried and ds and back and not isinstance(sl.init, Ptr):
                    sl.tried.add('same?')
                    nvs = [next_val(eng, b, sl, depth, phis, slots) for b in back]
                    if not any(isinstance(x, (Ptr, Undef)) for x in nvs) and all(eng.must(b, (boolv(x) == sl.H(K)) if sl.w == 1 else (bv(x, sl.w) == sl.H(K)), True) for b, x in zip(back, nvs)):
                        sl.mode = 'same'; again = True; break
            for g in ghosts:
                if g.name in sl.tried: continue
                if sl.w > 64: continue
                # base
                iv = boolv(sl.init) if sl.w == 1 else bv(sl.init, sl.w)
                if not eng.must(S0, iv == g.init_val(sl.w)): sl.tried.add(g.name); continue
                if len(ghosts) > 1 and not plausible(sl, g): sl.tried.add(g.name); continue
                sl.mode = 'seq'; sl.seq = g; again = True; break
        if again: continue
        # scalars of stack temporaries that nothing in the body depends on: forget them (reading one later marks the state approximate)
        dead = False
        for ms in [m for m in memslots.values() if m.mode == 'H' and eng.regions[m.rid].kind == 'stack' and not isinstance(m.init, Ptr)]:
            did = ms.H.get_id() if hasattr(ms.H, 'get_id') else None
            nm = ms.H.name()
            def uses(e):
                if e is None or isinstance(e, (int, Undef)): return False
                if isinstance(e, Ptr): e = lin_bv(e.off)
                if isinstance(e, int): return False
                seen = set(); stk = [e]
                while stk:
                    x = stk.pop()
                    if x.get_id() in seen: continue
                    seen.add(x.get_id())
                    if z3.is_app(x) and x.num_args() == 1 and x.decl().name() == nm: return True
                    stk.extend(x.children())
                return False
            others = [o for o in slots + list(memslots.values()) if o.rid != ms.rid]
            if any(m2.rid == ms.rid and m2.mode != 'H' for m2 in memslots.values()): continue
            nb = len(pre.pc)
            if any(uses(c) for x in back + exits for c in x.pc[nb:]) or any(uses(next_val(eng, b, o, depth, phis, slots)) for b in back for o in others): continue
            if any(mp['rid'] == ms.rid for mp in maps) or ms.rid in havoc: continue
            mk_havoc(ms.rid, 0); dead = True; break
        if dead: continue
        if not confirm: confirm = True; continue
        # facts: what holds after a completed iteration (continue condition, step relation of H slots, map values)
        if not facts:
            base = len(pre.pc)
            new_vars = fresh_since(eng, back, base, slots, memslots, maps, depth, phis, nf0, news)
            fmap = [(x, z3.Function('%s@%d' % (x.decl().name(), uid), z3.BitVecSort(64), x.sort())(K)) for x in new_vars]
            conts = []
            for b in back:
                conts.append(z3.And(*b.pc[base:]) if len(b.pc) > base else z3.BoolVal(True))
            if not conts: raise Fail('no back edge state')
            cont = z3.Or(*conts) if len(conts) > 1 else conts[0]
            rel = []
            for ci, b in zip(conts, back):
                eqs = []
                for sl in slots + list(memslots.values()):
                    if sl.mode == 'H':
                        nv = next_val(eng, b, sl, depth, phis, slots)
                        if isinstance(sl.init, Ptr):
                            if not isinstance(nv, Ptr) or nv.rid != sl.init.rid: raise Fail('pointer slot')
                            eqs.append(sl.H(K1) == lin_bv(nv.off))
                        else: eqs.append(sl.H(K1) == (boolv(nv) if sl.w == 1 else bv(nv, sl.w)))
                wr = changed(eng, pre, b, news)
                for mp in maps:
                    gs = []; vv = None
                    for kind, rid, off, n, guard, v in wr:
                        if rid == mp['rid'] and n == mp['size'] and not isinstance(off, int) and lin_add(off, mp['off'], -1) == 0:
                            g = guard if guard is not None else z3.BoolVal(True)
                            vb = bv(v, 8 * n)
                            vv = vb if vv is None else z3.If(g, vb, vv)
                            gs.append(g)
                    if not gs: eqs.append(z3.Not(mp['G'](K)))
                    else:
                        eqs.append(mp['G'](K) == z3.Or(*gs))
                        eqs.append(z3.Implies(z3.Or(*gs), mp['V'](K) == vv))
                rel.append(z3.Implies(ci, z3.And(*eqs)) if eqs else z3.BoolVal(True))
            whole = z3.And(cont, *rel)
            if fmap: whole = z3.substitute(whole, *fmap)
            whole = z3.simplify(whole)
            eng.keep.append(whole)
            facts.append(lambda t, w=whole: [z3.substitute(w, (K, t))])
            # interesting instances: where an equality with K in an exit condition holds
            for x in exits:
                for c in x.pc[base:]:
                    for k0 in solve_eq(c, K):
                        k0 = z3.simplify(k0)
                        if not any(k0.eq(y) for y in insts): insts.append(k0)
            # cross-iteration disjointness of map writes
            check_maps(eng, pre, maps, K, memslots, lambda t: z3.substitute(whole, (K, t)))
            continue
        break
    for mp in maps:
        mp['fact'] = (lambda t, f=facts[0], qs=[sl.seq for sl in slots + list(memslots.values()) if sl.mode == 'seq']: f(t) + [a for q in qs for a in q.axioms(eng, None, t)]) if facts else None
    # ---- final run, obligations recorded
    approx = bool(havoc) or any(sl.mode == 'H' for sl in slots + list(memslots.values()))
    if approx:
        # values of some variables are only known through one-step relations: prefer exact unrolling when the loop is short
        m1 = len(eng.obls); cov0 = dict(eng.covers)
        try:
            eng.probing += 1
            try: out, rest = unroll(eng, S0, depth, header, body, eng.o.get('try_unroll', 24))
            finally: eng.probing -= 1
            if not rest:
                out, rest = unroll(eng, S0, depth, header, body, eng.o.get('try_unroll', 24))
                if not out: raise PathEnd()
                return out
        except (Fail, Undecided): pass
        drop_obls(m1); eng.covers = cov0
    s = build(True)
    oldd = eng.o.get('loop_depth', 0); eng.o['loop_depth'] = oldd + 1
    if approx: s.approx = tuple(sorted(set(s.approx) | {'loop:%s' % (eng.where(S0),)}))
    try: back, exits = run_body(eng, s, depth, header, body)
    finally: eng.o['loop_depth'] = oldd
    out = []
    for x in exits:
        if len(x.frames) > depth:
            x.frames[depth].iters[('sym', header)] = 0
        out.append(x)
    eng.loop_log = getattr(eng, 'loop_log', [])
    eng.loop_log.append((eng.where(S0), {str(sl.key)[-30:]: sl.mode + (':' + sl.seq.name if sl.mode == 'seq' else '') for sl in slots + list(memslots.values())}, len(maps)))
    if not out: raise PathEnd()
    return out

def eng_feasible(eng, s):
    return eng.check(s.pc, None) != 'unsat'

def next_val(eng, b, sl, depth, phis, slots):
    if sl.kind == 'phi': return b.frames[depth].loc[sl.key]
    try: return eng.cread(b, sl.rid, eng.content(b, sl.rid), sl.off, sl.size, isinstance(sl.init, Ptr))
    except S.Fork: raise Fail('ambiguous cell')

def fresh_since(eng, back, base, slots, memslots, maps, depth, phis, nf0, news):
    """constants introduced while executing the generic iteration"""
    out = {}
    def look(e):
        if e is None or isinstance(e, int): return
        if isinstance(e, Ptr): e = lin_bv(e.off)
        for i, x in free_consts(e).items():
            nm = x.decl().name()
            if '!' in nm:
                try: k = int(nm.rsplit('!', 1)[1])
                except ValueError: continue
                if nm.startswith('m!'):
                    if int(nm.split('!')[1]) in news: out[i] = x
                elif k > nf0 and not nm.startswith('it!'): out[i] = x
            elif '#' in nm and nm in eng.iter_inputs: out[i] = x
    for b in back:
        for c in b.pc[base:]: look(c)
        for sl in list(slots) + list(memslots.values()): look(next_val(eng, b, sl, depth, phis, slots))
        for kind, rid, off, n, guard, v in []: pass
        for rid, c in b.mem.items():
            for e in (c.log or [])[-8:]:
                if e[0] == 'w':
                    look(e[4]); look(e[1])
    return list(out.values())

def solve_eq(c, K):
    out = []
    seen = set(); st = [c]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_eq(x) and isinstance(x.children()[0], z3.BitVecRef) and x.children()[0].size() == 64:
            d = lin_add(lin_of(x.children()[0]), lin_of(x.children()[1]), -1)
            if isinstance(d, Lin) and K.get_id() in d.t:
                k = d.t[K.get_id()][1]
                ks = k - (1 << 64) if k >> 63 else k
                rest = dict(d.t); del rest[K.get_id()]
                rest = lin_norm(Lin(d.c, rest)) if rest else d.c
                # ks*K + rest == 0
                r = lin_mul(rest, -1)
                a = abs(ks)
                if ks < 0: r = lin_mul(r, -1)
                if isinstance(r, int):
                    rs = r - (1 << 64) if r >> 63 else r
                    if rs % a == 0: out.append(z3.BitVecVal((rs // a) & M64, 64))
                else:
                    c0 = r.c - (1 << 64) if r.c >> 63 else r.c
                    if c0 % a == 0 and all(((kk - (1 << 64)) if kk >> 63 else kk) % a == 0 for _, kk in r.t.values()):
                        t = {i: (x2, ((((kk - (1 << 64)) if kk >> 63 else kk) // a) & M64)) for i, (x2, kk) in r.t.items()}
                        out.append(Lin((c0 // a) & M64, t).bv())
                    else:
                        out.append(z3.UDiv(lin_bv(r), z3.BitVecVal(a, 64)))
        elif z3.is_eq(x) and isinstance(x.children()[0], z3.BitVecRef) and x.children()[0].size() == 32:
            a, b = x.children()
            for p, q in ((a, b), (b, a)):
                if K.get_id() in free_consts(p) and K.get_id() not in free_consts(q):
                    out.append(z3.ZeroExt(32, q))
        st.extend(x.children())
    return out

def check_maps(eng, pre, maps, K, memslots, fact):
    if not maps: return
    i = z3.BitVec('mi', 64); j = z3.BitVec('mj', 64)
    s = pre
    base = list(s.pc)
    for a in maps:
        for b in maps:
            if a['rid'] != b['rid']: continue
            oa = z3.substitute(lin_bv(a['off']), (K, i)); ob = z3.substitute(lin_bv(b['off']), (K, j))
            d = oa - ob
            disj = z3.And(z3.UGE(d, z3.BitVecVal(b['size'], 64)), z3.UGE(-d, z3.BitVecVal(a['size'], 64)))
            hyp = [z3.ULT(i, K), z3.ULT(j, K), i != j, fact(i), fact(j)]
            if eng.check(base, z3.And(*(hyp + [z3.Not(disj)]))) != 'unsat':
                # same region, overlapping between iterations
                raise Fail('writes of different iterations may overlap')
    for ms in memslots.values():
        for a in maps:
            if a['rid'] == ms.rid:
                oa = z3.substitute(lin_bv(a['off']), (K, i)); d = oa - lin_bv(ms.off)
                disj = z3.And(z3.UGE(d, z3.BitVecVal(ms.size, 64)), z3.UGE(-d, z3.BitVecVal(a['size'], 64)))
                if eng.check(base, z3.And(z3.ULT(i, K), fact(i), z3.Not(disj))) != 'unsat': raise Fail('scalar cell overlaps array write')

"""Command line front end (development): irv.py file.cc [harness...]"""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sym, build
from irparse import Module
def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('src'); ap.add_argument('h', nargs='*'); ap.add_argument('-I', action='append', default=[]); ap.add_argument('-D', action='append', default=[])
    ap.add_argument('-X', action='append', default=[]); ap.add_argument('-m', action='store_true'); ap.add_argument('-t', type=int, default=300)
    a = ap.parse_args()
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    out = '/tmp/w/irv.%d.ll' % os.getpid()
    t = time.time()
    build.emit_ir(a.src, out, a.I + [V + '/include'] + ([V + '/model', V + '/shim'] if a.m else []), (['-include', V + '/model/vp_prelude.h'] if a.m else []) + a.X + ['-D' + d for d in a.D])
    m = Module(open(out).read()); os.unlink(out)
    print('build+parse %.2f' % (time.time() - t))
    hs = a.h or [f for f in m.funcs if f.startswith(('vp_h_', 'vp_b_')) and m.funcs[f].body]
    for h in hs:
        if not h.startswith(('vp_h_', 'vp_b_')): h = 'vp_h_' + h if 'vp_h_' + h in m.funcs else 'vp_b_' + h
        t = time.time()
        e = sym.Engine(m, {'deadline': time.time() + a.t})
        err = None
        try: e.run_harness(h)
        except sym.Undecided as u: err = str(u)
        bad = [o for o in e.obls if o.status != 'proved']
        print(h, 'obls', len(e.obls), 'bad', len(bad), 'err', err, 'covers', {k[1]: v for k, v in e.covers.items()}, '%.2fs' % (time.time() - t), {k: (round(v, 2) if isinstance(v, float) else v) for k, v in e.stats.items()})
        import collections
        if os.environ.get('LOCS'): print(collections.Counter((o.label, o.loc[1:]) for o in e.obls).most_common(6))
        for o in bad[:8]: print('   ', o.status, o.kind, o.label, o.loc, [str(x)[:80] for x in (o.model or [])], o.approx)
        for o in sorted(e.obls, key=lambda o: -o.t)[:6]: print('   slow %.1f %s %s' % (o.t, o.label, o.loc))
        for n in e.notes: print('   note', n)
        for n in getattr(e,'loop_log',[]): print('   loop', n)
if __name__ == '__main__':
    if os.environ.get('PROF'):
        import cProfile; cProfile.run('main()', sort='cumtime')
    else: main()

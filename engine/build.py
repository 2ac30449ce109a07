"""Extraction: compile the real sources plus a contract harness to LLVM IR and simplify it."""
import subprocess, os, hashlib, sys
CLANG = '/usr/bin/clang++-18'
LLVM = '/usr/lib/llvm-18/bin/'
REPO = os.environ.get('VP_REPO', '/repo')
FLAGS = ['-std=c++17', '-include', 'cstdint', '-fno-exceptions', '-fno-access-control', '-fwrapv', '-fno-strict-aliasing', '-fno-threadsafe-statics',
         '-fno-discard-value-names', '-fno-delete-null-pointer-checks', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-DVP_SYMBOLIC=1', '-w']
PASSES = 'function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa)'
class BuildError(Exception):
    pass
def emit_ir(src, out, incs, extra=()):
    cmd = [CLANG] + FLAGS + list(extra) + sum([['-I', i] for i in incs], []) + ['-I', REPO, '-S', '-emit-llvm', src, '-o', out + '.raw']
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise BuildError(p.stderr[-6000:])
    p = subprocess.run([LLVM + 'opt', '-S', '-passes=' + PASSES, out + '.raw', '-o', out], capture_output=True, text=True)
    if p.returncode: raise BuildError(p.stderr[-4000:])
    os.unlink(out + '.raw')
    return out

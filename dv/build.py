"""Mechanical extraction: harness translation units that #include /repo's current headers are
compiled by clang to LLVM IR, which the verifier reads.  Nothing is cached between runs."""
import contextlib, fcntl, os, subprocess, tempfile, shutil, atexit, hashlib
from . import ir

REPO = os.environ.get('DV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
IRFLAGS = ['-std=c++17', '-O2', '-march=x86-64-v3', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
           '-DNDEBUG', '-w', '-S', '-emit-llvm']

_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='dv.')
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


@contextlib.contextmanager
def locked(path):
    """one build of a file per run, also across the worker processes"""
    with open(path + '.lock', 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


class BuildError(Exception):
    pass


def run(cmd, timeout=300, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)


def compile_ir(src, extra=(), defs=()):
    """harness file name (in /verif/harness) -> ir.Module"""
    s = os.path.join(VERIF, 'harness', src)
    key = hashlib.md5((src + repr(extra) + repr(defs)).encode()).hexdigest()[:8]
    out = os.path.join(tmpdir(), os.path.basename(src) + key + '.ll')
    with locked(out):
        if not os.path.exists(out):
            p = run([CLANG] + IRFLAGS + list(extra) + ['-D' + d for d in defs] + ['-I', os.path.join(REPO, 'src'), s, '-o', out])
            if p.returncode:
                raise BuildError('clang failed on %s:\n%s' % (src, p.stderr[-3000:]))
    return ir.Module(open(out).read())


def compile_native(src, out, extra=(), defs=(), cxx='g++', std='c++17'):
    """src: path relative to /verif"""
    s = os.path.join(VERIF, src)
    o = os.path.join(tmpdir(), out)
    lk = locked(o)
    with lk:
      if os.path.exists(o): return o
      p = run([cxx, '-std=' + std, '-O1', '-march=x86-64-v3', '-DNDEBUG', '-w', '-I', os.path.join(REPO, 'src'), '-I', os.path.join(VERIF, 'replay')]
            + list(extra) + ['-D' + d for d in defs] + [s, '-o', o], timeout=600)
      if p.returncode:
        raise BuildError('%s failed on %s:\n%s' % (cxx, src, p.stderr[-3000:]))
    return o

"""differential runs of the real maps (replay/mapdiff.cpp): bounded stand-ins and replays of failed obligations"""
import os, subprocess, fnmatch
from concurrent.futures import ThreadPoolExecutor
from dv import build

ASAN = ('-fsanitize=address,undefined', '-g')


def mapdiff(kinds, modes, accept, asan=False, src='replay/mapdiff.cpp', ign=()):
    """accept: patterns over the FAIL keys that concern the property being checked"""
    def fn(chk, inputs):
        extra = ASAN if asan else ()
        with ThreadPoolExecutor(8) as ex:
            exes = dict(zip(kinds, ex.map(lambda k: build.compile_native(src, 'mapdiff%s%d.exe' % ('a' if asan else '', k), extra=extra, defs=('MAPK=%d' % k,)), kinds)))
            jobs = [(k, m) for k in kinds for m in modes]

            def one(j):
                k, m = j
                args = [str(m), str(chk.seed), '1' if chk.tier == 'thorough' else '0']
                cmd = 'g++ -std=c++17 -O1 -march=x86-64-v3 -DNDEBUG -w %s -I/repo/src -DMAPK=%d /verif/%s -o /tmp/r && /tmp/r %s' % (' '.join(extra), k, src, ' '.join(args))
                env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:exitcode=99:handle_segv=0:handle_abort=0', UBSAN_OPTIONS='halt_on_error=1:exitcode=98')
                try:
                    p = subprocess.run([exes[k]] + args, capture_output=True, text=True, timeout=600, env=env, errors='replace')
                    out, rc, err = p.stdout, p.returncode, p.stderr
                except subprocess.TimeoutExpired as e:
                    out, rc, err = (e.stdout or b'').decode(errors='replace'), 'timeout', ''
                fails = []
                for l in out.splitlines():
                    if l.startswith('FAIL '): fails.append(dict(key=l.split('key=', 1)[1].split()[0], text=l[5:], command=cmd))
                if rc not in (0, 1) and not fails:
                    e = [l for l in err.splitlines() if 'ERROR' in l or 'runtime error' in l or 'terminate' in l][:2]
                    fails.append(dict(key='crash@any', text='%s: program ended with %s' % (' '.join(e) or 'crash/hang', rc), command=cmd))
                st = [l[6:] for l in out.splitlines() if l.startswith('STATS ')]
                return fails, 'map%d mode %d: %s' % (k, m, st[0] if st else 'stopped')
            res = list(ex.map(one, jobs))
        chk.last_stats = '; '.join(r[1] for r in res)
        fails = [f for r in res for f in r[0] if any(fnmatch.fnmatch(f['key'], a) for a in accept)]
        return fails or None
    return fn

#!/usr/bin/env python3
"""run.py Cxx [--tier quick|thorough] [--seed N] [--jobs SUBSTR]   runs the check of one property.

Compiles the harnesses listed in checks.py against /repo/include (always from the current working tree), runs them under
the listed sanitizer / compiler configurations, and judges only what the monitors in them report.
exit 0: held on everything observed; exit 1: VIOLATION line printed; exit 2: no answer (toolchain or harness trouble).
"""
import sys, os, json, time, subprocess, shutil, re, hashlib, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
import checks

SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-g1']
CFG = {
    # sanitised
    'g17': ['g++-13', '-std=c++17', '-O0'] + SAN,
    'g20': ['g++-13', '-std=c++20', '-O0'] + SAN,
    'c17': ['clang++-18', '-std=c++17', '-O0'] + SAN,
    'c20': ['clang++-18', '-std=c++20', '-O0'] + SAN,
    'c17s': ['clang++-18', '-std=c++17', '-O1'] + SAN,
    'g20s': ['g++-13', '-std=c++20', '-O1'] + SAN,
    'c23': ['clang++-18', '-std=c++23', '-O0'] + SAN,
    # optimised, debug checks off (they become assumptions)
    'g17n': ['g++-13', '-std=c++17', '-O2', '-DNDEBUG'],
    'g20n': ['g++-13', '-std=c++20', '-O2', '-DNDEBUG'],
    'g20n3': ['g++-13', '-std=c++20', '-O3', '-DNDEBUG'],
    'c17n': ['clang++-18', '-std=c++17', '-O2', '-DNDEBUG'],
    'c20n': ['clang++-18', '-std=c++20', '-O2', '-DNDEBUG'],
    'c17n3': ['clang++-18', '-std=c++17', '-O3', '-DNDEBUG'],
    # plain, checks on
    'g17d': ['g++-13', '-std=c++17', '-O0', '-g1'],
    'g17o': ['g++-13', '-std=c++17', '-O1', '-g1'],
    'g20o': ['g++-13', '-std=c++20', '-O1', '-g1'],
    'c20d': ['clang++-18', '-std=c++20', '-O0', '-g1'],
    'g17nd': ['g++-13', '-std=c++17', '-O0', '-DNDEBUG', '-g0'],
    'g20nd': ['g++-13', '-std=c++20', '-O0', '-DNDEBUG', '-g0'],
    'c17nd': ['clang++-18', '-std=c++17', '-O0', '-DNDEBUG', '-g0'],
    'c20nd': ['clang++-18', '-std=c++20', '-O0', '-DNDEBUG', '-g0'],
    # unusual ones (C16)
    'gOs': ['g++-13', '-std=c++17', '-Os', '-DNDEBUG', '-fno-rtti', '-fno-exceptions'],
    'cOz': ['clang++-18', '-std=c++20', '-Oz', '-DNDEBUG', '-fno-rtti', '-fno-exceptions'],
    'g23': ['g++-13', '-std=c++23', '-O3', '-DNDEBUG', '-march=native'],
    'c26': ['clang++-18', '-std=c++2c', '-O3', '-DNDEBUG', '-march=native'],
    'guc': ['g++-13', '-std=gnu++17', '-O2', '-funsigned-char', '-fshort-enums', '-fno-strict-aliasing'],
    'cuc': ['clang++-18', '-std=gnu++20', '-O1', '-funsigned-char', '-fshort-enums', '-fstrict-vtable-pointers'],
    'glto': ['g++-13', '-std=c++20', '-O2', '-DNDEBUG', '-flto', '-fwhole-program'],
    'c17f': ['clang++-18', '-std=c++17', '-O2', '-DNDEBUG', '-fno-inline-functions', '-ftrivial-auto-var-init=pattern'],
    'g17z': ['g++-13', '-std=c++17', '-O2', '-DNDEBUG', '-ftrivial-auto-var-init=zero', '-fipa-pta', '-fno-tree-sra'],
    # others
    'tsan': ['clang++-18', '-std=c++17', '-O1', '-g1', '-fsanitize=thread'],
    'tsann': ['clang++-18', '-std=c++20', '-O2', '-DNDEBUG', '-g1', '-fsanitize=thread'],
    'gtsan': ['g++-13', '-std=c++20', '-O1', '-g1', '-fsanitize=thread'],
    'msan': ['clang++-18', '-std=c++17', '-O0', '-g1', '-fsanitize=memory', '-fsanitize-memory-track-origins'],
    'msan20': ['clang++-18', '-std=c++20', '-O1', '-g1', '-fsanitize=memory', '-fsanitize-memory-track-origins'],
    'vg': ['g++-13', '-std=c++17', '-O1', '-g1'],
    'vgc': ['clang++-18', '-std=c++20', '-O1', '-g1'],
}
ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=86:detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=1:strict_string_checks=1:check_initialization_order=1:color=never',
    'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=1:exitcode=86:color=never',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=86:second_deadlock_stack=1:color=never',
    'MSAN_OPTIONS': 'exitcode=86:color=never',
    'LSAN_OPTIONS': 'exitcode=86',
}
VALGRIND = ['valgrind', '-q', '--error-exitcode=86', '--track-origins=no', '--leak-check=full', '--errors-for-leak-kinds=definite']
SANITY = '''#include <string>
#include <vector>
#include <memory>
#include <map>
#include <optional>
#include <cstdio>
int main() { std::vector<std::string> v{"a"}; std::optional<int> o(1); std::puts(v[0].c_str()); return *o - 1; }
'''


def cxx(cfg, src, out, defs):
    pfr = [] if any(d.startswith('OPTION_USE_PFR') for d in defs) else ['-DOPTION_USE_PFR=0']
    return CFG[cfg] + pfr + ['-ftemplate-depth=5000', '-w', '-fno-diagnostics-color', '-I' + os.path.join(V, 'lib'), '-I' + os.path.join(REPO, 'include'), '-pthread'] + \
        (['-include', os.path.join(V, 'lib', 'mon.hpp')] if 'MON_VERIFY' in defs else []) + \
        ['-D' + d for d in defs] + [src, '-o', out]


def env():
    e = dict(os.environ); e.update(ENV); e['LC_ALL'] = 'C'
    return e


def sh(cmd, timeout, cwd=None, e=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=e or env(), stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as x:
        return 'timeout', (x.stdout or b'').decode('utf-8', 'replace'), (x.stderr or b'').decode('utf-8', 'replace')


def crash_key(err):
    m = re.search(r'ERROR: (AddressSanitizer|LeakSanitizer|MemorySanitizer): ([\w-]+)', err) or re.search(r'WARNING: (ThreadSanitizer|MemorySanitizer): ([\w -]+?)(?: \(|\n)', err)
    if m: return 'crash:%s:%s' % (m.group(1), m.group(2).strip())
    m = re.search(r'runtime error: ([^\n]{0,60})', err)
    if m: return 'crash:ubsan:' + re.sub(r'0x[0-9a-f]+|\d+', 'N', m.group(1)).strip()
    m = re.search(r'==\d+== ([A-Z][^\n]{0,60})', err)
    if m: return 'crash:valgrind:' + re.sub(r'\d[\d,]*', 'N', m.group(1)).strip()
    m = re.search(r'@SIGNAL (\d+)', err)
    if m: return 'crash:signal:' + m.group(1)
    return 'crash:exit'


def short(cmd): return ' '.join(("'%s'" % c if re.search(r"[ ()*<>&;|$\"]", c) else c) for c in cmd)


class Result:
    def __init__(self): self.viol = []; self.err = None; self.summary = None; self.log = ''; self.compile_s = 0; self.run_s = 0


def do_job(job, idx, bdir, seed, tier):
    r = Result()
    src = os.path.join(V, 'harness', job.src)
    exe = os.path.join(bdir, 'j%d' % idx)
    defs = list(job.defs)
    t = time.time()
    cmd = cxx(job.cfg, src, exe, defs)
    rc, out, err = sh(cmd, 600)
    r.compile_s = time.time() - t
    r.cmd = short(cmd)
    if rc != 0:
        lines = [l for l in err.splitlines() if re.search(r'\b(fatal )?error:', l)]
        if rc == 'timeout' or not lines or 'internal compiler error' in err or 'Killed' in err or 'No space left' in err or \
                any('file not found' in l or 'No such file' in l for l in lines):
            r.err = 'compiling %s failed without a verdict: %s' % (job.name, (err or str(rc))[-600:])
        else:
            r.viol.append(('compile:%s' % job.name.rsplit('/', 1)[0], 'a program that uses only the documented interface no longer compiles: ' + lines[0][:400], err[:6000]))
        return r
    args = [exe, '--seed', str(seed), '--scale', str(job.scale_for(tier))] + list(job.args)
    if job.valgrind: args = VALGRIND + args
    r.cmd += ' && ' + short(args)
    e = env()
    t = time.time()
    for attempt in range(3):
        limit = job.timeout if tier == 'thorough' else min(job.timeout, 150 if attempt == 0 else 250)
        rc, out, err = sh(args, limit, e=e)
        if 'LeakSanitizer has encountered a fatal error' in err or 'LeakSanitizer does not work' in err:
            e['ASAN_OPTIONS'] = e['ASAN_OPTIONS'].replace('detect_leaks=1', 'detect_leaks=0'); continue
        if 'FATAL: ThreadSanitizer: unexpected memory mapping' in err or 'MemorySanitizer can not mmap' in err:
            args = ['setarch', '-R'] + args; continue
        if rc == 'timeout' and attempt == 0: continue
        break
    r.run_s = time.time() - t
    r.log = (out[-20000:] + '\n--- stderr\n' + err[:20000])
    for l in out.splitlines():
        if l.startswith('@V '):
            key, _, msg = l[3:].partition(' | ')
            r.viol.append((key.strip(), msg, ''))
        elif l.startswith('@S '):
            try: r.summary = json.loads(l[3:])
            except ValueError: pass
    if rc == 'timeout':
        ctx = ''
        r.viol.append(('hang:%s' % job.name.rsplit('/', 1)[0], 'did not end within %d s, twice' % limit, ''))
    elif rc != 0 or r.summary is None:
        ctx = re.findall(r'@CONTEXT (.*)', err)
        k = crash_key(err)
        if rc in (-9, 137) and not re.search(r'Sanitizer', err): r.err = '%s was killed' % job.name
        else: r.viol.append((k, 'exit %s; %s; context: %s' % (rc, first_report(err), ctx[-1] if ctx else '?'), err[:8000]))
    elif r.summary['evaluations'] == 0:
        r.err = '%s observed nothing' % job.name
    try: os.remove(exe)
    except OSError: pass
    return r


def first_report(err):
    for l in err.splitlines():
        if 'ERROR:' in l or 'runtime error' in l or 'WARNING: ThreadSanitizer' in l or 'Assertion' in l or l.startswith('==') or 'terminate' in l: return l.strip()[:300]
    return err.strip()[:200]


def load_known():
    known = []
    p = os.path.join(V, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', l.strip())
            if m: known.append(m.groups())
    return known


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1')); only = None
    a = sys.argv[2:]
    while a:
        o = a.pop(0)
        if o == '--tier': tier = a.pop(0)
        elif o == '--seed': seed = int(a.pop(0))
        elif o == '--jobs': only = a.pop(0)
    t0 = time.time()
    spec = checks.CHECKS[prop]
    jobs = [j for j in spec['jobs'] if tier == 'thorough' or 'q' in j.tier]
    if only: jobs = [j for j in jobs if only in j.name]
    bdir = os.path.join(V, 'build', '%s-%d' % (prop, os.getpid()))
    os.makedirs(bdir, exist_ok=True)
    try:
        # toolchain sanity: independent of the code under test
        for cfg in sorted({j.cfg for j in jobs}):
            pass
        sp = os.path.join(bdir, 'sanity.cpp'); open(sp, 'w').write(SANITY)
        comp = sorted({CFG[j.cfg][0] for j in jobs})
        for c in comp:
            rc, out, err = sh([c, '-std=c++17', sp, '-o', os.path.join(bdir, 'sanity')], 120)
            if rc != 0:
                print('no answer: %s does not compile a trivial program: %s' % (c, err[:300])); return 2
        if not os.path.exists(os.path.join(REPO, 'include/opt/option.hpp')):
            print('no answer: /repo/include/opt/option.hpp is missing'); return 2
        order = sorted(range(len(jobs)), key=lambda i: -jobs[i].weight)
        res = [None] * len(jobs)
        listed = {x[1] for x in load_known() if x[0] == prop}
        failed = [False]
        def one(i):
            j = jobs[i]
            if failed[0] and tier != 'thorough': # the verdict is known: do not begin anything else
                res[i] = Result(); return
            s = seed if j.same_seed else seed * 1000 + int(hashlib.md5(j.cfg.encode()).hexdigest()[:6], 16) % 997
            res[i] = do_job(j, i, bdir, s, tier)
            if any(v[0] not in listed for v in res[i].viol): failed[0] = True
            if os.environ.get('VERIF_VERBOSE'):
                x = res[i]; print('  %-40s compile %5.1f run %5.1f %s' % (j.name, x.compile_s, x.run_s, x.err or (x.viol[0][:2] if x.viol else 'ok')), flush=True)
        with ThreadPoolExecutor(max_workers=int(os.environ.get('VERIF_WORKERS', '8'))) as ex: list(ex.map(one, order))
        viol = []
        errs = []
        dist = {}; evals = 0; counters = {}; samples = []; digests = {}
        for j, r in zip(jobs, res):
            if r.err: errs.append(r.err)
            for v in r.viol: viol.append((v[0], v[1], v[2], j, r))
            if r.summary:
                s = r.summary
                evals += s['evaluations']
                base = j.src + '|' + ','.join(d for d in j.defs if d.startswith('GROUP'))
                dist[base] = max(dist.get(base, 0), s['distinct'])
                for k, v in s['counters'].items(): counters[k] = counters.get(k, 0) + v
                for x in s['samples']:
                    if len(samples) < 12 and x not in samples: samples.append(x)
                if j.digest: digests.setdefault(j.digest, []).append((s['digest'], j, r))
        for g, ds in digests.items():
            if len({d[0] for d in ds}) > 1:
                desc = '; '.join('%s: %s' % (d[1].name, d[0]) for d in ds)
                maj = max({d[0] for d in ds}, key=lambda x: sum(1 for d in ds if d[0] == x))
                odd = [d for d in ds if d[0] != maj][0]
                viol.append(('differs:%s' % g, 'the same program observes different results under different configurations: ' + desc, '', odd[1], odd[2]))
        known = load_known()
        printed = set(); unlisted = []
        for key, msg, extra, j, r in viol:
            k = [x for x in known if x[0] == prop and x[1] == key]
            if k:
                if key not in printed: printed.add(key); print('KNOWN-FINDING: property=%s key=%s %s' % (prop, key, k[0][2]))
            else: unlisted.append((key, msg, extra, j, r))
        rep = None
        if unlisted:
            os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
            rep = os.path.join(V, 'replays', '%s-%s-%d.txt' % (prop, tier, seed))
            with open(rep, 'w') as f:
                for key, msg, extra, j, r in unlisted[:40]:
                    f.write('key: %s\njob: %s\nreproduce: %s\n%s\n%s\n%s\n\n' % (key, j.name, r.cmd, msg, extra, '' if extra else r.log[:3000]))
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'exploration'),
            'coverage': {
                'evaluations': evals, 'distinct_nontrivial': sum(dist.values()), 'rule': spec['rule'],
                'samples': samples or ['(none recorded)'], 'counters': counters,
                'jobs': [{'job': j.name, 'evaluations': r.summary['evaluations'], 'distinct': r.summary['distinct'],
                          'compile_s': round(r.compile_s, 1), 'run_s': round(r.run_s, 1)} for j, r in zip(jobs, res) if r.summary],
                'configurations': {c: ' '.join(CFG[c]) for c in sorted({j.cfg for j in jobs})},
            },
            'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(unlisted),
        }
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
        if unlisted:
            keys = []
            for key, msg, extra, j, r in unlisted:
                if key not in keys:
                    keys.append(key)
                    if len(keys) <= 8: print('  %s [%s]: %s' % (key, j.name, msg[:600]))
            print('VIOLATION property=%s replay=%s' % (prop, rep))
            return 1
        if errs:
            for e in errs[:5]: print('no answer:', e)
            return 2
        print('%s %s: held on %d oracle evaluations, %d distinct non-trivial cases, %d jobs, %.1f s' % (prop, tier, evals, sum(dist.values()), len(jobs), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


if __name__ == '__main__': sys.exit(main())

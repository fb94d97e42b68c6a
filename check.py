#!/usr/bin/env python3
"""Decides one property: compiles the library of the repository under test together with the property's harness to LLVM
bitcode, executes it symbolically (engine/symex.cpp, Z3), replays every counterexample and a sample of the explored paths
against the real build (g++, libstdc++, ASan+UBSan), and writes evidence/<id>.json.
usage: check.py ID [--tier quick|thorough] [--repo DIR]      exit 0 held, 1 violation (VIOLATION line), 2 no verdict"""
import concurrent.futures as cf, fcntl, glob, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
LLVM = '/usr/lib/llvm-18/bin'
ASAN = 'malloc_fill_byte=205:max_malloc_fill_size=1000000:detect_leaks=0:allocator_may_return_null=0'

class NoVerdict(Exception):
    pass

def run(cmd, what, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
    if p.returncode:
        raise NoVerdict('%s failed (%d): %s\n%s' % (what, p.returncode, ' '.join(cmd), p.stdout[-4000:]))
    return p.stdout

def engine(cmd, timeout):
    # own process group: past the time allowed, the engine and its workers are ended together
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        raise NoVerdict('the symbolic execution did not end within %d s' % timeout)
    return subprocess.CompletedProcess(cmd, p.returncode, o)

def tool(name):
    p = LLVM + '/' + name
    return p if os.path.exists(p) else name + '-18'

def header(path):
    d = {'bounds': [], 'outside': [], 'assume': [], 'cover': [], 'src': [], 'level': ['model_checking']}
    for l in open(path):
        m = re.match(r'//@(\w+) (.*)', l.strip())
        if m:
            d.setdefault(m.group(1), []).append(m.group(2).strip())
    d['cover'] = ' '.join(d['cover']).split()
    return d

def also(meta, tier):
    return ' '.join(meta.get('also', []) + (meta.get('alsothorough', []) if tier == 'thorough' else [])).split()

def run_also(h, repo, work, end, jobs):
    """the harness of property h on the single header, up to the time `end`: (stats, violations that the library does not share)"""
    out = work + '/also_%s' % h
    hm = header(VERIF + '/harness/%s.cpp' % h)
    t = max(5, int(end - time.time()))
    p = engine([VERIF + '/build/symex', work + '/also_%s.bc' % h, '-o', out, '-j', jobs, '-t', str(t), '-n', '1', '-k', '12', '-m', hm.get('maxins', ['20000000'])[0], '-r', repo + '/'], t + 120)
    if not os.path.exists(out + '/stats.json'):
        raise NoVerdict('%s on the single header gave no result:\n' % h + p.stdout[-4000:])
    st = json.load(open(out + '/stats.json'))
    viols = sorted(glob.glob(out + '/viol-*.txt'))
    bad = []
    if viols:
        nat = ['g++', '-std=c++17', '-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-I' + VERIF + '/engine', '-I' + VERIF + '/harness',
               '-DREPO_SINGLE="%s/single_include/blet/args.h"' % repo, VERIF + '/harness/%s.cpp' % h, work + '/nat/replay.o']
        os.makedirs(out + '/single')
        os.makedirs(out + '/library')
        run(nat + ['-I' + repo + '/single_include', '-o', out + '/single/replay'], 'building the replay on the single header')
        run(nat + ['-I' + repo + '/include'] + sorted(glob.glob(work + '/nat/lib_*.o')) + ['-o', out + '/library/replay'], 'building the replay on the library')
        for v in viols:
            rc, so, se = replay(out + '/single', v)
            if rc in (0, 77, 78, 2):
                raise NoVerdict('%s on the single header: the native run does not confirm %s' % (h, v))
            if replay(out + '/library', v)[0] == 0:
                bad.append((v, 'single header, harness of %s: native: rc=%s %s; the library passes the same case' % (h, rc, ' '.join(([l for l in so.split('\n') if l.isupper() or ':' in l] + [l for l in se.split('\n') if 'ERROR' in l or 'runtime error' in l])[:2]))))
    elif st['worker_failure']:
        raise NoVerdict('%s on the single header: symbolic execution stopped:\n' % h + p.stdout[-4000:])
    elif not st['timed_out'] and [c for c in hm['cover'] if not st['covered'].get(c)]:
        raise NoVerdict('vacuity: %s on the single header does not reach all its scenarios' % h)
    return st, bad

def build(pid, tier, repo, work):
    eng = VERIF + '/engine'
    har = VERIF + '/harness/%s.cpp' % pid
    meta = header(har)
    bc = work + '/bc'
    nat = work + '/nat'
    os.makedirs(bc)
    os.makedirs(nat)
    cc = [tool('clang++'), '-O2', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-jump-tables', '-fno-pic', '-emit-llvm', '-c',
          '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-isystem', eng + '/shim', '-gline-tables-only', '-w']
    inc = ['-I' + eng, '-I' + VERIF + '/harness', '-I' + repo + '/include']
    tdef = ['-DTHOROUGH=1'] if tier == 'thorough' else []
    tdef += ['-DREPO_SINGLE="%s/single_include/blet/args.h"' % repo]
    native = ['g++', '-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-c']
    def engine(*a):  # checks running side by side build it once
        os.makedirs(VERIF + '/build', exist_ok=True)
        with open(VERIF + '/build/lock', 'w') as l:
            fcntl.flock(l, fcntl.LOCK_EX)
            run(['make', '-s', '-C', eng, '-j2'], 'building the engine')
    jobs = [(cc + ['-std=c++17', '-fno-builtin', '-I' + eng, eng + '/rt.cpp', '-o', bc + '/rt.bc'], 'runtime model'),
            (cc + ['-std=c++11', '-fno-builtin', eng + '/rt11.cpp', '-o', bc + '/rt11.bc'], 'runtime model'),
            ([tool('clang'), '-O2', '-fno-builtin', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-jump-tables', '-fno-pic', '-emit-llvm', '-c',
              '-gline-tables-only', '-w', eng + '/rtc.c', '-o', bc + '/rtc.bc'], 'runtime model'),
            (cc + ['-std=c++17'] + inc + tdef + [har, '-o', bc + '/h.bc'], 'harness'),
            (native + ['-std=c++17'] + inc + tdef + [har, '-o', nat + '/h.o'], 'harness (native)'),
            (native + ['-std=c++17', '-I' + eng, eng + '/replay.cpp', '-o', nat + '/replay.o'], 'replay runtime')]
    link = [bc + '/h.bc', bc + '/rt.bc', bc + '/rt11.bc', bc + '/rtc.bc']
    objs = [nat + '/h.o', nat + '/replay.o']
    def unit(src, tag, std, extra):
        jobs.insert(0, (cc + [std] + inc + extra + [src, '-o', bc + '/%s.bc' % tag], src))
        jobs.append((native + [std] + inc + extra + [src, '-o', nat + '/%s.o' % tag], src + ' (native)'))
        link.append(bc + '/%s.bc' % tag)
        objs.append(nat + '/%s.o' % tag)
    for s in sorted(glob.glob(repo + '/src/*.cpp')):
        unit(s, 'lib_' + os.path.basename(s)[:-4], '-std=c++11', [])
    for s in meta['src']:
        unit(VERIF + '/harness/' + s, 'x_' + os.path.basename(s).replace('.', '_'), '-std=c++17', tdef)
    for h in also(meta, tier):  # other harnesses, against the single header (no source of the library)
        jobs.append((cc + ['-std=c++17', '-I' + eng, '-I' + VERIF + '/harness', '-I' + repo + '/single_include', tdef[-1], VERIF + '/harness/%s.cpp' % h, '-o', bc + '/also_%s.bc' % h],
                     'harness %s on the single header' % h))
    with cf.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(engine)] + [ex.submit(run, c, w) for c, w in jobs]:
            f.result()
    for h in also(meta, tier):
        run([tool('llvm-link'), bc + '/also_%s.bc' % h] + link[1:4] + ['-o', work + '/also_%s.bc' % h], 'linking the bitcode')
    run([tool('llvm-link')] + link + ['-o', work + '/all.bc'], 'linking the bitcode')
    return meta, objs

def native_link(objs, work):
    run(['g++', '-fsanitize=address,undefined'] + objs + ['-o', work + '/replay'], 'linking the replay binary')

def replay(work, case, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS='print_stacktrace=0')
    try:
        p = subprocess.run([work + '/replay', case], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, env=env, cwd=work)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return 'timeout', '', 'the run did not end within %d s' % timeout

def expected(case):
    obs, status = [], ''
    for l in open(case, errors='replace'):
        l = l.rstrip('\n')
        if l.startswith('obs '):
            obs.append(l)
        elif l.startswith('status '):
            status = l[7:]
    return status, obs

def normal(lines):
    return [l.replace(' -', ' ').rstrip() if l.startswith('obs ') else l for l in lines]

def describe(case):
    out = []
    for l in open(case, errors='replace'):
        f = l.split()
        if l.startswith('make ') and len(f) == 3:
            b = b'' if f[2] == '-' else bytes.fromhex(f[2])
            out.append('%s=%s' % (f[1], repr(b)[1:]))
        elif l.startswith('choose '):
            out.append('%s:%s' % (f[1], f[2]))
    return ' '.join(out)

def known(pid):
    """findings recorded (not repaired) for this property: 'finding: property=ID match=<regex over the replayed failure> what'"""
    res = []
    p = VERIF + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res

def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    repo = os.path.abspath(a[a.index('--repo') + 1]) if '--repo' in a else '/repo'
    tag = a[a.index('--tag') + 1] if '--tag' in a else ''
    limit = float(a[a.index('--time') + 1]) if '--time' in a else (560 if tier == 'quick' else 760)
    jobs = a[a.index('-j') + 1] if '-j' in a else '8'
    t0 = time.time()
    work = VERIF + '/build/%s-%s%s' % (pid, tier, tag)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    meta, objs = build(pid, tier, repo, work)
    tb = time.time() - t0
    with cf.ThreadPoolExecutor(1) as ex:
        nl = ex.submit(native_link, objs, work)
        out = work + '/out'
        maxins = meta.get('maxins', ['20000000'])[0]
        p = engine([VERIF + '/build/symex', work + '/all.bc', '-o', out, '-j', jobs, '-t', str(limit), '-n', '200', '-k', '12', '-m', maxins, '-r', repo + '/'],
                   limit + (200 if tier == 'quick' else 90))
        nl.result()
    if not os.path.exists(out + '/stats.json'):
        raise NoVerdict('symbolic execution gave no result:\n' + p.stdout[-4000:])
    st = json.load(open(out + '/stats.json'))
    viols = sorted(glob.glob(out + '/viol-*.txt'), key=lambda s: int(re.findall(r'\d+', os.path.basename(s))[0]))
    samples = sorted(glob.glob(out + '/sample-*.txt'))
    confirmed, unconfirmed, findings, mismatches, validated = [], [], [], [], 0
    kf = known(pid)
    with cf.ThreadPoolExecutor(8) as ex:
        vr = list(ex.map(lambda v: replay(work, v), viols))
        sr = list(ex.map(lambda v: replay(work, v), samples))
    for v, (rc, so, se) in zip(viols, vr):
        detail = [l[7:] for l in open(v, errors='replace').read().split('\n') if l.startswith('detail ')]
        text = '%s | native: rc=%s %s' % ((detail or [''])[0].split('|')[0], rc, ' '.join(([l for l in so.split('\n') if l.isupper() or ':' in l] + [l for l in se.split('\n') if 'ERROR' in l or 'runtime error' in l])[:2]))
        if rc in (0, 77, 78, 2):
            unconfirmed.append((v, text))
        else:
            hit = [w for r, w in kf if r.search(text)]
            (findings if hit else confirmed).append((v, hit[0] if hit else text))
    for s, (rc, so, se) in zip(samples, sr):
        status, obs = expected(s)
        got = [l for l in so.split('\n') if l.startswith('obs ')]
        if rc != 0 or normal(got) != normal(obs) or (status == 'exit') != ('EXIT' in so):
            mismatches.append((s, rc, (so + se)[-1500:]))
        else:
            validated += 1
    more = {}
    main_timeout = st['timed_out']
    end = t0 + (440 if tier == 'quick' else 800)
    for h in [] if confirmed or unconfirmed or st['worker_failure'] else also(meta, tier):
        if end - time.time() < 15:
            more[h] = 'not run: no time left'
            continue
        hs, bad = run_also(h, repo, work, end, jobs)
        more[h] = '%d paths, %d queries, %.1f s%s' % (hs['paths'], hs['queries'], hs['wall_s'], ', stopped at the time limit' if hs['timed_out'] else '')
        for k in ('states', 'forks', 'paths', 'paths_completed', 'paths_exit', 'paths_assumed_away', 'instructions', 'assertions', 'assertions_by_solver', 'memory_checks', 'queries', 'sat', 'unsat', 'unknown', 'solver_s'):
            st[k] += hs[k]
        st['max_query_s'] = max(st['max_query_s'], hs['max_query_s'])
        st['wall_s'] += hs['wall_s']
        st['functions'] = sorted(set(st['functions']) | set(hs['functions']))
        st['timed_out'] = st['timed_out'] or hs['timed_out']
        confirmed += bad
        if bad:
            break
    missing = [c for c in meta['cover'] if not st['covered'].get(c)]
    complete = not st['timed_out'] and not st['worker_failure'] and st['unknown'] == 0 and not [1 for v in more.values() if v.startswith('not run')]
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
          'coverage': {
              'states': st['states'], 'transitions': st['forks'], 'traces_validated_against_impl': validated,
              'samples': [describe(s) for s in samples[:6]], 'exhaustive': complete,
              'explanation': 'symbolic execution of the LLVM bitcode of the current source; a state is an explored symbolic state (path or pending alternative), a transition a fork; every path is decided for all values of its symbolic bytes by the solver',
              'paths': st['paths'], 'paths_completed': st['paths_completed'] + st['paths_exit'], 'paths_assumed_away': st['paths_assumed_away'],
              'instructions': st['instructions'], 'functions_encoded': st['functions'],
              'repo_lines_encoded': '%d of %d' % (st['lines_covered'], st['lines_total']), 'repo_lines_not_reached': st['uncovered'][:60],
              'bounds': meta['bounds'], 'outside_the_claim': meta['outside'],
              'assertions_checked': st['assertions'], 'assertions_decided_by_solver': st['assertions_by_solver'], 'memory_accesses_checked': st['memory_checks'],
              'solver_queries': st['queries'], 'solver_sat': st['sat'], 'solver_unsat': st['unsat'], 'solver_unknown': st['unknown'],
              'solver_s': st['solver_s'], 'slowest_query_s': st['max_query_s'], 'symbolic_execution_s': st['wall_s'], 'build_s': round(tb, 2),
              'reachability_witnesses': st['covered'], 'stopped_at_time_limit': bool(st['timed_out'])},
          'assumptions': meta['assume'] + ['engine/rt.cpp, rtc.c and shim/ stand for libstdc++ and libc (checked against the native run on the sampled paths); memory allocation never fails; "C" locale'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed)}
    if more:
        ev['coverage']['other_harnesses_on_the_single_header'] = more
    json.dump(ev, open(VERIF + '/evidence/%s.json' % pid, 'w'), indent=1)
    print('%s %s: %d paths, %d states, %d forks, %d queries (%d sat, %d unsat, %d unknown), %.1f s solving, %.1f s symbolic, %.1f s total; %d/%d samples agree with the native run%s' % (
        pid, tier, st['paths'], st['states'], st['forks'], st['queries'], st['sat'], st['unsat'], st['unknown'], st['solver_s'], st['wall_s'], time.time() - t0, validated, len(samples),
        '' if complete else ' (NOT exhaustive)'))
    print('  covered: ' + ', '.join('%s %d' % kv for kv in sorted(st['covered'].items())))
    for w in sorted(set(w for _, w in findings)):
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    if confirmed:
        dst = VERIF + '/build/counterexamples/%s' % pid
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        for i, (v, text) in enumerate(confirmed):
            r = dst + '/%d.txt' % i
            shutil.copy(v, r)
            print('  counterexample %d: %s\n    %s' % (i, text, describe(v)))
        print('VIOLATION property=%s replay=%s' % (pid, dst + '/0.txt'))
        return 1
    if unconfirmed:
        for v, t in unconfirmed[:4]:
            print('  not confirmed natively: %s: %s\n    %s' % (v, t, describe(v)))
        raise NoVerdict('the engine reports violations that the native run does not confirm')
    if st['worker_failure']:
        raise NoVerdict('symbolic execution stopped:\n' + p.stdout[-4000:])
    if mismatches:
        for m in mismatches[:3]:
            print('  mismatch %s rc=%s\n%s\n  expected %s' % (m[0], m[1], m[2], '\n'.join(expected(m[0])[1])))
        raise NoVerdict('%d sampled paths differ between the model and the native run' % len(mismatches))
    if missing and not findings and not main_timeout:
        raise NoVerdict('vacuity: never reached: ' + ' '.join(missing))
    return 0

if __name__ == '__main__':
    try:
        sys.exit(main())
    except NoVerdict as e:
        print('NO VERDICT: %s' % e)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print('NO VERDICT: %s' % e)
        sys.exit(2)

#!/usr/bin/env python3
"""check.py <ID>: builds the simulation of one property from /repo's working tree and runs its seeded search."""
import sys, os, json, subprocess, hashlib, glob, time, shutil, struct, re

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SIM = os.path.join(VERIF, 'sim')
BUILD = os.path.join(VERIF, 'build')
CXX = 'clang++'
JNI = os.path.join(REPO, 'boofcpp-jni/src/main/cpp')
BOOF = os.path.join(REPO, 'boofcpp/src/boofcv')
JH = '/usr/lib/jvm/java-17-openjdk-amd64/include'
NPROC = os.cpu_count() or 4

BASE = ['-std=gnu++14', '-O1', '-g1', '-fno-omit-frame-pointer', '-w', '-fsanitize=address', '-ftrivial-auto-var-init=pattern', '-fno-sanitize-recover=all', '-I' + SIM, '-I' + BOOF]
COV = ['-fsanitize-coverage=trace-pc-guard']
ALLOW = '-fsanitize-coverage-allowlist=' + os.path.join(SIM, 'allow.txt')

# family -> list of (source, extra flags) ; 'boof' = every library source
FAMILIES = {
    'images': dict(src=['core.cpp', 'world_images.cpp'], boof=True),
    'containers': dict(src=['core.cpp', 'world_containers.cpp'], boof=True),
    'vision': dict(src=['core.cpp', 'world_vision.cpp', 'vision_thr.cpp', 'vision_conv.cpp'], boof=True),
}
WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in ('__asan_memcpy', '__asan_memmove', '__asan_memset', 'pthread_mutex_lock', 'pthread_mutex_unlock', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', 'pthread_once'))]
ACCESS = ['-fsanitize-coverage=trace-loads,trace-stores', '-fno-inline']
FAMILIES['vision']['src'].append('threads.cpp')
FAMILIES['vision']['link'] = WRAP
FAMILIES['threads'] = dict(src=['core.cpp', 'threads.cpp', 'world_threads.cpp', 'world_vision.cpp', 'vision_thr.cpp', 'vision_conv.cpp'], boof=True, access=True, link=WRAP)
JFLAGS = ['-I' + JNI, '-I' + JH, '-I' + JH + '/linux']
FAMILIES['jni'] = dict(src=['core.cpp', 'threads.cpp', 'jvm.cpp', 'world_jni.cpp'], boof=True, repo=['boofcpp-jni/src/main/cpp/*.cpp'], flags=JFLAGS, link=WRAP)
FAMILIES['jnithr'] = dict(FAMILIES['jni'], access=True)
MWRAP = ['-Wl,' + ','.join('--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'free'))]
IO = ('fopen', 'fopen64', 'fclose', 'fread', 'fread_unlocked', 'ferror', 'feof', 'clearerr', 'fgetc', 'getc', 'ungetc', 'fgets', 'fseek', 'fseeko', 'ftell', 'ftello', 'rewind', 'setvbuf', 'setbuf', 'fflush', 'fwrite', 'jpeg_finish_decompress')
FAMILIES['files'] = dict(src=['core.cpp', 'files.cpp', 'world_files.cpp'], boof=True, repo=['benchmark/src/benchmark_*.cpp'], flags=['-I' + os.path.join(REPO, 'benchmark/src'), '-I' + os.path.join(REPO, 'boofcpp/src')],
                         link=['-Wl,' + ','.join('--wrap=' + f for f in IO), '-l:libjpeg.a', '-l:libpng16.a', '-l:libz.a', '-lm'])
for _f in FAMILIES.values():
    _f['link'] = MWRAP + _f.get('link', [])
PROPS = {'C20': 'files', 'C01': 'images', 'C02': 'images', 'C03': 'containers', 'C04': 'containers'}
PROPS.update({'C%02d' % i: 'vision' for i in range(5, 12)})
PROPS.update({'C%02d' % i: 'jni' for i in range(14, 19)})
PROPS['C19'] = 'jnithr'
PROPS.update({'C12': 'threads', 'C13': 'threads'})


def die(msg):
    print('CHECK-ERROR: ' + msg)
    sys.exit(2)


def build(family):
    fam = FAMILIES[family]
    units = []
    for s in fam['src']:
        f = [] if s in ('core.cpp', 'threads.cpp', 'jvm.cpp', 'files.cpp') else COV + [ALLOW]
        if fam.get('access') and f:
            f = f + ACCESS
        units.append((os.path.join(SIM, s), BASE + f + fam.get('flags', [])))
    if fam.get('boof'):
        for s in sorted(glob.glob(os.path.join(BOOF, '*.cpp'))):
            units.append((s, BASE + COV + (ACCESS if fam.get('access') else []) + fam.get('libflags', [])))
    for s in fam.get('repo', []):
        for g in sorted(glob.glob(os.path.join(REPO, s))):
            units.append((g, BASE + COV + (ACCESS if fam.get('access') else []) + fam.get('flags', []) + fam.get('libflags', [])))
    h = hashlib.sha256()
    deps = sorted(glob.glob(os.path.join(SIM, '*')) + glob.glob(BOOF + '/*') + glob.glob(JNI + '/*') + glob.glob(os.path.join(REPO, 'benchmark/src/*')))
    for d in deps:
        if os.path.isfile(d):
            h.update(d.encode()); h.update(open(d, 'rb').read())
    h.update(repr(units).encode())
    h.update(repr(fam.get('link')).encode())
    key = h.hexdigest()[:16]
    out = os.path.join(BUILD, family + '-' + key)
    exe = os.path.join(out, 'sim')
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(BUILD, family + '-*')):
        shutil.rmtree(old, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    procs, objs, todo = [], [], []
    for i, (s, fl) in enumerate(units):
        o = os.path.join(out, '%d_%s.o' % (i, os.path.basename(s)))
        objs.append(o)
        todo.append(([CXX] + fl + ['-c', s, '-o', o], s))
    running = []
    failed = []
    while todo or running:
        while todo and len(running) < NPROC:
            cmd, s = todo.pop(0)
            running.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), s, cmd))
        p, s, cmd = running.pop(0)
        t = p.communicate()[0].decode(errors='replace')
        if p.returncode:
            failed.append((s, t, cmd))
    if failed:
        print(failed[0][1][-4000:])
        shutil.rmtree(out, ignore_errors=True)
        die('compiling %s failed' % failed[0][0])
    tmp = exe + '.tmp'
    r = subprocess.run([CXX, '-fsanitize=address', '-rdynamic'] + objs + ['-o', tmp, '-ldl', '-lpthread'] + fam.get('link', []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        print(r.stdout.decode(errors='replace')[-4000:])
        die('linking failed')
    for o in objs:
        os.unlink(o)
    os.rename(tmp, exe)
    return exe


def known_ids(prop):
    """defects a world recognises by itself: id -> what fails"""
    out = {}
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def load_known(prop):
    out = []
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            m = re.match(r'known: property=(\S+) class=(\S+) match=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def replay(exe, plan):
    r = subprocess.run([exe, '--replay', plan], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    try:
        return json.loads(r.stdout.decode(errors='replace'))
    except Exception:
        return dict(status=3, cls='HARNESS', msg='replay gave no answer (exit %d)' % r.returncode, hash='', op=0)


def main():
    if len(sys.argv) < 2:
        die('usage: check.py <ID> [--replay FILE]')
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    ids = known_ids(prop)
    os.environ['HX_KNOWN'] = ','.join(ids)
    exe = build(PROPS[prop])
    t_build = time.time() - t0
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        r = replay(exe, sys.argv[3])
        print(json.dumps(r, indent=1))
        subprocess.run([exe, '--replay', sys.argv[3], '--verbose'])
        sys.exit(1 if r['status'] == 2 else 0 if r['status'] == 1 else 2)
    runs = {}
    for l in subprocess.run([exe, '--list'], stdout=subprocess.PIPE).stdout.decode().split('\n'):
        if l:
            a = l.split(); runs[a[0]] = (int(a[1]), int(a[2]))
    count = runs[prop][0 if tier == 'quick' else 1]
    count = int(os.environ.get('VERIF_RUNS', count))
    budget = 240 if tier == 'quick' else 3000
    work = os.path.join(BUILD, 'run-%s-%d' % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    ps = []
    t1 = time.time()
    for w in range(NPROC):
        out = os.path.join(work, 'w%d.json' % w)
        ps.append((subprocess.Popen([exe, '--prop', prop, '--seed', str(seed), '--start', str(w), '--stride', str(NPROC), '--count', str(count), '--time', str(budget), '--out', out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), out))
    res, sigs, cov = [], set(), None
    for p, out in ps:
        p.wait()
        if not os.path.exists(out):
            die('worker gave no result (exit %s)' % p.returncode)
        res.append(json.load(open(out)))
        b = open(out + '.sigs', 'rb').read()
        sigs.update(struct.unpack('<%dQ' % (len(b) // 8), b))
        c = open(out + '.cov', 'rb').read()
        cov = bytearray(c) if cov is None else bytearray(x | y for x, y in zip(cov, c))
    t_run = time.time() - t1
    # determinism across processes and worker layouts: the first runs again in one fresh process
    hashes = {}
    for r in res:
        hashes.update(r['hashes'])
    viol = sorted((v for r in res for v in r['violations']), key=lambda v: v['index'])
    errs = [r['error'] for r in res if r['error']]
    det = 0
    if not viol and not errs:
        out = os.path.join(work, 'det.json')
        n = min(96, count)
        subprocess.run([exe, '--prop', prop, '--seed', str(seed), '--start', '0', '--stride', '1', '--count', str(n), '--out', out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        d = json.load(open(out))
        for k, h in d['hashes'].items():
            if k in hashes:
                det += 1
                if hashes[k] != h:
                    errs.append('run %s is not deterministic across processes' % k)
    confirmed, known_hit, unrepro = [], {}, []
    known = load_known(prop)
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    done_cls = set()
    for v in viol:
        if v['cls'] in done_cls or len(confirmed) >= 2:
            continue
        done_cls.add(v['cls'])
        raw = os.path.join(work, 'raw.plan')
        open(raw, 'w').write(v['plan'])
        path = os.path.join(VERIF, 'replays', '%s-seed%d-run%d.plan' % (prop, seed, v['index']))
        m = subprocess.run([exe, '--minimise', raw, '--cls', v['cls'], '--out', path, '--budget', '40'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        try:
            m = json.loads(m.stdout.decode(errors='replace'))
        except Exception:
            unrepro.append(v); continue
        r = replay(exe, path)
        if m['status'] != 2 or m['hash'] != m['hash2'] or r['status'] != 2 or r['cls'] != v['cls'] or r['hash'] != m['hash']:
            # the shortened plan does not hold up: take the plan as it was found
            shutil.copy(raw, path)
            r = replay(exe, path)
            again = replay(exe, path)
            if r['status'] != 2 or r['cls'] != v['cls'] or (again['status'], again['cls'], again['hash']) != (r['status'], r['cls'], r['hash']):
                unrepro.append(v); continue
        text = open(path).read()
        k = [x for x in known if x[0] == v['cls'] and re.search(x[1], text.replace('\n', ';'))]
        if k:
            known_hit[k[0][2]] = known_hit.get(k[0][2], 0) + 1
            continue
        open(path, 'a').write('# property %s violated: class %s at operation %d: %s\n# event hash %s\n' % (prop, r['cls'], r['op'], r['msg'].replace('\n', ' '), r['hash']))
        confirmed.append((path, r))
    tot = lambda k: sum(r[k] for r in res)
    fired, probes = {}, {}
    for r in res:
        for k, n in r['fired'].items():
            fired[k] = fired.get(k, 0) + n
        for k, n in r['probes'].items():
            probes[k] = probes.get(k, 0) + n
    for i in ids:
        if probes.get('known:' + i):
            known_hit[ids[i]] = known_hit.get(ids[i], 0) + probes['known:' + i]
    edges = sum(1 for c in (cov or b'')[1:] if c)
    man = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
    level = 'exploration'
    for c in man['checks']:
        if c['property'] == prop:
            level = c['level']
    comp = json.load(open(os.path.join(SIM, 'components.json'))).get(PROPS[prop], {})
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2), violations=len(confirmed),
              coverage=dict(evaluations=tot('runs'), distinct_nontrivial=len(sigs), rule=res[0]['rule'] + '; distinct = different (operation outcomes, covered code edges with log-scaled counts) signature',
                            samples=[s for r in res for s in r['samples']][:2],
                            runs_per_hour=int(tot('runs') / max(t_run, 1e-3) * 3600), seeds_per_hour=int(tot('runs') / max(t_run, 1e-3) * 3600),
                            nontrivial_runs=tot('nontrivial'), operations=tot('ops'), operations_checked=tot('ops_checked'), recorded_events=tot('events'),
                            simulated_time='no clock in the code under test; simulated time is counted in operations and scheduler choice points',
                            scheduler_choice_points=tot('choice_points'), thread_switches=tot('switches'),
                            faults_fired={k: n for k, n in fired.items() if n}, runs_with_faults=tot('fault_runs'), rare_conditions=probes,
                            code_edges_covered=edges, code_edges_total=res[0]['edges_total'],
                            determinism_reruns_same_process=tot('determinism_reruns'), determinism_reruns_fresh_process=det,
                            components=comp, build_s=round(t_build, 1), search_s=round(t_run, 1), time_limited=any(r['timeout'] for r in res),
                            known_findings=sum(known_hit.values())),
              assumptions=comp.get('assumptions', []))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for k in known_hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    print('%s tier=%s seed=%d runs=%d distinct=%d ops=%d faults=%s edges=%d/%d build=%.1fs search=%.1fs' % (
        prop, tier, seed, tot('runs'), len(sigs), tot('ops'), {k: n for k, n in fired.items() if n}, edges, res[0]['edges_total'], t_build, t_run))
    if confirmed:
        for path, r in confirmed:
            print('  class=%s op=%d %s' % (r['cls'], r['op'], r['msg']))
        print('VIOLATION property=%s replay=%s' % (prop, confirmed[0][0]))
        sys.exit(1)
    if errs:
        die('; '.join(errs))
    if unrepro:
        die('a reported violation could not be reproduced: %s %s' % (unrepro[0]['cls'], unrepro[0]['msg']))
    sys.exit(0)


main()

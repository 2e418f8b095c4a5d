#!/usr/bin/env python3
"""Build the simulator from /repo's working tree and run one check. See DESIGN.md."""
import hashlib, json, os, subprocess, sys, time, shutil, re, fcntl
V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
B = os.path.join(V, 'build')
LIB = ['tiny', 'std', 'lexer', 'arena', 'array', 'dict', 'util', 'pos']
CC, CXX = 'clang', 'clang++'
LIBFLAGS = ['-O1', '-g1', '-fsanitize=address', '-fsanitize-coverage=trace-pc-guard,no-prune,pc-table', '-fno-finite-loops', '-fno-omit-frame-pointer', '-w', '-I' + REPO + '/tiny/include', '-D_GNU_SOURCE']
# Example programs which do not depend on Windows. They have no seams, so their allocator and locks are replaced at link time.
# They are part of the simulator for the checks over them only.
EXAMPLES = {'C20': 1, 'C21': 1, 'C22': 1}
EXSRC = ['server/src/list.c', 'server/src/request.c', 'server/src/requestparser.c', 'notepad/src/buffer.c']
EXFLAGS = ['-O1', '-g1', '-fsanitize=address,array-bounds', '-fsanitize-trap=array-bounds', '-fsanitize-coverage=trace-pc-guard,no-prune,trace-loads,trace-stores', '-fno-finite-loops', '-fno-omit-frame-pointer', '-fno-builtin', '-w', '-D_GNU_SOURCE', '-include', 'string.h', '-include', 'stdlib.h', '-I' + REPO + '/tiny/include']
# threads and states are preempted at the library's memory accesses, too
RACE = {'C01': 1, 'C03': 1}
# in that build also what libc does to memory on the library's behalf
RACEWRAP = ['__asan_memcpy', '__asan_memmove', '__asan_memset', 'memcpy', 'memmove', 'memset', 'snprintf', 'vsnprintf', 'sprintf', 'vsprintf', 'strcpy', 'strncpy', 'strcat', 'strncat', 'strlen', 'strcmp', 'strncmp', 'memcmp']
EXWRAP = ['malloc', 'calloc', 'realloc', 'free']
WRAP = ['malloc', 'calloc', 'realloc', 'free', 'strdup', 'fopen', 'fclose', 'ftell', 'remove', 'rename', 'exit', '_exit', '_Exit', 'quick_exit', 'abort', 'time', 'clock_gettime', 'gettimeofday', 'timespec_get', 'clock']

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        print('build step failed:', ' '.join(cmd)); print(r.stdout[-6000:]); sys.exit(3)
    return r.stdout

def files(d, exts):
    out = []
    for root, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts): out.append(os.path.join(root, f))
    return out

def build(examples=False, race=False):
    libflags = [f + (',trace-loads,trace-stores' if race and f.startswith('-fsanitize-coverage') else '') for f in LIBFLAGS]
    libsrc = sorted(f for f in files(REPO + '/tiny/src', ('.c',)))
    exdeps = []
    if examples: exdeps = [f for d in ('server', 'notepad') for f in files(f'{REPO}/examples/{d}/include', ('.h',))] + [f'{REPO}/examples/{f}' for f in EXSRC]
    simsrc = [f for f in files(V + '/sim', ('.cpp',)) if examples or not f.endswith('check_examples.cpp')]
    deps = files(REPO + '/tiny', ('.c', '.h')) + exdeps + simsrc + files(V + '/sim', ('.h',)) + [os.path.abspath(__file__)]
    h = hashlib.sha256(b'race' if race else b'')
    for f in deps:
        h.update(f.encode()); h.update(open(f, 'rb').read())
    key = h.hexdigest()[:16]
    d = os.path.join(B, key)
    exe = os.path.join(d, 'sim')
    if os.path.exists(exe): return exe, key
    os.makedirs(B, exist_ok=True)
    # harness objects depend on the repo headers and the harness only
    hh = hashlib.sha256()
    for f in files(REPO + '/tiny', ('.h',)) + files(V + '/sim', ('.h',)): hh.update(f.encode()); hh.update(open(f, 'rb').read())
    hk0 = hh.hexdigest()[:16]
    for f in exdeps: hh.update(open(f, 'rb').read())
    hk = hh.hexdigest()[:16]
    tmp = d + '.tmp%d' % os.getpid()
    os.makedirs(tmp)
    jobs, objs = [], []
    redef = sum([['--redefine-sym', f'{w}=__wrap_{w}'] for w in WRAP] + [['--redefine-sym', f'{w}=race_{w}'] for w in RACEWRAP if race and w not in WRAP], [])
    for c in libsrc:
        o = os.path.join(tmp, 'lib_' + os.path.basename(c) + '.o')
        objs.append(o)
        jobs.append((['sh', '-c', ' '.join([CC, *libflags, '-c', c, '-o', o]) + ' && ' + ' '.join(['objcopy', *redef, o])], None))
    exredef = sum([['--redefine-sym', f'{w}=ex_{w}'] for w in EXWRAP] + [['--redefine-sym', f'{w}=__wrap_{w}'] for w in WRAP if w not in EXWRAP], [])
    for f in EXSRC if examples else []:
        d1 = f.split('/')[0]
        o = os.path.join(tmp, f'ex_{d1}_' + os.path.basename(f) + '.o')
        objs.append(o)
        jobs.append((['sh', '-c', ' '.join([CC, *EXFLAGS, f'-I{REPO}/examples/{d1}/include', '-c', f'{REPO}/examples/{f}', '-o', o]) + ' && ' + ' '.join(['objcopy', *exredef, o])], None))
    for n in ('begin', 'end'):  # delimit the library's code in the executable
        open(f'{tmp}/{n}.c', 'w').write(f'void repo_{n}(void) {{}}\n')
        sh([CC, '-c', f'{tmp}/{n}.c', '-o', f'{tmp}/{n}.o'])
    os.makedirs(B + '/obj', exist_ok=True)
    for c in simsrc:
        k = hashlib.sha256(((hk if c.endswith('check_examples.cpp') else hk0) + open(c).read()).encode()).hexdigest()[:16]
        o = os.path.join(B, 'obj', os.path.basename(c) + '.' + k + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append(([CXX, '-std=c++17', '-O1', '-g1', '-w', '-D_GNU_SOURCE', '-I' + REPO + '/tiny/include', '-I' + REPO + '/examples', '-I' + V + '/sim', '-c', c, '-o', o + f'.tmp{os.getpid()}'], o))
    procs = [(subprocess.Popen(j[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), j) for j in jobs]
    bad = False
    for p, j in procs:
        out = p.communicate()[0]
        if p.returncode: print('build step failed:', ' '.join(j[0])); print(out[-6000:]); bad = True
        elif j[1]: os.rename(j[1] + f'.tmp{os.getpid()}', j[1])
    if bad: shutil.rmtree(tmp); sys.exit(3)
    sh([CXX, '-fsanitize=address', '-no-pie', '-o', tmp + '/sim', tmp + '/begin.o', *[o for o in objs if o.startswith(tmp)], tmp + '/end.o', *[o for o in objs if not o.startswith(tmp)], '-lm'])
    for o in objs:
        if o.startswith(tmp): os.unlink(o)
    try: os.rename(tmp, d)
    except OSError: shutil.rmtree(tmp)
    olds = sorted((x for x in os.listdir(B) if x != 'obj' and x != key and '.tmp' not in x), key=lambda x: os.path.getmtime(os.path.join(B, x)))
    for x in olds[:-12]: shutil.rmtree(os.path.join(B, x), ignore_errors=True)
    oo = sorted((os.path.join(B, 'obj', x) for x in os.listdir(B + '/obj')), key=os.path.getmtime)
    for x in oo[:-200]: os.unlink(x)
    return exe, key


# ---- running ---------------------------------------------------------------------------------
WORKERS = 8
# seconds of search and runs at most, per tier
TIERS = {'quick': (40, 400000), 'thorough': (780, 100000000)}
SLOW = {}

def known_findings():
    """known_findings.txt: 'known: property=<id> class=<class> <what fails>' and 'fixed: ...' lines"""
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) class=(\S+) choices=(\S*) (.*)', l.strip())
            if m: out.append(m.groups())
    return out

def replay_file(exe, path, verbose=False):
    j = json.load(open(path))
    cf = path + '.choices'
    open(cf, 'w').write(','.join(map(str, j['choices'])))
    try: r = subprocess.run([exe, 'replay', '--check', j['check'], '--file', cf, '--verbose', '1' if verbose else '0'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    finally: os.unlink(cf)
    out = r.stdout.decode('latin-1')
    m = re.search(r'^RESULT (\S+) class=(.*) hash=(\w+) choices', out, re.M)
    return (m.groups() if m else (None, None, None)), out

def cov_report(exe, cov):
    """Which functions of the library ran: guard index -> function, from the symbol of each edge is not kept; report edges"""
    n = len(cov)
    return {'library_edges': n, 'library_edges_executed': cov.count('1')}

def run_check(pid, tier, seed, secs=None, runs=None):
    t0 = time.time()
    exe, key = build(pid in EXAMPLES, pid in RACE)
    tb = time.time() - t0
    lim, cnt = TIERS[tier]
    if secs: lim = secs
    if runs: cnt = runs
    known = [k for k in known_findings() if k[0] == pid]
    work = os.path.join(B, 'work-%s-%d' % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    procs = []
    for i in range(WORKERS):
        procs.append(subprocess.Popen([exe, 'run', '--check', pid, '--seed', str(seed), '--start', str(i), '--stride', str(WORKERS), '--count', str(cnt), '--secs', str(lim),
            '--maxviol', '1', '--known', '\x1f'.join(k[1] for k in known), '--out', f'{work}/{i}.json'], stdout=subprocess.DEVNULL, stderr=open(f'{work}/{i}.err', 'w')))
    rcs = [p.wait() for p in procs]
    ds = []
    for i in range(WORKERS):
        try: ds.append(json.load(open(f'{work}/{i}.json')))
        except Exception as e:
            print(f'worker {i} gave no result (exit {rcs[i]}): {e}'); print(open(f'{work}/{i}.err').read()[-2000:])
    herr = [d['harness_error'] for d in ds if d['harness_error']]
    viols = [v for d in ds for v in d['violations']]
    viols.sort(key=lambda v: (len(v['choices']), v['run']))
    rc = 0
    total = sum(d['total'] for d in ds)
    C = {}
    for d in ds:
        for k, v in d['counters'].items(): C[k] = C.get(k, 0) + v
    D = {}
    for d in ds:
        for k, v in d['discards'].items(): D[k] = D.get(k, 0) + v
    sigs = set(x for d in ds for x in d['sigs'])
    cov = ''
    for d in ds:
        c = d['cov']
        cov = c if not cov else ''.join('1' if a == '1' or b == '1' else '0' for a, b in zip(cov, c))
    wall = time.time() - t0
    search = max([d['wall'] for d in ds] or [0.001])
    reported = 0
    os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
    for v in viols:
        name = os.path.join(V, 'replays', f"{pid}-{hashlib.sha256(v['class'].encode()).hexdigest()[:8]}.json")
        json.dump({'check': pid, 'class': v['class'], 'hash': v['hash'], 'seed': seed, 'run': v['run'], 'detail': v['detail'], 'sample': v['sample'],
                   'choices_before_minimising': v['orig_len'], 'choices': v['choices']}, open(name, 'w'), indent=1)
        got, out = replay_file(exe, name)
        if got[0] != 'violation' or got[1] != v['class'] or got[2] != v['hash']:
            herr.append(f"replay of {name} in a fresh process gave {got}, expected {v['class']} {v['hash']}")
            continue
        print(f"{pid}: {v['class']} (seed {seed}, run {v['run']}, {v['orig_len']} choices minimised to {len(v['choices'])})")
        print(v['detail'][:1500])
        print(v['sample'][:3000])
        print(f'reproduce: python3 check.py --replay {name}')
        print(f'VIOLATION property={pid} replay={name}', flush=True)
        reported += 1
        rc = 1
        break
    for k in known:
        f = os.path.join(work, 'known.json')
        json.dump({'check': pid, 'choices': [int(x) for x in k[2].split(',') if x]}, open(f, 'w'))
        got, _ = replay_file(exe, f)
        hits = sum(d['known'].get(k[1], 0) for d in ds)
        if hits or (got[0] == 'violation' and got[1] == k[1]): print(f'KNOWN-FINDING: property={pid} {k[3]} ({k[1]})')
    if len(ds) < WORKERS: herr.append('a worker failed')
    if not viols and total and sum(D.values()) > total * 0.5: herr.append(f'more than half of the runs did not apply: {D}')
    samples = [s for d in ds for s in d['samples']][:4]
    faults = {k: v for k, v in sorted(C.items()) if k.startswith(('fault.', 'crash.'))}
    sched = {k: v for k, v in sorted(C.items()) if k.startswith('schedule.')}
    probes = {k: v for k, v in sorted(C.items()) if not k.startswith(('fault.', 'crash.', 'schedule.'))}
    tech = json.load(open(os.path.join(V, 'techniques.json'))).get(pid, {})
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 2), 'violations': reported,
      'coverage': {
        'evaluations': total, 'distinct_nontrivial': len(sigs),
        'rule': tech.get('rule', 'one evaluation is one simulated run: every generated operation, schedule decision and fault is drawn from the seed. Runs that do not apply (the undisturbed run fails) are not counted as distinct; distinct counts different hashes of the schedule and fault sequence of runs that completed.'),
        'samples': samples,
        'runs_per_hour': int(total / search * 3600), 'seeds': [seed], 'runs_discarded': D,
        'simulated_steps': sum(d['steps'] for d in ds), 'simulated_time_unit': 'VM instructions (steps) and executed control-flow edges of the library (edges): the library has no clocks',
        'simulated_edges': sum(d['edges'] for d in ds), 'preemptions_inside_library_code': sum(d['switches'] for d in ds),
        'faults_injected': faults, 'schedule_events': sched, 'probes': probes,
        'coverage_of_library': cov_report(exe, cov),
        'real_components': tech.get('real', ['tiny/src/*.c compiled from the working tree']), 'stubbed_components': tech.get('stub', ['host allocator (simulated heap)', 'host foreign functions'])},
      'assumptions': tech.get('assumptions', [])}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    if herr and rc == 0:
        for h in herr: print('harness error:', h)
        return 3
    print(f'{pid} {tier}: {total} runs ({sum(d["ok"] for d in ds)} complete, {sum(D.values())} not applicable), {len(sigs)} distinct, {sum(d["steps"] for d in ds)} steps, build {tb:.1f}s, search {search:.1f}s, {"VIOLATED" if rc else "no violation"}')
    return rc

def main(a):
    if a and a[0] == '--setup': 
        print(build()[0])
        print(build(race=True)[0])
        try: print(build(True)[0])
        except SystemExit: print('the example programs do not build')
        return 0
    if a and a[0] == '--build': print(build(len(a) > 1 and a[1] in EXAMPLES, len(a) > 1 and a[1] in RACE)[0]); return 0
    if a and a[0] == '--replay':
        j = json.load(open(a[1]))
        exe, _ = build(j['check'] in EXAMPLES, j['check'] in RACE)
        got, out = replay_file(exe, a[1], True)
        print(out)
        same = got[0] == 'violation' and got[1] == j.get('class') and got[2] == j.get('hash')
        print('reproduced exactly' if same else 'NOT reproduced as recorded')
        return 1 if got[0] == 'violation' else 0
    if not a: print(build()[0]); return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    secs = runs = None
    for x in a[1:]:
        if x in TIERS: tier = x
        elif x.startswith('--secs='): secs = float(x[7:])
        elif x.startswith('--runs='): runs = int(x[7:])
    if tier not in TIERS: tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    return run_check(a[0], tier, seed, secs, runs)

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

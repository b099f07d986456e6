#!/usr/bin/env python3
"""Decides one property: seeded search over simulated executions of /repo's code.

usage: check.py PROPERTY [quick|thorough]     (VERIF_SEED, VERIF_TIER from the environment)
       check.py --replay FILE                 re-executes a replay file, prints its verdict
       check.py --build [variant..]           builds the simulators
       check.py --determinism [N]             every scenario, N seeds, twice, two worker counts
exit: 0 held, 1 VIOLATION printed, 2 the check itself failed
"""
import collections, fcntl, json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import PROPS, VARIANTS   # noqa

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, 'build')
REPO = '/repo'
NPROC = max(2, min(8, os.cpu_count() or 8))
T0 = time.time()
ENV = dict(os.environ, LC_ALL='C', SIM_WALL=os.environ.get('SIM_WALL', '60'))
ENV.pop('SIM_PLAN', None)


def die(msg):
    print('CHECK-ERROR: ' + msg)
    sys.stdout.flush()
    sys.exit(2)


def build(variant):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        v = VARIANTS[variant]
        d = os.path.join(BUILD, variant)
        log = os.path.join(BUILD, variant + '.log')
        with open(log, 'w') as lf:
            for cmd in v['build'](ROOT, d):
                r = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=dict(os.environ, LC_ALL='C.UTF-8', CC='gcc', CXX='g++', CCACHE_DISABLE='1'))
                if r.returncode:
                    tail = open(log, errors='replace').read()[-3000:]
                    die('building the simulator (%s) failed\n%s' % (variant, tail))
        return d


def command(variant):
    return VARIANTS[variant]['run'](os.path.join(BUILD, variant))


def run_range(variant, scenario, seeds, budget, over, workers=NPROC):
    """seeds: (first, count). Yields result dicts."""
    first, count = seeds
    procs = []
    for w in range(workers):
        n = (count - w + workers - 1) // workers
        if n <= 0:
            continue
        cmd = command(variant) + ['range', scenario, str(first + w), str(workers), str(n), str(budget)] + ['%s=%s' % kv for kv in over.items()]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV))
    import threading, queue
    q = queue.Queue()

    def pump(p):
        for l in p.stdout:
            q.put(l)
        p.wait()
        q.put(('end', p.returncode))
    for p in procs:
        threading.Thread(target=pump, args=(p,), daemon=True).start()
    left = len(procs)
    try:
        while left:
            l = q.get()
            if isinstance(l, tuple):
                left -= 1
                if l[1] != 0:
                    die('simulator %s/%s ended with %s' % (variant, scenario, l[1]))
                continue
            try:
                yield json.loads(l)
            except ValueError:
                die('bad result line: %r' % l[:300])
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()


def batch(variant, plans):
    """Executes plans (texts), in parallel processes; results in order."""
    if not plans:
        return []
    k = min(NPROC, len(plans))
    chunks = [plans[i::k] for i in range(k)]
    procs = []
    for c in chunks:
        p = subprocess.Popen(command(variant) + ['batch'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)
        procs.append(p)
    import threading
    outs = [None] * k

    def go(i):
        o, _ = procs[i].communicate(('\n---\n'.join(chunks[i]) + '\n---\n').encode())
        outs[i] = [json.loads(x) for x in o.decode().splitlines()]
    ts = [threading.Thread(target=go, args=(i,)) for i in range(k)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    res = [None] * len(plans)
    for i in range(k):
        if len(outs[i]) != len(chunks[i]):
            die('batch lost results')
        for j, r in enumerate(outs[i]):
            res[i + j * k] = r
    return res


def symbolise(variant, msg):
    m = re.findall(r'pc:([0-9a-f,]+)', msg)
    if not m or variant not in ('st', 'mt', 'asan'):
        return msg, []
    binary = command(variant)[0]
    frames = []
    for lst in m:
        pcs = lst.split(',')
        o = subprocess.run(['addr2line', '-f', '-C', '-s', '-e', binary] + [hex(max(0, int(x, 16) - 1)) for x in pcs], capture_output=True, text=True).stdout.splitlines()
        names = []
        for i in range(0, len(o) - 1, 2):
            f = re.sub(r'\(.*', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', o[i])))).strip()
            names.append('%s@%s' % (f.split(' ')[-1], o[i + 1].split(' ')[0]))
        frames.append(names)
    for lst, names in zip(m, frames):
        msg = msg.replace('pc:' + lst, 'at ' + ' < '.join(names[:7]))
    return msg, frames


def repo_frame(names):
    skip = ('stl_', 'basic_string', 'shared_ptr', 'hashtable', 'alloc', 'vector', 'std_', 'new', 'move.h', 'unordered_', 'char_traits', 'functional', 'invoke', 'ptr_traits', 'concurrence', 'atomic', 'exception')
    for n in names:
        f, _, where = n.partition('@')
        if '?' in f or any(where.startswith(s) for s in skip):
            continue
        return f
    return names[0] if names else '?'


def signature(variant, r):
    """Stable identity of a violation, used to match known findings."""
    msg, frames = symbolise(variant, r['msg'])
    if r['cls'] == 'race' and frames:
        return 'race:' + '|'.join(sorted(repo_frame(f) for f in frames)), msg
    return r['cls'] + ':' + r['msg'], msg


def known_findings():
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) sig=(\S+) (.*)', l.strip())
            if m:
                out.append({'property': m.group(1), 'sig': m.group(2), 'what': m.group(3)})
    return out


def same(a, b):
    return a['status'] == 'violation' and a['cls'].split(':')[0] == b['cls'].split(':')[0]


def minimise(variant, r, known, prop, budget=40):
    t0 = time.time()
    lines = [l for l in r['plan'].splitlines() if l.strip()]
    head = [l for l in lines if l.split()[0] not in ('op', 'fault', 'pre')]
    body = [l for l in lines if l.split()[0] in ('op', 'fault', 'pre')]

    def listed(x):
        if not known:
            return False
        s, _ = signature(variant, x)
        return any(re.search(k['sig'], s) for k in known)
    best = r
    size = max(1, len(body) // 2)
    while time.time() - t0 < budget and body:
        cands = [body[:i] + body[i + size:] for i in range(0, len(body), size)]
        hit = None
        for i in range(0, len(cands), NPROC * 2):
            part = cands[i:i + NPROC * 2]
            res = batch(variant, ['\n'.join(head + c) for c in part])
            for c, x in zip(part, res):
                if same(x, r) and not listed(x):
                    hit = (c, x)
                    break
            if hit or time.time() - t0 > budget:
                break
        if hit:
            body, best = hit
            size = min(size, max(1, len(body) // 2))
        elif size == 1:
            break
        else:
            size = max(1, size // 2)
    return '\n'.join(head + body) + '\n', best


def report(prop, variant, r, known):
    """Gates a violation (exact replay in fresh processes), minimises it, prints it. Returns True if it stands."""
    if 'plan' not in r:
        die('violation without plan')
    again = [batch(variant, [r['plan']])[0] for _ in range(2)]
    for a in again:
        if not same(a, r):
            die('violation of %s does not replay (seed %s, %s: %s -> %s)' % (prop, r['seed'], r['cls'], r['msg'][:200], a['status'] + ' ' + a['cls']))
    if again[0]['hash'] != again[1]['hash'] and not r['cls'].startswith(('hang', 'crash')):
        die('replay of seed %s is not deterministic' % r['seed'])
    text, best = minimise(variant, r, known, prop)
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.plan' % (prop, r['seed']))
    msg = symbolise(variant, best['msg'])[1] and symbolise(variant, best['msg'])[0] or best['msg']
    with open(path, 'w') as f:
        f.write('# property %s variant %s\n# verdict %s: %s\n' % (prop, variant, best['cls'], msg.replace('\n', ' ')))
        f.write('# found with seed %s; replay: python3 /verif/check.py --replay %s\n' % (r['seed'], path))
        f.write(text)
    fresh = batch(variant, [open(path).read()])[0]
    if not same(fresh, r):
        with open(path, 'w') as f:
            f.write('# property %s variant %s\n' % (prop, variant) + r['plan'])
    print('  seed %s: %s: %s' % (r['seed'], best['cls'], msg[:1200]))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    sys.stdout.flush()


def do_replay(path):
    text = open(path).read()
    m = re.search(r'# property (\S+) variant (\S+)', text)
    variant = m.group(2)
    build(variant)
    r = batch(variant, [text])[0]
    msg, _ = symbolise(variant, r['msg'])
    print(r['status'], r['cls'], msg)
    if r['status'] == 'violation':
        print('VIOLATION property=%s replay=%s' % (m.group(1), path))
        return 1
    return 0


def run_property(prop, tier):
    spec = PROPS[prop]
    base = int(os.environ.get('VERIF_SEED', '1'))
    print('property %s tier %s VERIF_SEED %d' % (prop, tier, base))
    known = [k for k in known_findings() if k['property'] == prop]
    for v in sorted({s['variant'] for s in spec['stages']}):
        t = time.time()
        build(v)
        print('built %s in %.0f s' % (v, time.time() - t))
    t_run = time.time()
    counters = collections.Counter()
    fps, covers, logs = set(), set(), set()
    runs = nontrivial = events = 0
    samples, findings, per = [], {}, {}
    bad = None
    for si, st in enumerate(spec['stages']):
        n = st['quick'] if tier == 'quick' else st['thorough']
        first = base * 1000003 + si * 100000007 + 1
        budget = st.get('budget', 90) if tier == 'quick' else st.get('thorough_budget', 600)
        t1 = time.time()
        cnt = 0
        kept = []
        for r in run_range(st['variant'], st['scenario'], (first, n), budget, st.get('par', {})):
            if r['status'] == 'error':
                die('harness: %s (scenario %s seed %s)' % (r['msg'], st['scenario'], r['seed']))
            cnt += 1
            runs += 1
            events += r['events']
            counters.update(r['counters'])
            fps.add(r['fp'])
            covers.update(r['cover'])
            nt = any(k.startswith(('fault.', 'sched.preempt', 'crash.', 'cancel.', 'net.')) and v for k, v in r['counters'].items()) or r['switches'] > 8
            if nt and r['hash'] not in logs:
                logs.add(r['hash'])
                nontrivial += 1
            for k in r.get('known', []):
                pass
            if len(kept) < 16:
                kept.append(r)
            if len(samples) < 4 and nt:
                samples.append({'scenario': st['scenario'], 'seed': r['seed'], 'events': r['events'], 'log_hash': r['hash'], 'what': dict(r['counters'])})
            if r['status'] == 'violation':
                if known:
                    sig, msg = signature(st['variant'], r)
                    k = next((k for k in known if re.search(k['sig'], sig)), None)
                    if k:
                        findings.setdefault(k['sig'], (k, r))
                        continue
                bad = (st, r)
                break
        per[st['scenario'] + '/' + st['variant']] = {'runs': cnt, 'wall_s': round(time.time() - t1, 1)}
        if bad:
            break
        # determinism gate: same seeds again, in other processes, with another worker count
        again = {r['seed']: r for r in run_range(st['variant'], st['scenario'], (first, min(n, 16)), 0, st.get('par', {}), workers=3)}
        for r in kept:
            a = again.get(r['seed'])
            if a and a['hash'] != r['hash'] and r['status'] == 'ok':
                die('scenario %s seed %s is not deterministic' % (st['scenario'], r['seed']))
        counters['determinism.rechecked'] += len(again)
    wall_run = time.time() - t_run
    viol = 0
    if bad:
        viol = 1
        report(prop, bad[0]['variant'], bad[1], known)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    probes = {p: counters.get(p, 0) for p in spec.get('probes', [])}
    faults = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith('fault.')}
    ev = {
        'property': prop, 'tier': tier, 'seed': base, 'level': spec.get('level', 'exploration'),
        'coverage': {
            'evaluations': runs, 'distinct_nontrivial': nontrivial,
            'rule': 'one evaluation = one simulated execution of a generated plan (operations, faults, schedule) from one seed; non-trivial = at least one fault, crash, cancellation or preemption actually took effect; distinct = event log hash not seen before in this check. ' + spec.get('rule', ''),
            'samples': samples,
            'runs_per_hour': int(runs / max(wall_run, 0.001) * 3600), 'seeds_per_hour': int(runs / max(wall_run, 0.001) * 3600),
            'simulated_events': events,
            'simulated_time': '%d seconds of the simulated clock' % counters['time.s'] if counters['time.s'] else 'one logged event is one tick of simulated time; ticks covered: %d' % events,
            'distinct_interleavings': len(fps), 'distinct_states': len(covers),
            'states_measure': 'hash of the observable content (model state, delivered results) at the end of runs and at marked points',
            'faults_injected': faults, 'scheduler': {k: v for k, v in counters.items() if k.startswith('sched.')},
            'operations': {k: v for k, v in counters.items() if k.startswith(('op.', 'crash.', 'cancel.', 'seam.', 'net.', 'check.'))},
            'probes': probes, 'determinism_rechecked': counters['determinism.rechecked'],
            'per_stage': per, 'real_components': spec.get('real', []), 'stubbed_components': spec.get('stubs', []),
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - T0, 1), 'violations': viol,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d runs (%d distinct non-trivial), %d interleavings, %d states, %d events, faults %s, %.0f s' % (prop, runs, nontrivial, len(fps), len(covers), events, faults, time.time() - T0))
    for p, v in probes.items():
        if not v and not viol:
            print('note: probe %s was never hit' % p)
    return 1 if viol else 0


def determinism(n):
    bad = 0
    seen = set()
    for prop, spec in sorted(PROPS.items()):
        for st in spec['stages']:
            key = (st['variant'], st['scenario'], tuple(sorted(st.get('par', {}).items())))
            if key in seen:
                continue
            seen.add(key)
            build(st['variant'])
            a = {r['seed']: r for r in run_range(st['variant'], st['scenario'], (900001, n), 0, st.get('par', {}), workers=8)}
            b = {r['seed']: r for r in run_range(st['variant'], st['scenario'], (900001, n), 0, st.get('par', {}), workers=3)}
            diff = [s for s in a if a[s]['hash'] != b[s]['hash'] or a[s]['status'] != b[s]['status']]
            print('%-10s %-22s %d seeds, %d differ %s' % (prop, st['scenario'], len(a), len(diff), diff[:5]))
            bad += len(diff)
    return 2 if bad else 0


if __name__ == '__main__':
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        sys.exit(2)
    if a[0] == '--build':
        for v in (a[1:] or VARIANTS):
            build(v)
        sys.exit(0)
    if a[0] == '--replay':
        sys.exit(do_replay(a[1]))
    if a[0] == '--determinism':
        sys.exit(determinism(int(a[1]) if len(a) > 1 else 60))
    sys.exit(run_property(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')))

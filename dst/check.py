'''
Driver of one check: python3 check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored; 1: VIOLATION (line on stdout); 2: error.
'''
import sys, os, json, time, subprocess, shutil, tempfile, argparse, hashlib, queue, threading, random, re

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = os.environ.get('DST_PYTHON', '/opt/venv/bin/python')
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from catalogue import CHECKS, COMPONENTS   # noqa: E402


class Server:
    '''One fork server'''
    def __init__(self, hashseed, scratch, modules):
        env = dict(os.environ)
        env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
                   OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', HOME=scratch,
                   DIJITSO_CACHE_DIR=os.path.join(scratch, 'dijitso'),
                   INSTANT_CACHE_DIR=os.path.join(scratch, 'instant'),
                   CXX=(lambda c: c if os.path.exists(c) else 'c++')(os.path.join(scratch, 'pch', 'cxx')),
                   MPLCONFIGDIR=os.path.join(scratch, 'mpl'), TMPDIR=os.path.join(scratch, 'tmp'),
                   DST_MODULES=' '.join(modules))
        self.hashseed = hashseed
        for attempt in range(3):
            err = tempfile.TemporaryFile(dir=scratch)
            self.p = subprocess.Popen([PY, '-W', 'ignore', os.path.join(HERE, 'zygote.py')],
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True,
                                      cwd=os.path.join(scratch, 'cwd'),
                                      stderr=None if os.environ.get('DST_DEBUG') else err)
            line = self.p.stdout.readline()
            if line:
                break
            self.p.wait()
        if not line:
            err.seek(0)
            raise RuntimeError('fork server did not start: ' + err.read().decode(errors='replace')[-1500:])
        assert 'ready' in json.loads(line)

    def run(self, **req):
        self.p.stdin.write(json.dumps(req) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('fork server died')
        out = json.loads(line)
        out['hashseed'] = self.hashseed
        return out

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


def make_scratch():
    d = tempfile.mkdtemp(prefix='dst-')
    for s in ('tmp', 'mpl', 'instant', 'cwd'):
        os.mkdir(os.path.join(d, s))
    src = '/opt/vp/cache/dijitso'
    if os.environ.get('DST_JIT'):      # For experiments: keep what was compiled
        os.symlink(os.environ['DST_JIT'], os.path.join(d, 'dijitso'))
    elif os.path.isdir(src):
        shutil.copytree(src, os.path.join(d, 'dijitso'), symlinks=True)
    else:
        os.mkdir(os.path.join(d, 'dijitso'))
    precompile(d)
    return d


def precompile(d):
    '''
    Generated code of forms is compiled with the headers precompiled (this more
    than halves the time of compilation). Any trouble: the plain compiler.
    '''
    h = os.path.join(d, 'pch', 'pre.h')
    os.mkdir(os.path.dirname(h))
    ufc = '/usr/lib/python3/dist-packages/ffc/backends/ufc'
    with open(h, 'w') as f:
        f.write(''.join('#include <%s>\n' % x for x in ('algorithm', 'cmath', 'iostream', 'stdexcept', 'vector', 'ufc.h')))
    r = subprocess.run(['c++', '-Wall', '-shared', '-fPIC', '-std=c++11', '-O0', '-I' + ufc, '-x', 'c++-header', h, '-o', h + '.gch'],
                       capture_output=True) if os.path.isdir(ufc) else None
    if r is None or r.returncode:
        return
    path = os.path.join(d, 'pch', 'cxx')
    with open(path, 'w') as f:
        f.write('''#!/bin/sh
case "$*" in
  *ffc_*) c++ -include %s "$@" 2>/dev/null && exit 0;;
esac
exec c++ "$@"
''' % h)
    os.chmod(path, 0o755)


def import_failure():
    '''Can the package be imported at all? -> message if not'''
    p = subprocess.run([PY, '-W', 'ignore', '-c', 'import xii'], cwd='/', capture_output=True, text=True,
                       env=dict(os.environ, PYTHONPATH=os.environ.get('DST_REPO', '/repo'), PYTHONDONTWRITEBYTECODE='1'))
    return p.stderr[-800:] if p.returncode else None


def hashseed_of(seed, jobs):
    return seed % jobs


def minimise(servers, module, plan, kind, budget):
    '''ddmin over operations, then drop their faults; same violation class'''
    t0 = time.monotonic()
    tried = 0

    def fails(cands):
        '''First of the candidates which still fails (run in parallel)'''
        nonlocal tried
        results = [None]*len(cands)

        def work(i):
            results[i] = servers[i % len(servers)].run(plan=cands[i], timeout=90)
        for lo in range(0, len(cands), len(servers)):
            if time.monotonic() - t0 > budget:
                return None
            ts = [threading.Thread(target=work, args=(i, )) for i in range(lo, min(lo+len(servers), len(cands)))]
            [t.start() for t in ts]
            [t.join() for t in ts]
            tried += len(ts)
            for i in range(lo, min(lo+len(servers), len(cands))):
                if results[i]['status'] == 'violation' and results[i]['kind'] == kind:
                    return cands[i]
        return None

    n = 2
    while len(plan['ops']) > 1 and time.monotonic() - t0 < budget:
        ops = plan['ops']
        size = max(1, (len(ops) + n - 1)//n)
        chunks = [(i, min(i+size, len(ops))) for i in range(0, len(ops), size)]
        cands = [dict(plan, ops=ops[a:b]) for a, b in chunks] if n == 2 else []
        cands += [dict(plan, ops=ops[:a] + ops[b:]) for a, b in chunks]
        hit = fails([c for c in cands if c['ops']])
        if hit is not None:
            plan, n = hit, max(2, min(n-1, len(hit['ops'])))
        elif size == 1:
            break
        else:
            n = min(len(ops), 2*n)
    # Simpler operations
    for i in range(len(plan['ops'])):
        for key in ('fault', 'noise', 'callback'):
            if plan['ops'][i].get(key):
                op = {k: v for k, v in plan['ops'][i].items() if k != key}
                hit = fails([dict(plan, ops=plan['ops'][:i] + [op] + plan['ops'][i+1:])])
                plan = hit or plan
    return plan, tried


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--seeds', type=int)
    ap.add_argument('--start', type=int)
    ap.add_argument('--deadline', type=float)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--fast', action='store_true', help='do not minimise, do not run again for determinism')
    args = ap.parse_args()
    check = CHECKS[args.prop]
    module = check['module']
    verif_seed = int(os.environ.get('VERIF_SEED', '1'))
    base = args.start if args.start is not None else verif_seed*1000003
    t0 = time.monotonic()

    scratch = make_scratch()
    servers = []
    try:
        return run(args, check, module, verif_seed, base, t0, scratch, servers)
    finally:
        for s in servers:
            s.close()
        shutil.rmtree(scratch, ignore_errors=True)


def violation(prop, path, out):
    print('VIOLATION property=%s replay=%s' % (prop, path))
    print('  seed %s: %s: %s' % (out.get('seed'), out['kind'], out['msg'][:500]))


def save_replay(prop, plan, out, extra):
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, plan['seed']))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'plan': plan, 'hashseed': out['hashseed'], 'violation':
                   {k: out.get(k) for k in ('kind', 'msg', 'step', 'trace')}, **extra}, f, indent=1)
    return os.path.relpath(path, VERIF)


def run(args, check, module, verif_seed, base, t0, scratch, servers):
    prop = args.prop
    broken = import_failure()
    if broken:
        print('package cannot be imported:\n' + broken)
        return 2
    tier = args.tier
    deps = [module]

    if args.replay:
        with open(os.path.join(VERIF, args.replay) if not os.path.exists(args.replay) else args.replay) as f:
            rep = json.load(f)
        servers.append(Server(rep['hashseed'], scratch, deps))
        out = servers[0].run(plan=rep['plan'], timeout=600)
        if 'other_hashseed' in rep:
            servers.append(Server(rep['other_hashseed'], scratch, deps))
            out2 = servers[1].run(plan=rep['plan'], timeout=600)
            if out['status'] != 'ok' or out2['status'] != 'ok' or out['values'] != out2['values']:
                print('results with two hash seeds', out.get('values'), out2.get('values'))
                violation(prop, args.replay, dict(rep['violation'], seed=rep['plan']['seed']))
                return 1
            return 0
        print(json.dumps({k: v for k, v in out.items() if k != 'plan'}, indent=1))
        if out['status'] == 'violation':
            same = out['kind'] == rep['violation']['kind'] and out['msg'] == rep['violation']['msg']
            print('reproduced exactly' if same else 'fails differently than recorded')
            violation(prop, args.replay, out)
            return 1
        if out['status'] == 'timeout' and rep['violation']['kind'] == 'no-progress':
            violation(prop, args.replay, dict(rep['violation'], seed=rep['plan']['seed']))
            return 1
        return 0 if out['status'] == 'ok' else 2

    nseeds = args.seeds or check['seeds'][tier]
    deadline = args.deadline or check.get('deadline', {'quick': 100, 'thorough': 3000})[tier]
    jobs = args.jobs
    lock = threading.Lock()
    errors, outs = [], []
    stop = threading.Event()

    def start(i, into):
        try:
            into[i] = Server(i, scratch, deps)
        except Exception as e:
            errors.append('server: %r' % e)
    slots = [None]*jobs
    start(0, slots)     # Alone: whatever is compiled on import is compiled once
    ts = [threading.Thread(target=start, args=(i, slots)) for i in range(1, jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    servers.extend(s for s in slots if s is not None)
    if errors:
        print(errors[0])
        return 2

    findings_lines = []
    bad = []

    # Known findings first: each has its own probing plan
    known = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json'))) if
             k['property'] == prop and k.get('status') == 'known']
    for k in known:
        plan = json.load(open(os.path.join(VERIF, k['probe'])))
        out = servers[0].run(plan=plan, timeout=120)
        if out['status'] == 'violation':
            if out['kind'] == k['kind'] and re.search(k['match'], out['msg']):
                findings_lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            else:
                bad.append(out)
        elif out['status'] != 'ok':
            errors.append('%s: %s' % (out['kind'], out['msg']))

    seeds = [base + i for i in range(nseeds)]
    queues = [[s for s in seeds if hashseed_of(s, jobs) == j] for j in range(jobs)]

    def work(j):
        srv = servers[j]
        for s in queues[j]:
            if stop.is_set() or time.monotonic() - t0 > deadline:
                return
            try:
                out = srv.run(module=module, seed=s, tier=tier, timeout=check.get('timeout', 150), want_plan=s < base + 8)
                if out['status'] == 'timeout' and not stop.is_set():
                    # Runs take seconds. Is it the machine or is there no end?
                    out = srv.run(module=module, seed=s, tier=tier, timeout=2*check.get('timeout', 150))
                    if out['status'] == 'timeout':
                        out.update(status='violation', kind='no-progress', msg='run did not end within %s (twice)' % out['msg'],
                                   hashseed=out.get('hashseed', j))
            except Exception as e:
                errors.append(repr(e))
                stop.set()
                return
            with lock:
                outs.append(out)
                if args.verbose:
                    print(s, out['status'], out.get('kind', ''), out.get('msg', '')[:3000], '%.1fs' % out['wall'], flush=True)
                if out['status'] == 'violation':
                    bad.append(out)
                    if not args.keep_going:
                        stop.set()
                elif out['status'] != 'ok':
                    errors.append('seed %s %s: %s' % (s, out['kind'], out['msg']))
    if not bad and not errors:
        ts = [threading.Thread(target=work, args=(j, )) for j in range(jobs)]
        [t.start() for t in ts]
        [t.join() for t in ts]

    # Determinism: the same seeds in other processes, same digest
    det = {'reexecuted': 0, 'different': 0}
    good = sorted((o for o in outs if o['status'] == 'ok'), key=lambda o: o['seed'])
    if good and not bad and not errors and not args.fast:
        pick = good[::max(1, len(good)//check.get('redo', 6))][:check.get('redo', 6)]
        fresh = {}
        for o in pick:
            h = o['hashseed']
            if h not in fresh:
                fresh[h] = Server(h, scratch, deps)
                servers.append(fresh[h])
        def redo(o):
            o2 = fresh[o['hashseed']].run(module=module, seed=o['seed'], tier=tier, timeout=200)
            with lock:
                det['reexecuted'] += 1
                if o2.get('digest') != o['digest']:
                    det['different'] += 1
                    det.setdefault('seeds', []).append(o['seed'])
        by = {}
        for o in pick:
            by.setdefault(o['hashseed'], []).append(o)
        ts = [threading.Thread(target=lambda os_: [redo(o) for o in os_], args=(v, )) for v in by.values()]
        [t.start() for t in ts]
        [t.join() for t in ts]

    # Other order of hashes: same values
    crossed = 0

    def differ(o, o2):
        if o2['status'] != 'ok':
            return [o2['kind']]
        return [k for k, v in o['values'].items() if o2.get('values', {}).get(k) is None or
                any(abs(a-b) > 1e-9*max(abs(a), abs(b), c) for a, b, c in zip(v['is'], o2['values'][k]['is'], v['scale']))]

    if check.get('cross') and good and not bad and not errors:
        def cross(j):
            nonlocal crossed
            for o in good:
                if hashseed_of(o['seed'] + 3, jobs) != j or time.monotonic() - t0 > deadline + 60:
                    continue
                o2 = servers[j].run(module=module, seed=o['seed'], tier=tier, timeout=200)
                with lock:
                    crossed += 1
                    diff = differ(o, o2)
                    if diff:
                        bad.append(dict(o2, status='violation', kind='hash-order', hashseed=o2['hashseed'], other=o['hashseed'],
                                        msg='results depend on the order of hashes: %s' % diff[:3]))
        ts = [threading.Thread(target=cross, args=(j, )) for j in range(jobs)]
        [t.start() for t in ts]
        [t.join() for t in ts]

    code, viol = 0, []
    if bad:
        out = sorted(bad, key=lambda o: (o['seed'] is None, o['seed']))[0]
        plan = out.get('plan')
        if plan is None:
            # Process died: regenerate the plan
            r = subprocess.run([PY, '-W', 'ignore', '-c',
                                'import sys,json; sys.path[:0]=[%r,%r]; import sim;'
                                'print(json.dumps(sim.make_plan(%r,%d,%r)))' % (
                                    HERE, os.environ.get('DST_REPO', '/repo'), module, out['seed'], tier)],
                               capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=str(out['hashseed']),
                               DIJITSO_CACHE_DIR=os.path.join(scratch, 'dijitso')))
            plan = json.loads(r.stdout.strip().splitlines()[-1])
        n0 = len(plan['ops'])
        if args.fast:
            print('VIOLATION property=%s seed=%s: %s: %s' % (prop, out['seed'], out['kind'], out['msg'][:300]))
            return 1
        if out['kind'] == 'hash-order':
            path = save_replay(prop, plan, out, {'other_hashseed': out['other']})
            violation(prop, path, out)
            return 1
        if out['kind'] == 'no-progress':
            path = save_replay(prop, plan, out, {'operations': n0})
            violation(prop, path, out)
            return 1
        pool = []
        for i in range(jobs):
            pool.append(Server(out['hashseed'], scratch, deps))
        servers.extend(pool)
        small, tried = minimise(pool, module, plan, out['kind'], 60 if tier == 'quick' else 240)
        final = Server(out['hashseed'], scratch, deps)
        servers.append(final)
        again = final.run(plan=dict(small, keep_log=True), timeout=300)
        if not (again['status'] == 'violation' and again['kind'] == out['kind']):
            small, again = plan, out
            again2 = final.run(plan=plan, timeout=300)
            confirmed = again2['status'] == 'violation'
        else:
            confirmed = True
        again['seed'] = out['seed']
        path = save_replay(prop, small, again, {'operations_before_minimisation': n0, 'operations': len(small['ops']),
                                                'minimisation_runs': tried, 'replayed_in_fresh_process': confirmed,
                                                'log': again.get('log')})
        for l in findings_lines:
            print(l)
        violation(prop, path, again)
        viol = [{'seed': out['seed'], 'kind': again['kind'], 'what': again['msg'][:400], 'replay': path}]
        code = 1
    elif errors:
        print('ERROR of the check: ' + errors[0])
        code = 2
    else:
        for l in findings_lines:
            print(l)

    # ---------------------------------------------------------------- evidence
    wall = time.monotonic() - t0
    stats = {}
    for o in outs:
        for k, v in (o.get('stats') or {}).items():
            stats[k] = stats.get(k, 0) + v
    states = set(x for o in outs for x in o.get('states') or ())
    digests = set(o.get('digest') for o in outs if o['status'] == 'ok')
    ops = stats.get('ops', 0)
    ev = {'property': prop, 'tier': tier, 'seed': verif_seed, 'level': check['level'],
          'coverage': {
              'evaluations': len(outs),
              'distinct_nontrivial': len(digests),
              'rule': check.get('rule', 'distinct event logs (operations, fault sites, exact result values) of runs that made '
                                'at least one check'),
              'samples': [{'seed': o['seed'], 'digest': o.get('digest'), 'events': o.get('events'), 'plan': o.get('plan')}
                          for o in good if o.get('plan')][:3],
              'distinct_states': len(states),
              'states_measure': 'distinct (operator, variant, kind of form, elements, weights, tags, dimension) verified and '
                                'distinct (fault kind, call site) at which a fault was raised',
              'fault_sites': len([x for x in states if x.startswith('fault ')]),
              'seeds_per_hour': round(3600*len(outs)/max(wall, 1e-3)),
              'simulated_time': 'logical: %d operations, %d oracle comparisons (no clock in the code under test)' % (
                  ops, stats.get('checks', 0)),
              'faults_injected': {k[7:]: v for k, v in stats.items() if k.startswith('faults.')},
              'operations': {k[3:]: v for k, v in sorted(stats.items()) if k.startswith('op.')},
              'probes': {k[2:]: v for k, v in sorted(stats.items()) if k.startswith('p.')},
              'determinism': det, 'reexecuted_with_other_hash_seed': crossed,
              'real_components': COMPONENTS['real'], 'stub_components': COMPONENTS['stub'],
              'known_findings': findings_lines,
          },
          'assumptions': check.get('assumptions', []),
          'wall_s': round(wall, 2), 'violations': len(viol), 'violation_details': viol}
    if not args.no_evidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d runs, %d checks, %.1f s, faults %s, determinism %s' % (
        prop, tier, len(outs), stats.get('checks', 0), wall, ev['coverage']['faults_injected'], det))
    if args.verbose:
        libs = [x[:len('libdijitso-ffc_form')] for x in os.listdir(os.path.join(scratch, 'dijitso', 'lib'))]
        print('compiled', {x: libs.count(x) for x in set(libs)})
        print(json.dumps(stats, indent=1, sort_keys=True))
    return code


if __name__ == '__main__':
    sys.exit(main())

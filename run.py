#!/usr/bin/env python3
"""Decide one property: rebuild the IR from /repo, run its symbolic jobs, replay what the solver reports, write evidence.
usage: run.py PROPERTY [--tier quick|thorough] [--jobs N] [--only HARNESS] [-v]     (run.py --setup builds only)
exit 0: held within the bounds; 1: VIOLATION, reproduced natively; 2: no verdict (build failure, time-out of a required job, ...)"""
import concurrent.futures as cf, fcntl, json, os, resource, signal, subprocess, sys, threading, time
V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, 'build')
sys.path.insert(0, V)
from jobs import PROPS

def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
def build():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'lock'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        r = subprocess.run([os.path.join(V, 'build.sh'), B], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: print(r.stdout); return False
    return True
def replay(h, params, values, timeout=30):
    """run the same harness natively on concrete values -> (outcome, notes)"""
    try: r = subprocess.run([os.path.join(B, 'replay'), h, ','.join(map(str, params)), ','.join(map(str, values))], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, preexec_fn=limits)
    except subprocess.TimeoutExpired: return 'hang', [], ''
    try: o = json.loads(r.stdout.strip().splitlines()[-1])
    except Exception: return 'crash %d' % r.returncode, [], r.stderr[-500:]
    return o['outcome'], o['notes'], r.stderr.strip()[-500:]
procs, plock, stop = set(), threading.Lock(), threading.Event()
def run_job(j, tier, deadline):
    h, params = j['h'], j['p']
    secs = min(j.get('secs', 240 if tier == 'quick' else 1500), deadline - time.time())
    if stop.is_set() or secs < 1: return dict(j, res={'status': 'skipped', 'error': 'no time left'})
    cmd = [os.path.join(B, 'symex'), os.path.join(B, 'harness.ll'), h, '--params', ','.join(map(str, params)), '--secs', '%.0f' % secs, '--qtimeout', str(j.get('qtimeout', 100000)), '--samples', str(j.get('samples', 3))] + list(j.get('opts', []))
    with plock:
        if stop.is_set(): return dict(j, res={'status': 'skipped', 'error': 'stopped'})
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits); procs.add(p)
    try: out, err = p.communicate(timeout=secs + 60)
    except subprocess.TimeoutExpired: p.kill(); out, err = p.communicate(); out = ''; err = 'killed: time bound exceeded inside one solver call'
    with plock: procs.discard(p)
    try: r = json.loads(out.strip().splitlines()[-1])
    except Exception: r = {'status': 'skipped' if stop.is_set() else 'crash', 'error': (err or '')[-600:]}
    return dict(j, res=r)
def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup': sys.exit(0 if build() else 2)
    opt = lambda n, d: a[a.index(n) + 1] if n in a else d
    pid = a[0]; tier = opt('--tier', os.environ.get('VERIF_TIER', 'quick')); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if tier == 'thorough' else 'quick'
    verbose = '-v' in a; only = opt('--only', None)
    t0 = time.time(); P = PROPS[pid]
    if not build(): print('ERROR: build failed'); sys.exit(2)
    tb = time.time() - t0
    jobs = [dict(j) for j in P['jobs'] if (tier == 'thorough' or not j.get('deep')) and (only is None or j['h'] == only)]
    deadline = t0 + (700 if tier == 'quick' else 3300)
    known = []
    kf = os.path.join(V, 'known-findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith('finding: property=%s ' % pid): known.append(l.strip()[len('finding: '):])
    done, viol, errs, notes_ok, notes_bad, incomplete, knownhit = [], [], [], 0, 0, [], []
    samples = []
    ex = cf.ThreadPoolExecutor(int(opt('--jobs', '8')))
    futs = [ex.submit(run_job, j, tier, deadline) for j in sorted(jobs, key=lambda j: (j.get('opt', False), -j.get('cost', 1)))]
    for f in cf.as_completed(futs):
        j = f.result(); r = j['res']; name = '%s(%s)' % (j['h'], ','.join(map(str, j['p'])))
        if stop.is_set(): continue
        if verbose: print('%-40s %-10s %7.2fs paths %s forks %s merges %s queries %s solver %.1fs max %.1fs reach %s%s' % (name, r['status'], r.get('secs', 0), r.get('paths'), r.get('forks'), r.get('merges'), r.get('solver', {}).get('queries'), r.get('solver', {}).get('secs', 0), r.get('solver', {}).get('max_query_secs', 0), r.get('reach'), ' ERR ' + r['error'][:300] if r.get('error') else ''), flush=True)
        done.append(j)
        cand = [(v['kind'], v['id'], v['panic_fn'], v['loc'], v['values']) for v in r.get('violations', [])]
        if not cand and r.get('stuck'): cand = [('hang', 0, '', [], r['stuck'])]
        for kind, cid, pf, loc, values in cand:
            out, notes, err = replay(j['h'], j['p'], values)
            bad = out == 'hang' or out == 'panic' or out.startswith('check') or out.startswith('crash')
            if not bad:
                if r['status'] == 'violation': errs.append('%s: solver model did not reproduce natively (%s %s -> %s) values=%s' % (name, kind, cid, out, ','.join(values)))
                continue
            key = 'property=%s harness=%s outcome=%s' % (pid, j['h'], out.replace(' ', ''))
            k = [x for x in known if x.startswith(key + ' ') and ('params=any ' in x or 'params=%s ' % ','.join(map(str, j['p'])) in x)]
            if k: knownhit.append(k[0]); continue
            viol.append({'property': pid, 'harness': j['h'], 'params': j['p'], 'values': values, 'symbolic': {'kind': kind, 'check': cid, 'panic_fn': pf, 'loc': loc[:12]}, 'native': {'outcome': out, 'stderr': err}, 'how': 'build.sh build; build/replay %s %s %s' % (j['h'], ','.join(map(str, j['p'])), ','.join(values))})
        if viol:
            stop.set()
            with plock:
                for p in procs: p.kill()
            continue
        if r['status'] in ('incomplete', 'crash', 'skipped'): incomplete.append((j, r))
        if r['status'] == 'complete':
            for rid in j.get('reach', [1]):
                if not r['reach'].get(str(rid)): errs.append('%s: reachability witness %d not reached (vacuous run)' % (name, rid))
            if not j.get('nochecks') and not r['checks']: errs.append('%s: no assertion was evaluated' % name)
        for s in r.get('samples', []):
            out, notes, err = replay(j['h'], j['p'], s['values'])
            want = 'expected panic' if s['panicked'] else 'completed'
            if out == want and [int(x) for x in s['notes']] == notes: notes_ok += 1
            else: notes_bad += 1; errs.append('%s: native execution of a sampled model disagrees with the symbolic one: %s %s / %s %s %s values=%s' % (name, want, s['notes'], out, notes, err, ','.join(s['values'])))
            if len(samples) < 12: samples.append({'harness': j['h'], 'params': j['p'], 'values': s['values'][:40], 'observed': s['notes'][:16], 'native': out})
    ex.shutdown()
    res = [j['res'] for j in done if 'secs' in j['res']]
    # A job without a verdict narrows what was explored; it is reported, and it voids the run only when too little is left:
    # every harness of the property must have completed at least one job, and at least half of the required jobs must have completed.
    req = [j for j in done if not j.get('opt') and not j.get('deep')]; gap = [(j, r) for j, r in incomplete if not j.get('opt') and not j.get('deep')]
    okh = {j['h'] for j in done if j['res']['status'] == 'complete'}
    thin = len(gap) * 2 > len(req) or any(j['h'] not in okh for j, r in gap)
    notexp = ['%s(%s): %s' % (j['h'], ','.join(map(str, j['p'])), r.get('error', '')[:300]) for j, r in gap]
    if thin: errs += ['required job gave no verdict: ' + x for x in notexp]
    fns = {}
    for r in res:
        for f in r['functions']:
            fns.setdefault('%s %s' % (f['file'], f['fn']), set()).update(f['lines'])
    cov = {}
    for k, v in fns.items():
        f = k.split(' ')[0]
        if f.startswith('src/'): cov.setdefault(f, set()).update(v)
    def ranges(v):
        o = []
        for x in sorted(v):
            if o and x == o[-1][1] + 1: o[-1][1] = x
            else: o.append([x, x])
        return ','.join('%d-%d' % (a, b) if a != b else str(a) for a, b in o)
    comp = [j for j in done if j['res']['status'] == 'complete']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {
              'states': sum(r['paths'] + r['forks'] + r['merges'] + r['infeasible'] + r['panics_expected'] for r in res), 'transitions': sum(r['instructions'] for r in res), 'traces_validated_against_impl': notes_ok, 'samples': samples,
              'meaning': 'states: symbolic states (completed paths, forks, merges, refuted paths); transitions: LLVM instructions executed symbolically; traces_validated_against_impl: solver models of completed paths whose native execution agreed on outcome and every observed value',
              'bounds': P['bounds'], 'jobs': [{'harness': j['h'], 'params': j['p'], 'what': j.get('what', ''), 'status': j['res']['status'], 'secs': j['res'].get('secs'), 'paths': j['res'].get('paths'), 'queries': j['res'].get('solver', {}).get('queries'), 'solver_secs': j['res'].get('solver', {}).get('secs'), 'assertions': j['res'].get('checks'), 'assertions_symbolic': j['res'].get('symbolic_checks'), 'symbolic_bits': j['res'].get('max_symbolic_bits'), 'reach': j['res'].get('reach'), 'error': j['res'].get('error', '')[:200]} for j in done],
              'jobs_complete': len(comp), 'jobs_without_verdict': len(incomplete), 'not_explored': notexp,
              'assertions_decided': sum(r['checks'] for r in res), 'assertions_symbolic': sum(r['symbolic_checks'] for r in res), 'paths': sum(r['paths'] for r in res),
              'solver': {'name': next((r['solver']['name'] for r in res), ''), 'queries': sum(r['solver']['queries'] for r in res), 'unsat': sum(r['solver']['unsat'] for r in res), 'sat': sum(r['solver']['sat'] for r in res), 'unknown': sum(r['solver']['unknown'] for r in res), 'answered_from_cache': sum(r['solver']['cached'] for r in res), 'secs': round(sum(r['solver']['secs'] for r in res), 3)},
              'functions_encoded': sorted('%s (%d lines)' % (k, len(v)) for k, v in fns.items() if not k.startswith('library/')),
              'source_lines_executed': {f: ranges(v) for f, v in sorted(cov.items())},
              'build_secs': round(tb, 1), 'exhaustive': False, 'engine_errors': errs},
          'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k in sorted(set(knownhit)): print('KNOWN-FINDING: ' + k)
    print('%s %s: %d/%d jobs complete, %d paths, %d assertions, %d queries, solver %.1fs, %d models replayed, wall %.1fs' % (pid, tier, len(comp), len(jobs), ev['coverage']['paths'], ev['coverage']['assertions_decided'], ev['coverage']['solver']['queries'], ev['coverage']['solver']['secs'], notes_ok, ev['wall_s']))
    if not errs:
        for x in notexp: print('NOT EXPLORED: ' + x)
    if viol:
        os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
        for n, v in enumerate(viol):
            p = os.path.join(V, 'replays', '%s-%d.json' % (pid, n))
            with open(p, 'w') as f: json.dump(v, f, indent=1)
            print('  %s(%s): %s %s -> native: %s %s' % (v['harness'], ','.join(map(str, v['params'])), v['symbolic']['kind'], v['symbolic']['check'], v['native']['outcome'], v['native']['stderr'][:200].replace('\n', ' ')))
            print('VIOLATION property=%s replay=%s' % (pid, p))
        sys.exit(1)
    if errs:
        for e in errs[:20]: print('ERROR: ' + e[:1500])
        sys.exit(2)
    print('OK property=%s' % pid); sys.exit(0)
if __name__ == '__main__': main()

#!/usr/bin/env python3
"""Deterministic-simulation checks for polympc.
   run.py <PROPERTY> [quick|thorough]        decide one property (exit 0 held / 1 violated / 2 error of the check)
   run.py --replay FILE [--verbose]          re-execute one replay file against /repo's current tree
   run.py --hashes PROPERTY SEED0 N          print the execution hash of N seeds (determinism self-test)
   run.py --build GROUP                      only build"""
import hashlib, json, os, shutil, subprocess, sys, time, threading
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CPU = os.cpu_count() or 4
sys.path.insert(0, V)
from props import PROPS, GROUPS

def sh(cmd, **k): return subprocess.run(cmd, **k)

def digest(group):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'src'), os.path.join(V, 'sim'), os.path.join(V, 'checks'), os.path.join(V, 'stubs')]
    for r in roots:
        for d, dn, fn in sorted(os.walk(r)):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    h.update(repr(GROUPS[group]).encode()); h.update(subprocess.run(['g++', '--version'], capture_output=True).stdout)
    return h.hexdigest()[:20]

def build(group):
    """compile the group's translation units against /repo/src in its current state"""
    g = GROUPS[group]; d = os.path.join(V, 'build', group + '-' + digest(group)); exe = os.path.join(d, 'sim')
    if os.path.exists(exe): return exe, 0.0
    t0 = time.time()
    base = os.path.join(V, 'build'); os.makedirs(base, exist_ok=True)
    for old in os.listdir(base):
        if old.startswith(group + '-'): shutil.rmtree(os.path.join(base, old), ignore_errors=True)
    tmp = d + '.tmp%d' % os.getpid(); os.makedirs(tmp)
    flags = ['-std=c++14', '-include', os.path.join(V, 'sim/pre.hpp'), '-I' + REPO + '/src', '-I/usr/include/eigen3', '-w', '-pthread'] + g.get('flags', [])
    jobs = []
    for src in ['sim/sim_main.cpp'] + g['src']:
        parts = src.split(':'); name = parts[0]; extra = parts[1].split(',') if len(parts) > 1 else []
        opt = '-O1'
        o = os.path.join(tmp, '%s-%d.o' % (os.path.basename(name), len(jobs)))
        jobs.append((o, ['g++', opt] + flags + extra + ['-c', os.path.join(V, name), '-o', o]))
    errs = []; sem = threading.Semaphore(max(2, CPU))
    def one(j):
        with sem:
            r = sh(j[1], capture_output=True, text=True)
            if r.returncode: errs.append(' '.join(j[1]) + '\n' + r.stderr[-4000:])
    ts = [threading.Thread(target=one, args=(j,)) for j in jobs]
    for t in ts: t.start()
    for t in ts: t.join()
    if not errs:
        r = sh(['g++', '-pthread'] + [j[0] for j in jobs] + ['-o', os.path.join(tmp, 'sim')] + g.get('ld', []), capture_output=True, text=True)
        if r.returncode: errs.append(r.stderr[-4000:])
    if errs: print('BUILD-FAILED\n' + '\n'.join(errs)); shutil.rmtree(tmp, ignore_errors=True); sys.exit(2)
    for j in jobs: os.remove(j[0])
    try: os.rename(tmp, d)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return exe, time.time() - t0

def env():
    e = dict(os.environ); e['MALLOC_PERTURB_'] = '165'; e.pop('OMP_NUM_THREADS', None); return e

def main():
    a = sys.argv[1:]
    if a and a[0] == '--build': print(*build(a[1])); return 0
    if a and a[0] == '--replay':
        prop = [l.split()[1] for l in open(a[1]) if l.startswith('property ')][0]; exe, _ = build(PROPS[prop]['group'])
        return sh([exe, '--replay', os.path.abspath(a[1])] + a[2:], env=env()).returncode
    if a and a[0] == '--hashes':
        p = PROPS[a[1]]; exe, _ = build(p['group']); return sh([exe, '--hashes', '--only', ','.join(p['scn']), '--seed0', a[2], '--n', a[3]], env=env()).returncode
    prop = a[0]; tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'); p = PROPS[prop]; t0 = time.time()
    vseed = int(os.environ.get('VERIF_SEED', '1')); seed0 = vseed * 1000003 + 17
    print('property=%s tier=%s VERIF_SEED=%d seed0=%d' % (prop, tier, vseed, seed0), flush=True)
    exe, bt = build(p['group'])
    n, secs = p[tier]; only = ','.join(p['scn'])
    out = os.path.join(V, 'build', 'out-%s-%d' % (prop, os.getpid())); os.makedirs(out); rp = os.path.join(V, 'replays'); os.makedirs(rp, exist_ok=True)
    W = CPU; kf = os.path.join(V, 'known_findings.txt')
    base = [exe, '--only', only, '--seed0', str(seed0)] + (['--thorough'] if tier == 'thorough' else [])
    # determinism: the same seeds in two processes must give the same execution hashes
    nd = 16 if tier == 'quick' else 400
    hs = [subprocess.Popen(base + ['--hashes', '--n', str(nd)], stdout=subprocess.PIPE, env=env()) for _ in range(2)]
    hx = [h.communicate()[0] for h in hs]
    ts = time.time()
    pr = [subprocess.Popen(base + ['--search', '--n', str(n), '--secs', str(secs), '--worker', str(w), '--workers', str(W), '--out', os.path.join(out, 'p%d' % w), '--replaydir', rp, '--prop', prop, '--known', kf], env=env()) for w in range(W)]
    rc = [q.wait() for q in pr]; wall = time.time() - ts
    cnt = {}; sig = set(); runs = 0; cap = 0; known = {}; viol = []; lost = 0
    for w in range(W):
        f = os.path.join(out, 'p%d' % w)
        if not os.path.exists(f): lost += 1; continue
        for l in open(f):
            k, _, r = l.rstrip('\n').partition(' ')
            if k == 'C': v, _, nm = r.partition(' '); cnt[nm] = cnt.get(nm, 0) + float(v)
            elif k == 'S': sig.add(r)
            elif k == 'R': runs += int(r)
            elif k == 'K': cap |= int(r)
            elif k == 'N': c, sd, key = r.split(' ', 2); known.setdefault(key, [0, sd]); known[key][0] += int(c)
            elif k == 'V': sd, path = r.split(' ', 1); viol.append({'seed': int(sd), 'path': path})
            elif k == 'VC': viol[-1]['cls'] = r
            elif k == 'VM': viol[-1]['msg'] = r
            elif k == 'VT': viol[-1]['tries'] = int(r)
    shutil.rmtree(out, ignore_errors=True)
    # every reported violation has to happen again in a fresh process
    good = []
    for v in sorted(viol, key=lambda v: v['seed']):
        r = sh([exe, '--replay', v['path']], capture_output=True, text=True, env=env())
        if r.returncode == 1: good.append(v)
        else: print('not reproduced in a fresh process: %s\n%s' % (v, r.stdout))
    for l in open(kf) if os.path.exists(kf) else []:
        if l.startswith('known:') and ('property=%s ' % prop) in l: print('KNOWN-FINDING: property=%s %s' % (prop, l.split(' | ', 1)[1].strip()))
    det = hx[0] == hx[1]
    # samples written out in full: the plan of the first seeds
    smp = []
    for i in range(2):
        r = sh(base + ['--plan', str(seed0 + i)], capture_output=True, text=True, env=env()); smp.append(r.stdout.strip().split('\n'))
    fa = {k[6:]: int(v) for k, v in cnt.items() if k.startswith('fault.')}; pb = {k[6:]: v for k, v in cnt.items() if k.startswith('probe.')}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': vseed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 2), 'violations': len(good),
          'coverage': {'evaluations': int(cnt.get('evaluations', 0)), 'distinct_nontrivial': len(sig), 'rule': p['rule'] + ' Distinctness: hash of configuration, operation kinds, faults fired and outcomes of a run; a run counts when it reached the property\'s condition (see probes).',
                       'samples': smp, 'runs': runs, 'seeds': [seed0, seed0 + n - 1], 'runs_per_hour': int(runs / max(wall, 1e-9) * 3600), 'wall_cap_reached': bool(cap),
                       'simulated_time': {'amount': cnt.get('sim_time', 0), 'unit': p['unit']}, 'faults_fired': fa, 'probes': pb,
                       'assertions_of_the_repository_observed': {k[7:]: int(v) for k, v in cnt.items() if k.startswith('assert.')},
                       'real_components': p['real'], 'stubbed_components': p['stub'], 'determinism': {'seeds_run_twice_in_separate_processes': nd, 'identical': det, 'worker_processes': W},
                       'search_wall_s': round(wall, 2), 'build_s': round(bt, 2), 'known_finding_hits': {k: v[0] for k, v in known.items()}, 'unreproduced': int(cnt.get('unreproduced_failures', 0))},
          'assumptions': p.get('assume', [])}
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    print('runs=%d evaluations=%d distinct=%d wall=%.1fs build=%.1fs faults=%s' % (runs, ev['coverage']['evaluations'], len(sig), wall, bt, fa))
    if good:
        for v in good[:1]:
            print('violation class=%s seed=%d (minimised with %d executions)\n  %s' % (v['cls'], v['seed'], v.get('tries', 0), v['msg']))
            print('VIOLATION property=%s replay=%s' % (prop, v['path']), flush=True)
        return 1
    if viol or lost or any(r not in (0, 1) for r in rc): print('ERROR: unconfirmed violation or lost worker'); return 2
    if not det:
        if p.get('nondeterminism_is_violation'):
            path = os.path.join(rp, '%s-nondeterminism.replay' % prop); A = hx[0].decode().split('\n'); B = hx[1].decode().split('\n')
            open(path, 'w').write('\n'.join('%s | %s' % q for q in zip(A, B) if q[0] != q[1]))
            print('VIOLATION property=%s replay=%s' % (prop, path)); return 1
        print('ERROR: executions are not deterministic'); return 2
    if cnt.get('unreproduced_failures'): print('ERROR: a failure did not reproduce'); return 2
    miss = [k for k in p.get('must', []) if not any(q.split('.', 1)[-1] == k and v > 0 for q, v in cnt.items())]
    if miss: print('note: probes at zero: %s' % miss)
    return 0
if __name__ == '__main__': sys.exit(main())

#!/usr/bin/env python3
"""check.py <ID> [extra harness args]: builds /repo's current sources and the harness of one
property, runs it, writes evidence/<ID>.json.  Exit 0: held on everything explored.
Exit 1 + VIOLATION line: broken.  Exit 2: the check itself could not run."""
import fcntl, json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
B = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))

def build(targets):
    os.makedirs(B, exist_ok=True)
    with open(B + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        subprocess.run([sys.executable, V + '/tools/gen_build.py'], check=True)
        r = subprocess.run(['ninja', '-C', B] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        errs = [l for l in r.stdout.splitlines() if "error:" in l or "undefined reference" in l]; print("\n".join(errs[:8]) if errs else r.stdout[-2500:])
        print('BUILD FAILED')
        return False
    return True

def findings(pid):
    out = []
    for l in open(V + '/known_findings.txt'):
        m = re.match(r'known:\s+property=(\S+)\s+key=(\S+)\s+(.*)', l)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3).strip()))
    return out

def main():
    pid = sys.argv[1]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv[2:]:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if not build([pid]):
        return 2
    known = findings(pid)
    out = f'{B}/out-{pid}.json'
    if os.path.exists(out):
        os.unlink(out)
    os.makedirs(V + '/replays', exist_ok=True)
    m = re.search(r'^// workers: (\d+)', open(f'{V}/harness/{pid}.cpp').read(), re.M)
    workers = m.group(1) if m else '8'
    budget = '240' if tier == 'quick' else '640'
    cmd = [f'{B}/bin/{pid}', '--seed', str(seed), '--out', out, '--replaydir', V + '/replays', '--budget', budget, '--workers', workers]
    if tier == 'thorough':
        cmd.append('--thorough')
    for k, _ in known:
        cmd += ['--known', k]
    cmd += [a for a in sys.argv[2:] if a != '--thorough']
    env = dict(os.environ)
    env['VERIF_BUILD_DIR'] = B
    env['VERIF_REPO_DIR'] = os.environ.get('VERIF_REPO', '/repo')
    env['GLOG_minloglevel'] = env.get('GLOG_minloglevel', '3')
    r = subprocess.run(cmd, env=env)
    if '--replay' in sys.argv[2:]:
        return r.returncode
    if not os.path.exists(out):
        print('harness produced no result, exit', r.returncode)
        return 2
    j = json.load(open(out))
    subs = j['subs']
    samples = []
    for s in subs:
        for x in s['samples'][:2]:
            samples.append({'check': s['name'], 'case': x[:1500]})
    cov = dict(evaluations=j['evaluations'], distinct_nontrivial=j['distinct_nontrivial'],
               rule='Cases are generated per sub-check from (VERIF_SEED, sub-check, index); distinct = different choice sequence. '
                    'Non-trivial by sub-check: ' + '; '.join(f"{s['name']}: {s['rule']}" for s in subs),
               samples=samples,
               sub_checks=[{k: s[k] for k in ('name', 'planned', 'evaluations', 'nontrivial', 'distinct_nontrivial', 'discarded', 'labels')} for s in subs],
               time_capped=j['capped'], unconfirmed_failures=j['unconfirmed'], unconfirmed=j['unconfirmed_msgs'], known_finding_hits=j['known'])
    lvl = 'exploration'
    try:
        for c in json.load(open(V + '/MANIFEST.json'))['checks']:
            if c['property'] == pid:
                lvl = c['level']
    except Exception:
        pass
    ev = dict(property=pid, tier=tier, seed=seed, level=lvl, coverage=cov,
              assumptions=['folly is replaced by the stand-in headers in /verif/shim', 'built with clang++ -O1 (AddressSanitizer unless the harness says otherwise)'],
              wall_s=round(time.time() - t0, 2), violations=1 if j['violation'] else 0)
    os.makedirs(V + '/evidence', exist_ok=True)
    with open(f'{V}/evidence/{pid}.json', 'w') as f:
        json.dump(ev, f, indent=1)
    for k, what in known:
        print(f'KNOWN-FINDING: property={pid} {what} [{k}: {j["known"].get(k, 0)} cases]')
    print(f"{pid} {tier} seed={seed}: {j['evaluations']} cases, {j['distinct_nontrivial']} distinct non-trivial, "
          f"{j['unconfirmed']} unconfirmed, capped={j['capped']}, {time.time() - t0:.1f}s")
    if j['violation']:
        if r.returncode != 1:
            return 2
        return 1
    return 0 if r.returncode == 0 else 2

if __name__ == '__main__':
    sys.exit(main())

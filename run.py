#!/usr/bin/env python3
"""Driver: builds the harnesses from /repo's working tree, runs the explorations of one property, writes evidence.

  run.py setup                 build everything
  run.py check C04 quick       one check
  run.py replay FILE           run a replay file
"""
import fcntl, hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
B = V + '/build'
BASE = '-std=c++17 -g -no-pie -ftrivial-auto-var-init=zero -DASIO_STANDALONE -DASIO_HAS_STD_CHRONO'.split()
INC = ['-I' + REPO + '/include', '-I' + REPO + '/asio/asio/include']
SUTDEF = ['-O2', '-include', V + '/rt/rt_rand.hpp']
TSAN = ['-O1', '-fsanitize=thread', '-include', V + '/rt/rt_rand.hpp']
KNOWN_SRC = '''asio_service.cxx buffer.cxx cluster_config.cxx fs_log_store.cxx peer.cxx raft_server.cxx raft_server_req_handlers.cxx
raft_server_resp_handlers.cxx snapshot.cxx snapshot_sync_req.cxx srv_config.cxx'''.split()
sys.path.insert(0, V)
from plan import TARGETS, PLAN, ASSUME  # noqa


def files(d, exts):
    r = []
    for root, _, fs in os.walk(d):
        r += [os.path.join(root, f) for f in fs if f.endswith(exts)]
    return sorted(r)


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def build(target):
    """returns the path of the executable"""
    t = TARGETS[target]
    hdr_sut = digest(files(REPO + '/include', ('.hxx', '.h', '.hpp')) + files(REPO + '/src', ('.hxx', '.h', '.hpp', '.inc')) + [V + '/rt/rt_rand.hpp'])
    hdr_ver = digest(files(V + '/rt', ('.hpp',)) + files(V + '/' + t['dir'], ('.hpp', '.inc')))
    jobs = []
    fl_s = BASE + (TSAN if t.get('tsan') else SUTDEF) + INC + t.get('sutflags', [])
    fl_h = BASE + ['-O2'] + INC + t.get('flags', [])
    src = t.get('sut')
    sut = files(REPO + '/src', ('.cxx', '.cpp', '.cc'))
    if src is not None:  # the listed ones, and any that is new
        sut = [f for f in sut if os.path.basename(f) in src or os.path.basename(f) not in KNOWN_SRC]
    skip = t.get('skip', [])
    for f in sut:
        if os.path.basename(f) in skip:
            continue
        jobs.append((f, fl_s, hdr_sut))
    for f in t['harness']:
        p = V + '/' + f
        fl = fl_h
        if f in t.get('as_sut', []):
            fl = fl_s
        jobs.append((p, fl, hdr_sut + hdr_ver))
    os.makedirs(B + '/obj', exist_ok=True)

    def one(j):
        f, fl, hk = j
        key = digest([f], ' '.join(fl) + hk)
        o = '%s/obj/%s.o' % (B, key)
        if not os.path.exists(o):
            tmp = '%s.%d.tmp' % (o, os.getpid())
            c = ['g++'] + fl + ['-c', f, '-o', tmp]
            r = subprocess.run(c, capture_output=True, text=True)
            if r.returncode != 0:
                return f, None, r.stderr
            os.rename(tmp, o)
        return f, o, ''
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    bad = [r for r in res if r[1] is None]
    if bad:
        for f, _, e in bad:
            sys.stderr.write('cannot compile %s\n%s\n' % (f, e[-4000:]))
        sys.exit(2)
    objs = [r[1] for r in res]
    exe = '%s/%s-%s' % (B, target, hashlib.sha256(' '.join(objs).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        tmp = '%s.%d.tmp' % (exe, os.getpid())
        c = ['g++', '-no-pie', '-o', tmp] + objs + t.get('link', []) + ['-ldl', '-lpthread']
        r = subprocess.run(c, capture_output=True, text=True)
        if r.returncode != 0:
            sys.stderr.write('cannot link %s\n%s\n' % (target, r.stderr[-4000:]))
            sys.exit(2)
        os.rename(tmp, exe)
    return exe


def run_job(exe, prop, tier, job, rdir, secs):
    env = dict(os.environ)
    for k in ('VERIF_FOLLOW', 'VERIF_LOG', 'VERIF_WORKERS'):
        env.pop(k, None)
    if secs:
        env['VERIF_SECS'] = str(secs)
    c = [exe, 'run', str(int(prop[1:])), tier, rdir] + job.split()
    r = subprocess.run(c, capture_output=True, text=True, env=env)
    out = None
    for l in r.stdout.splitlines():
        if l.startswith('RESULT '):
            out = json.loads(l[7:])
    if out is None:
        sys.stderr.write('job %s of %s gave no result (status %s)\n%s\n%s\n' % (job, prop, r.returncode, r.stdout[-2000:], r.stderr[-2000:]))
    return out


def known(prop):
    """reproduce the listed findings of this property; [(id, text, reproduced)]"""
    res = []
    path = V + '/known-findings.txt'
    for l in open(path):
        l = l.strip()
        if not l.startswith('known: property=' + prop + ' '):
            continue
        _, _, kid, target, rep, text = l.split(None, 5)
        exe = build(target)
        env = dict(os.environ, VERIF_FOLLOW='1')
        r = subprocess.run([exe, 'replay', V + '/' + rep], capture_output=True, text=True, env=env, timeout=120)
        res.append((kid, text, r.returncode == 1))
    return res


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(V + '/evidence', exist_ok=True)
    rdir = V + '/replays'
    os.makedirs(rdir, exist_ok=True)
    plan = PLAN[prop]
    jobs = list(plan['quick'])
    if tier == 'thorough':
        jobs += [j for j in plan.get('more', []) if j not in jobs]
    tot = dict(states=0, transitions=0, executions=0, probes=0, replayed=0)
    scen, samples, cov, fails, errors = [], [], {}, [], []
    exh = True
    for kid, text, ok in known(prop):
        if ok:
            print('KNOWN-FINDING: property=%s %s %s' % (prop, kid, text), flush=True)
    for target, job in jobs:
        exe = build(target)
        limit = plan.get('secs', {}).get(tier)
        out = run_job(exe, prop, tier, job, rdir, limit)
        if out is None:
            out = run_job(exe, prop, tier, job, rdir, limit)
        if out is None:
            errors.append(job)
            continue
        for k in tot:
            tot[k] += out.get(k, 0)
        exh = exh and out['exhaustive']
        for k, v in out.get('cov', {}).items():
            cov[k] = cov.get(k, 0) + v
        scen.append({k: out.get(k) for k in ('scenario', 'bounds', 'states', 'transitions', 'executions', 'probes', 'deepest', 'exhaustive', 'wall')})
        for s in out.get('samples', [])[:2]:
            if len(samples) < 12:
                samples.append({'scenario': out['scenario'], 'execution': s[:1500]})
        if out.get('viol'):
            if not out.get('confirmed'):
                # not believed unless the recorded history fails again
                errors.append(job + ' (violation not confirmed: ' + out['viol'] + ')')
                continue
            fails.append((out, job))
            break
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': plan.get('level', 'model_checking'),
        'coverage': {
            'states': tot['states'], 'transitions': tot['transitions'],
            'traces_validated_against_impl': tot['executions'],
            'traces_replayed_from_root': tot['replayed'],
            'fault_free_continuations': tot['probes'],
            'exhaustive': bool(exh and not fails and not errors),
            'samples': samples, 'scenarios': scen,
            'reached': {k: v for k, v in cov.items() if v},
            'explanation': plan.get('note', 'Explored directly on the compiled implementation: every execution counted here ran the real code; there is no separate model.'),
        },
        'assumptions': ASSUME.get('all', []) + ASSUME.get(prop, []) + ASSUME.get(plan.get('group', ''), []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(fails),
    }
    with open('%s/evidence/%s.json' % (V, prop), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if fails:
        out, job = fails[0]
        print('%s: %s' % (job, out['viol']))
        print('history: ' + out.get('steps', ''))
        print('VIOLATION property=%s replay=%s' % (prop, out['replay']))
        return 1
    if errors:
        print('%s: no answer from %s' % (prop, '; '.join(errors)))
        return 2
    print('%s %s: held on %d states, %d transitions, %d executions (%s), %.0f s' % (
        prop, tier, tot['states'], tot['transitions'], tot['executions'], 'exhaustive within the bounds' if exh else 'time limit reached in some scenarios', time.time() - t0))
    return 0


def main():
    os.makedirs(B, exist_ok=True)
    lock = open(B + '/.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    a = sys.argv[1:]
    if a and a[0] == 'setup':
        for t in TARGETS:
            build(t)
        return 0
    if len(a) >= 2 and a[0] == 'check':
        return check(a[1], a[2] if len(a) > 2 else 'quick')
    if len(a) == 2 and a[0] == 'replay':
        for l in open(a[1]):
            if l.startswith('#'):
                continue
            exe = build(l.split()[0])
            return subprocess.run([exe, 'replay', a[1]]).returncode
    if len(a) == 2 and a[0] == 'build':
        print(build(a[1]))
        return 0
    print(__doc__)
    return 2


sys.exit(main())

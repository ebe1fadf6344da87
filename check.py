#!/opt/veriftools/pyvenv/bin/python3
"""check.py <PROPERTY> [--tier quick|thorough] [--only TASK] [-v]   decide one property on /repo's current tree
check.py --replay FILE                                              re-run a recorded counterexample"""
import argparse
import ctypes
import glob
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from lvc import build, spec  # noqa: E402

LEVEL = {}


def load(prop):
    mods = {}
    for f in sorted(glob.glob(HERE + '/contracts/[a-z]*.py')):
        n = os.path.basename(f)[:-3]
        txt = open(f).read()
        if "'%s'" % prop in txt:
            mods[n] = importlib.import_module('contracts.' + n)
    return spec.TASKS.get(prop, [])


REPOS = {}


def repo_for(task):
    k = (bool(task.opts.get('m32')), tuple(task.opts.get('flags', ())))
    if k not in REPOS:
        REPOS[k] = build.Repo(m32=k[0], extra=k[1])
    return REPOS[k]


def worker(task, mode, budget, q, verbose):
    try:
        r = spec.run_task(REPOS_KEY(task), task, mode, time.time() + budget, verbose)
    except Exception as e:
        import traceback
        r = dict(task=task.name, prop=task.prop, mode=mode, funcs=task.funcs, error='engine: %r' % e, obligations=0,
                 discharged=0, failed=[], unknown=[], incomplete=[], cex=[], reached=0, stats={}, inlined=[], replaced=[],
                 trusted=[], wall=0, missing=[], tb=traceback.format_exc())
    q.put((task.name, json.loads(json.dumps(r, default=str))))


def REPOS_KEY(task):
    return repo_for(task)


def run_many(jobs, verbose, ncpu):
    """jobs: [(task, mode, budget)] -> {name: result}; one process each, memory-limited"""
    import resource
    q = mp.Queue()
    pend = list(jobs)
    run = {}
    res = {}

    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    while pend or run:
        while pend and len(run) < ncpu:
            t, m, b = pend.pop(0)

            def tgt(t=t, m=m, b=b):
                lim()
                worker(t, m, b, q, verbose)
            p = mp.Process(target=tgt)
            p.start()
            run[t.name] = (p, time.time(), t, m, b)
        try:
            n, r = q.get(timeout=0.2)
            res[n] = r
            p = run.pop(n)[0]
            p.join(5)
            if p.is_alive():
                p.kill()
            continue
        except Exception:
            pass
        for n, (p, t0, t, m, b) in list(run.items()):
            if not p.is_alive() or time.time() - t0 > b + 60:
                try:
                    nn, r = q.get(timeout=0.5)
                    res[nn] = r
                    run.pop(nn)
                    continue
                except Exception:
                    pass
                if p.is_alive():
                    p.kill()
                res[n] = dict(task=n, prop=t.prop, mode=m, funcs=t.funcs, error='engine: process died or timed out',
                              obligations=0, discharged=0, failed=[], unknown=[], incomplete=[], cex=[], reached=0,
                              stats={}, inlined=[], replaced=[], trusted=[], wall=time.time() - t0, missing=[])
                run.pop(n)
    return res


def status(r):
    """proved | failed | undecided"""
    if any(o['kind'] not in ('invariant', 'frame', 'termination') for o in r['failed']):
        return 'failed'
    if r['failed'] or r['error'] or r['unknown'] or r['incomplete'] or r['reached'] == 0 or r['obligations'] == 0:
        return 'undecided'
    return 'proved'


def bstatus(r):
    if r['failed']:
        return 'failed'
    if r['error'] or r['unknown'] or r['reached'] == 0:
        return 'undecided'
    return 'bounded-ok'


def asan_rt():
    p = subprocess.run(['clang', '-print-file-name=libclang_rt.asan-x86_64.so'], capture_output=True, text=True)
    return p.stdout.strip()


def replay(task, data, path, verbose=False):
    """run the counterexample natively in a child. -> (confirmed, text)"""
    if task.opts.get('noreplay') or task.opts.get('m32'):
        return False, 'this task has no native replay'
    json.dump(dict(property=task.prop, task=task.name, flags=task.opts.get('flags', []), data=data), open(path, 'w'))
    repo = repo_for(task)
    try:
        so = repo.so(sorted(set(task.funcs + task.opts.get('export', []))))
    except build.BuildError as e:
        return False, 'replay build failed: %s' % e
    env = dict(os.environ, LD_PRELOAD=asan_rt(), ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_segv=1:detect_odr_violation=0')
    try:
        p = subprocess.run([sys.executable, os.path.abspath(__file__), '--replay-child', path, so], capture_output=True,
                           text=True, timeout=120, env=env, cwd=repo.dir)
    except subprocess.TimeoutExpired:
        return False, 'replay timed out'
    txt = p.stdout[-3000:] + '\n' + p.stderr[-3000:]
    if verbose:
        print(txt)
    if p.returncode == 0:
        return False, 'replay: no violation natively\n' + txt
    if p.returncode == 7:
        return False, 'replay: inputs not reproducible natively\n' + txt
    if 'REPLAY-CALL' not in p.stdout and p.returncode != 3:
        return False, 'replay: child failed before the call\n' + txt
    return True, txt


def replay_child(path, so):
    d = json.load(open(path))
    tasks = load(d['property'])
    t = [x for x in tasks if x.name == d['task']][0]
    repo = repo_for(t)
    lib = ctypes.CDLL(so)
    try:
        f, n = spec.replay_task(repo, t, lib, d['data'])
    except (spec.Mismatch, spec.Undecided) as e:
        print('MISMATCH', e)
        repo.cleanup()
        os._exit(7)
    repo.cleanup()
    sys.stdout.flush()
    os._exit(3 if f else 0)


def known_findings():
    """recorded genuine defects: [{property, task, obligation, what}]; `fixed` entries suppress nothing"""
    return json.load(open(HERE + '/known-findings.json'))['findings']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--mode')
    ap.add_argument('--replay')
    ap.add_argument('--replay-child', nargs=2)
    a = ap.parse_args()
    if a.replay_child:
        return replay_child(*a.replay_child)
    if a.replay:
        d = json.load(open(a.replay))
        t = [x for x in load(d['property']) if x.name == d['task']][0]
        ok, txt = replay(t, d['data'], '/tmp/vf_replay_%d.json' % os.getpid(), False)
        os.unlink('/tmp/vf_replay_%d.json' % os.getpid())
        print(txt)
        print('CONFIRMED' if ok else 'NOT CONFIRMED')
        for r in REPOS.values():
            r.cleanup()
        return 1 if ok else 0
    try:
        return decide(a)
    finally:
        for r in REPOS.values():
            r.cleanup()


def decide(a):
    t0 = time.time()
    prop = a.prop
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(HERE + '/evidence/replay', exist_ok=True)
    tasks = load(prop)
    if a.only:
        tasks = [t for t in tasks if a.only in t.name]
    if a.tier == 'quick':
        tasks = [t for t in tasks if not t.opts.get('thorough')]
    if not tasks:
        print('no tasks for', prop)
        return 2
    notes = []
    for t in list(tasks):
        try:
            repo_for(t)
        except (build.BuildError, spec.IRError) as e:
            # the tree does not compile, or its IR is outside the accepted subset: nothing can be decided
            print('extraction failed: %s' % str(e)[:2000])
            notes.append('extraction failed: %s' % str(e)[:500])
            tasks.remove(t)
    ncpu = min(8, os.cpu_count() or 8)
    total = 700 if a.tier == 'quick' else 3000
    budget = 330 if a.tier == 'quick' else 1500
    mode0 = a.mode or 'proof'
    jobs = [(t, t.opts.get('mode', mode0), t.opts.get('budget', budget)) for t in sorted(tasks, key=lambda t: -t.opts.get('cost', 1))]
    res = run_many(jobs, a.v, ncpu)
    byname = {t.name: t for t in tasks}
    viol = []
    outcome = {}
    redo = []
    for t in tasks:
        r = res[t.name]
        s = status(r) if r['mode'] != 'bounded' else bstatus(r)
        if a.v or s not in ('proved', 'bounded-ok'):
            print('[%s] %s %s obligations=%d discharged=%d paths-reached=%d wall=%.1fs queries=%s solver=%.1fs %s' % (
                t.name, r['mode'], s, r['obligations'], r['discharged'], r['reached'], r['wall'], r['stats'].get('queries'),
                r['stats'].get('solver_s', 0), r['error'] or ''))
            for o in r['failed'][:6] + r['unknown'][:6]:
                print('    not discharged: %s (%s) at %s' % (o['name'], o['kind'], o['loc']))
            for x in r['incomplete'][:4]:
                print('    incomplete:', x)
        outcome[t.name] = s
        if s == 'failed':
            v = dict(task=t.name, obligations=r['failed'], confirmed=False, text='')
            for i, c in enumerate(r['cex']):
                path = '%s/evidence/replay/%s_%s_%d.json' % (HERE, prop, t.name, i)
                ok, txt = replay(t, c, path, a.v)
                v['text'] += '\n--- ' + c.get('obligation', '') + '\n' + txt
                if ok:
                    v['confirmed'] = True
                    v['path'] = path
                    break
            viol.append(v)
            if not v['confirmed'] and r['mode'] != 'bounded' and not t.opts.get('nobounded'):
                redo.append(t)
        elif s == 'undecided' and r['mode'] != 'bounded' and not t.opts.get('nobounded'):
            redo.append(t)
    bres = {}
    if redo and not any(v['confirmed'] for v in viol):
        left = max(60, total - (time.time() - t0))
        rounds = (len(redo) + ncpu - 1) // ncpu
        bres = run_many([(t, 'bounded', min(200, left / rounds)) for t in redo], a.v, ncpu)
        for t in redo:
            r = bres[t.name]
            s = bstatus(r)
            print('[%s] bounded fallback: %s obligations=%d reached=%d wall=%.1fs %s' % (
                t.name, s, r['obligations'], r['reached'], r['wall'], r['error'] or ''))
            if s == 'failed':
                for o in r['failed'][:6]:
                    print('    not discharged: %s (%s) at %s' % (o['name'], o['kind'], o['loc']))
                v = [x for x in viol if x['task'] == t.name]
                v = v[0] if v else dict(task=t.name, obligations=r['failed'], confirmed=False, text='', new=True)
                for i, c in enumerate(r['cex']):
                    path = '%s/evidence/replay/%s_%s_b%d.json' % (HERE, prop, t.name, i)
                    ok, txt = replay(t, c, path, a.v)
                    v['text'] += '\n--- bounded: ' + c.get('obligation', '') + '\n' + txt
                    if ok:
                        v['confirmed'] = True
                        v['path'] = path
                        break
                if v.get('new'):
                    viol.append(v)
            outcome[t.name] = outcome[t.name] + '/' + s
    # ------------------------------------------------------------ report
    code = 0 if tasks else 2
    for k in known_findings():
        if k['property'] == prop and any(t.name == k['task'] for t in tasks):
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            for v in list(viol):
                if v['task'] == k['task']:
                    v['obligations'] = [o for o in v['obligations'] if o['name'] != k['obligation']]
                    if not v['obligations']:
                        viol.remove(v)
    for v in viol:
        if v['confirmed']:
            open(v['path'] + '.txt', 'w').write(v['text'])
            print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(v['path'], HERE)))
        else:
            path = '%s/evidence/replay/%s_%s_obligation.txt' % (HERE, prop, v['task'])
            open(path, 'w').write('task %s\nfailed obligations:\n%s\n%s\n' % (
                v['task'], json.dumps(v['obligations'], indent=1), v['text']))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, os.path.relpath(path, HERE)))
        for o in v['obligations'][:4]:
            print('    failed obligation: %s (%s) at %s' % (o['name'], o['kind'], o['loc']))
        code = 1
    evidence(prop, a, tasks, res, bres, outcome, notes, time.time() - t0, len(viol), seed)
    pr = sum(1 for s in outcome.values() if s == 'proved')
    print('%s: %d/%d tasks proved, %d obligations, %d discharged, %.1fs' % (
        prop, pr, len(tasks), sum(r['obligations'] for r in res.values()), sum(r['discharged'] for r in res.values()),
        time.time() - t0))
    return code


def evidence(prop, a, tasks, res, bres, outcome, notes, wall, nviol, seed):
    bounded_tasks = [t.name for t in tasks if t.opts.get('mode') == 'bounded' or outcome[t.name] != 'proved']
    proved = [t.name for t in tasks if outcome[t.name] == 'proved']
    tb = set()
    inl = set()
    rep = set()
    ass = set()
    for t in tasks:
        for r in (res[t.name], bres.get(t.name)):
            if r:
                tb.update(r['trusted'])
                inl.update(r['inlined'])
                rep.update(r['replaced'])
        for x in t.opts.get('assumes', []):
            ass.add('%s: %s' % (t.name, x))
    from lvc.trusted import TRUSTED, ASSUME
    z = sum(r['stats'].get('z3', 0) for r in res.values())
    c = sum(r['stats'].get('cvc5', 0) for r in res.values())
    level = 'proof'
    man = json.load(open(HERE + '/MANIFEST.json')) if os.path.exists(HERE + '/MANIFEST.json') else {'checks': []}
    for ch in man['checks']:
        if ch['property'] == prop:
            level = ch['level']
    # bounded stand-ins are reported apart and never counted as proved
    pm = [r for r in res.values() if r['mode'] != 'bounded']
    bm = [r for r in res.values() if r['mode'] == 'bounded']
    ob = sum(r['obligations'] for r in pm)
    di = sum(r['discharged'] for r in pm)
    cov = dict(
        bounded_obligations=sum(r['obligations'] for r in bm), bounded_discharged=sum(r['discharged'] for r in bm),
        obligations=ob, discharged=di,
        checker_cmd='python3-vt check.py %s --tier %s' % (prop, a.tier),
        trusted_base=sorted(TRUSTED) + ['libc contract: ' + x for x in sorted(tb)],
        functions_under_contract=sorted({f for t in tasks for f in t.funcs}),
        functions_inlined=sorted(inl), callees_replaced_by_contract=sorted(rep),
        backend=dict(z3_unsat=z, cvc5_unsat=c, solver_seconds=round(sum(r['stats'].get('solver_s', 0) for r in res.values()), 2),
                     queries=sum(r['stats'].get('queries', 0) for r in res.values())),
        tasks_proved=proved, tasks_bounded_or_undecided={n: outcome[n] for n in bounded_tasks},
        per_task={t.name: dict(outcome=outcome[t.name], obligations=res[t.name]['obligations'],
                               discharged=res[t.name]['discharged'], ensures_reached=res[t.name]['reached'],
                               wall_s=round(res[t.name]['wall'], 2), bound=t.opts.get('bound', None)) for t in tasks},
        notes=notes)
    if level != 'proof':
        cov['explanation'] = 'contract obligations discharged for every input within the stated bounds; see per_task.bound'
        cov['evaluations'] = ob
        cov['distinct_nontrivial'] = di
        cov['rule'] = 'one obligation per program point, path and contract clause'
        cov['samples'] = [dict(task=t.name, funcs=t.funcs) for t in tasks[:3]]
    ev = dict(property=prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level=level,
              coverage=cov, assumptions=sorted(ASSUME) + sorted(ass), wall_s=round(wall, 2), violations=nviol)
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())

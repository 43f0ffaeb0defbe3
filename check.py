"""Decide one property: discharge its contracts on /repo's current source, replay failures on the
real code, run the bounded stand-in, write the evidence file.  usage: check.py <ID>"""
import ast
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
ROOT = '/repo'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
PY = 'python3-vt'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           PYTHONPATH='%s:/opt/venv/lib/python3.12/site-packages' % ROOT)


def contracts():
    """registered contracts, by reading the decorators (nothing of /repo is imported here)"""
    out = []
    for f in sorted(os.listdir(os.path.join(V, 'specs'))):
        if not f.endswith('.py') or f == '__init__.py':
            continue
        tree = ast.parse(open(os.path.join(V, 'specs', f)).read())
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'contract':
                a = [ast.literal_eval(x) for x in n.args]
                kw = {k.arg: ast.literal_eval(k.value) for k in n.keywords}
                props = a[2] if isinstance(a[2], (list, tuple)) else [a[2]]
                out.append(dict(cid=a[0], target=a[1], props=props, module=f[:-3], modes=kw.get('modes', ('proof', 'bounded')),
                                timeout=kw.get('timeout', 240)))
    return out


# C04: the frame of every contract (nothing shared is changed).  Left out in the quick tier: those that run the same
# functions as another contract on other literals.
SAME = ('C08.floating', 'C08.negative', 'C08.parentheses', 'C08.keyword', 'C08.declared', 'C08.arguments', 'C08.nested', 'C07.floating',
        'C07.negative', 'C19.body', 'C19.inline', 'C02.bitfields')


def chosen(prop):
    ks = contracts()
    out = [k for k in ks if prop in k['props']]
    if prop == 'C04':
        out += [dict(k, frame=True) for k in ks if prop not in k['props'] and (TIER != 'quick' or k['cid'] not in SAME)]
    return out


def run_contract(k, mode, bound=2, values=None, timeout=None):
    timeout = timeout or k['timeout']
    job = dict(frame=k.get('frame', False), module=k['module'], contract=k['cid'], mode=mode, bound=bound, values=values, timeout=timeout, root=ROOT)
    t = time.time()
    try:
        p = subprocess.run([PY, '-W', 'ignore', os.path.join(V, 'pyvc', 'worker.py')], input=json.dumps(job), text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout + 40, env=ENV, cwd=V)
        return json.loads(p.stdout)
    except Exception as e:
        return dict(contract=k['cid'], mode=mode, obligations=[], checks=0, paths=0, queries=0, solver_s=0,
                    wall_s=round(time.time() - t, 1), error='engine limit: worker: %s' % str(e)[:500])


def run_bounded(prop, budget):
    f = os.path.join(V, 'bounded', prop.lower() + '.py')
    if not os.path.exists(f):
        return None
    try:
        p = subprocess.run([PY, '-W', 'ignore', os.path.join(V, 'bounded', 'run.py'), prop, str(SEED), str(budget), TIER],
                           text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget + 240, env=ENV, cwd=V)
        return json.loads(p.stdout)
    except Exception as e:
        err = getattr(e, 'stderr', None) or ''
        try:
            err = p.stderr[-1500:]
        except NameError:
            pass
        return dict(evaluations=0, distinct_nontrivial=0, rule='', samples=[], failures=[], error='%s %s' % (str(e)[:300], err))


def known():
    out = []
    p = os.path.join(V, 'known_findings.txt')
    for line in open(p) if os.path.exists(p) else ():
        if line.startswith('known:'):
            d = dict(x.split('=', 1) for x in line.split()[1:3])
            out.append((d['property'], d['key'], line.split(None, 3)[3].strip()))
    return out


def main():
    prop = sys.argv[1]
    t0 = time.time()
    ks = chosen(prop)
    scale = 1 if TIER == 'quick' else 3
    results = {}
    with cf.ThreadPoolExecutor(7) as ex:
        bf = ex.submit(run_bounded, prop, 40 if TIER == 'quick' else 400)
        futs = {k['cid']: ex.submit(run_contract, k, 'proof' if 'proof' in k['modes'] else 'bounded', timeout=k['timeout'] * scale)
                for k in ks}
        for c, f in futs.items():
            results[c] = f.result()
        bounded = bf.result()
        # not decided for all lengths: at least its exact execution with a bound
        again = {k['cid']: ex.submit(run_contract, k, 'bounded', bound=2, timeout=min(120, k['timeout'])) for k in ks
                 if results[k['cid']]['error'] and not any(o['status'] == 'failed' for o in results[k['cid']]['obligations'])
                 and 'proof' in k['modes'] and 'bounded' in k['modes']}
        unrolled = {c: f.result() for c, f in again.items()}
    byid = {k['cid']: k for k in ks}
    proved, held, undecided, failed = [], [], [], []
    for c, r in results.items():
        bad = [o for o in r['obligations'] if o['status'] == 'failed']
        unk = [o for o in r['obligations'] if o['status'] == 'unknown']
        fewer = [o for o in unrolled[c]['obligations'] if o['status'] == 'failed'] if c in unrolled else []
        if bad or fewer:
            failed.append((c, bad or fewer))
        elif r['error'] or unk:
            undecided.append((c, r['error'] or 'solver unknown on %s' % unk[0]['name']))
        elif 'proof' in byid[c]['modes']:
            proved.append(c)
        else:
            held.append(c)
    # failed obligations: exact unrolled execution, counterexample, replay on the real code
    confirmed = []
    extra = {}

    def confirm(c, bad):
        k = byid[c]
        r = None
        if 'bounded' in k['modes']:
            r = run_contract(k, 'bounded', bound=2, timeout=min(120, k['timeout']))
            extra[c] = r
        bad2 = [o for o in r['obligations'] if o['status'] == 'failed'] if r else []
        rep = None
        if 'concrete' in k['modes']:
            for o in bad2 + bad:
                if o.get('model') is not None:
                    rr = run_contract(k, 'concrete', values=o['model'], timeout=60)
                    f = [x for x in rr['obligations'] if x['status'] == 'failed']
                    if f:
                        rep = dict(values=o['model'], failing=f[0])
                        break
        return c, bad, bad2, r, rep
    if failed:
        with cf.ThreadPoolExecutor(7) as ex:
            for c, bad, bad2, r, rep in ex.map(lambda x: confirm(*x), failed):
                clean = r is not None and not r['error'] and not bad2 and r['obligations']
                if rep is None and not bad2 and clean and all(o['havoc'] for o in bad):
                    undecided.append((c, 'obligation %s not proved over the inferred invariant; holds on the exact unrolled '
                                         'execution (bounded)' % bad[0]['name']))
                else:
                    confirmed.append((c, bad, bad2, rep))
    viol = []
    kn = known()
    bfail = list((bounded or {}).get('failures', []))
    newfail = []
    for f in bfail:
        m = [x for x in kn if x[0] == prop and x[1] == f.get('key')]
        if m:
            print('KNOWN-FINDING: property=%s %s' % (prop, m[0][2]))
        else:
            newfail.append(f)
    rdir = os.path.join(V, 'replay')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, '%s.json' % prop)
    if confirmed or newfail:
        rep = dict(property=prop, failed_obligations=[
            dict(contract=c, function=byid[c]['target'], obligation=o['name'], verifier_output=o['detail'], counterexample=o['model'])
            for c, bad, bad2, _ in confirmed for o in (bad2 or bad)])
        conc = [(c, r) for c, _, _, r in confirmed if r]
        if conc:
            rep['replayed_counterexample'] = dict(contract=conc[0][0], **conc[0][1])
            rep['replay_cmd'] = 'cd %s && %s check.py --replay-contract %s' % (V, PY, path)
        if newfail:
            rep['failing_input'] = newfail[0]
            rep['replay_cmd'] = 'cd %s && %s bounded/run.py %s --replay %s' % (V, PY, prop, path)
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1, default=str)
        for c, bad, bad2, _ in confirmed:
            print('failed obligation: %s (%s)' % ((bad2 or bad)[0]['name'], byid[c]['target']))
        if newfail:
            print('failing input: %s' % str(newfail[0].get('what'))[:600])
        tail = '' if newfail or conc else ' no-failing-input-found'
        viol.append('VIOLATION property=%s replay=%s%s' % (prop, path, tail))
    elif os.path.exists(path):
        os.unlink(path)
    for c, why in undecided:
        print('not re-proved: %s: %s' % (c, why.splitlines()[0][:300]))
    full = [r for c, r in results.items() if 'proof' in byid[c]['modes']]
    obs = sum(len(r['obligations']) for r in full)
    dis = sum(1 for r in full for o in r['obligations'] if o['status'] == 'discharged')
    if bounded and bounded.get('error'):
        print('bounded stand-in: %s' % bounded['error'][:400])
    man = json.load(open(os.path.join(V, 'MANIFEST.json')))
    level = ([c['level'] for c in man['checks'] if c['property'] == prop] or ['proof'])[0]
    meta = {}
    mp = os.path.join(V, 'specs', 'meta.json')
    if os.path.exists(mp):
        meta = json.load(open(mp))
    cov = dict(obligations=obs, discharged=dis,
               verification_conditions=sum(r['checks'] for r in full),
               checker_cmd='%s check.py %s  (contracts in specs/, verifier pyvc/, back end z3 %s)' % (PY, prop, z3v()),
               trusted_base=meta.get('trusted_base', []) + meta.get(prop, {}).get('trusted', []),
               functions_under_contract=[dict(contract=k['cid'], function=k['target'],
                                              result='proved' if k['cid'] in proved else
                                              'bounded: sequences of at most 2 elements (not counted as proved)' if k['cid'] in held else
                                              'failed' if any(k['cid'] == c[0] for c in confirmed) else 'undecided',
                                              obligations=len(results[k['cid']]['obligations']),
                                              paths=results[k['cid']]['paths'], queries=results[k['cid']]['queries'],
                                              solver_s=results[k['cid']]['solver_s'], wall_s=results[k['cid']]['wall_s'])
                                         for k in ks],
               back_end='z3 (every obligation)', solver_s=round(sum(r['solver_s'] for r in results.values()), 2),
               not_reproved=[dict(contract=c, why=w[:600]) for c, w in undecided],
               explanation=meta.get(prop, {}).get('explanation', ''))
    if bounded is not None:
        cov['bounded_stand_in'] = dict(label='bounded, never counted as proved', evaluations=bounded['evaluations'],
                                       distinct_nontrivial=bounded['distinct_nontrivial'], rule=bounded['rule'],
                                       samples=bounded['samples'][:3], error=bounded.get('error'))
        if level != 'proof':
            cov.update(evaluations=bounded['evaluations'], distinct_nontrivial=bounded['distinct_nontrivial'],
                       rule=bounded['rule'], samples=bounded['samples'][:3])
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov,
              assumptions=meta.get('assumptions', []) + meta.get(prop, {}).get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d/%d obligations discharged in %d contracts (%d proved, %d bounded, %d undecided, %d failed); bounded: %s cases; %.1f s' % (
        prop, dis, obs, len(ks), len(proved), len(held), len(undecided), len(confirmed),
        bounded['evaluations'] if bounded else 'no', time.time() - t0))
    for x in viol:
        print(x)
    return 1 if viol else 0


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except ImportError:
        return '?'


def replay_contract(path):
    rep = json.load(open(path))
    r = rep['replayed_counterexample']
    k = [x for x in chosen(rep['property']) if x['cid'] == r['contract']][0]
    rr = run_contract(k, 'concrete', values=r['values'], timeout=60)
    bad = [o for o in rr['obligations'] if o['status'] == 'failed']
    print(json.dumps(bad, indent=1))
    return 1 if bad else 0


if __name__ == '__main__':
    if sys.argv[1] == '--replay-contract':
        sys.exit(replay_contract(sys.argv[2]))
    sys.exit(main())

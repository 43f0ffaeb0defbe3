"""bounded stand-in driver: run.py PROP SEED BUDGET_S TIER  |  run.py PROP --replay FILE"""
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class Hang(Exception):
    pass


def alarm(*a):
    raise Hang('no answer after 30 s')


def run_case(mod, case):
    """None, or text of what is wrong; 'skip'"""
    from bounded.common import Skip
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(30)
    try:
        return mod.check(case)
    except Skip:
        return 'skip'
    except Hang as e:
        return 'hang: %s' % e
    except Exception as e:
        return 'exception %s: %s\n%s' % (type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)


def shrink(mod, case, what):
    """greedy: drop list items as long as the case still fails"""
    if not hasattr(mod, 'reduce'):
        return case, what
    t = time.time()
    again = True
    while again and time.time() - t < 15:
        again = False
        for c in mod.reduce(case):
            if time.time() - t > 15:
                break
            r = run_case(mod, c)
            if r and r != 'skip' and r.split(':')[0] == what.split(':')[0]:
                case, what, again = c, r, True
                break
    return case, what


def worker(prop, seed, k, n, budget, limit, q):
    mod = importlib.import_module('bounded.' + prop.lower())
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    t0 = time.time()
    out = dict(evaluations=0, distinct=set(), skipped=0, samples=[], failures=[])
    i = k
    fixed = list(getattr(mod, 'FIXED', []))
    while i < limit and time.time() - t0 < budget and len(out['failures']) < 2:
        if i < len(fixed):
            case = fixed[i]
        else:
            case = mod.gen(random.Random('%s/%s/%s' % (prop, seed, i)))
        i += n
        r = run_case(mod, case)
        if r == 'skip':
            out['skipped'] += 1
            continue
        out['evaluations'] += 1
        s = json.dumps(case, sort_keys=True, default=str)
        if mod.nontrivial(case):
            out['distinct'].add(hash(s))
        if len(out['samples']) < 2:
            out['samples'].append(case)
        if r:
            case, r = shrink(mod, case, r)
            out['failures'].append(dict(case=case, what=r, key=r.split(':')[0]))
    out['distinct'] = len(out['distinct'])
    q.put(out)
    q.close()
    q.join_thread()
    os._exit(0)


def main():
    prop = sys.argv[1]
    if sys.argv[2] == '--replay':
        rep = json.load(open(sys.argv[3]))
        mod = importlib.import_module('bounded.' + prop.lower())
        r = run_case(mod, rep['failing_input']['case'])
        print(r)
        return 1 if r and r != 'skip' else 0
    seed, budget, tier = int(sys.argv[2]), float(sys.argv[3]), sys.argv[4]
    mod = importlib.import_module('bounded.' + prop.lower())
    n = getattr(mod, 'WORKERS', 5)
    limit = getattr(mod, 'LIMIT', 2000) * (10 if tier == 'thorough' else 1)
    q = mp.Queue()
    ps = [mp.Process(target=worker, args=(prop, seed, k, n, budget, limit, q)) for k in range(n)]
    for p in ps:
        p.start()
    outs = []
    end = time.time() + budget + 120
    crashed = None
    while len(outs) < n and time.time() < end:
        try:
            outs.append(q.get(timeout=1))
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty():
                break
    for p in ps:
        if p.is_alive():
            p.kill()
        elif p.exitcode:
            crashed = 'a worker died (%s)' % p.exitcode
    ev = sum(o['evaluations'] for o in outs)
    json.dump(dict(evaluations=ev, distinct_nontrivial=sum(o['distinct'] for o in outs),
                   skipped=sum(o['skipped'] for o in outs), rule=mod.RULE, samples=[s for o in outs for s in o['samples']][:3],
                   failures=[f for o in outs for f in o['failures']], error=crashed), sys.stdout, default=str)
    return 0


if __name__ == '__main__':
    sys.exit(main())

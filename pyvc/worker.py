"""run contracts (JSON on stdin) in this process: instrumented code for proof/bounded, the real
code for concrete"""
import importlib
import json
import os
import sys


def main():
    job = json.load(sys.stdin)
    root = job.get('root', '/repo')
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.path.append('/opt/venv/lib/python3.12/site-packages')
    sys.setrecursionlimit(6000)
    import logging
    logging.disable(logging.CRITICAL)
    out = sys.stdout
    sys.stdout = sys.stderr
    try:
        if job['mode'] == 'concrete':
            sys.path.insert(0, root)
        else:
            from pyvc import front
            front.install(root)
        from pyvc import spec
        importlib.import_module('specs.' + job['module'])
        r = spec.run_contract(job['contract'], job['mode'], job.get('bound', 2), job.get('values'), job.get('timeout'),
                              job.get('frame', False))
    except BaseException as e:
        import traceback
        r = dict(contract=job['contract'], mode=job['mode'], obligations=[], checks=0, paths=0, queries=0, solver_s=0,
                 wall_s=0, error='engine limit: %s' % ''.join(traceback.format_exception(e))[-3000:])
    json.dump(r, out)
    out.flush()
    os._exit(0)


if __name__ == '__main__':
    main()

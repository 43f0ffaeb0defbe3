"""run one contract (debugging)"""
import sys, json, importlib, os
ROOT = os.environ.get('VC_ROOT', '/repo')
sys.path.insert(0, '/verif')
sys.path.insert(0, '/opt/venv/lib/python3.12/site-packages')
mode = sys.argv[3] if len(sys.argv) > 3 else 'proof'
if mode != 'concrete':
    from pyvc import front
    front.install(ROOT)
else:
    sys.path.insert(0, ROOT)
importlib.import_module('specs.' + sys.argv[1])
from pyvc import spec
for cid in sorted(spec.CONTRACTS):
    if len(sys.argv) > 2 and sys.argv[2] not in cid:
        continue
    r = spec.run_contract(cid, mode, frame=bool(os.environ.get('FRAME')))
    print(cid, 'paths', r['paths'], 'checks', r['checks'], 'restarts', r['restarts'], 'wall', r['wall_s'], 'solver', r['solver_s'], r['queries'])
    if r['error']:
        e = r['error'].splitlines(); print('  ', '\n   '.join(e[:1] + e[-8:] if not os.environ.get('FULL') else e))
    for o in r['obligations']:
        print('  ', o['status'], o['name'], o['havoc'] if o['status'] != 'discharged' else '')
        if o['status'] != 'discharged':
            print('      ', o['detail'][:3000], o['model'])

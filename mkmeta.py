"""Write specs/meta.json: what each check trusts and assumes (read by check.py for the evidence and by mkmanifest.py)."""
import json
T = 'contracts on the real functions, discharged by pyvc (verification conditions to z3) on every run; '
meta = {
    'trusted_base': [
        'z3 5.3.2 (the only back end)',
        'pyvc: the symbolic interpreter of the instrumented Python code (pyvc/core.py, values.py, loops.py, rope.py, hooks.py) '
        'and the mechanical AST instrumentation (pyvc/front.py); it drops log.* call statements and type annotations, nothing else',
        'CPython semantics of the operations the interpreter executes natively (attribute access, calls, exceptions)',
    ],
    'assumptions': [
        'Python integers are mathematical integers (exact)',
        'termination is not proved',
        'libclang cursors, types and tokens answer as the contract stubs say (pure accessors, stable answers)',
    ],
}


def prop(pid, note, explanation, trusted=(), assumptions=(), claimed=True, level='proof', technique=None, reason=None):
    meta[pid] = dict(claimed=claimed, level=level, note=note, explanation=explanation, trusted=list(trusted),
                     assumptions=list(assumptions), technique=technique or (
                         'contract-based deductive verification (pyvc + z3) of the real functions; labelled bounded end-to-end '
                         'stand-in for the glue and for failing inputs'), reason=reason)


exec(open('/verif/meta_props.py').read())
json.dump(meta, open('/verif/specs/meta.json', 'w'), indent=1)

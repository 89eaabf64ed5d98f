"""python3-vt -m pyvc.run <contract module> [<proof name>]  -> JSON on stdout

Runs one deductive proof: the verification conditions are generated from the
current source text of the repository and discharged by the SMT solvers."""
import importlib
import json
import sys
import time
import traceback


def main():
    mod = importlib.import_module('contracts.' + sys.argv[1])
    if len(sys.argv) == 2:
        print('@@' + json.dumps([{'name': n, 'timeout': p.get('timeout', 120), 'functions': p.get('functions', []),
                                  'thorough': p.get('thorough', False)} for n, p in mod.PROOFS.items()]))
        return
    from .engine import Engine, Unsupported, Budget, PyExc, PathAbort
    p = mod.PROOFS[sys.argv[2]]
    t = time.time()
    eng = Engine(verbose=0, deadline=t + p.get('timeout', 120) * 0.95, timeout_ms=p.get('timeout_ms', 8000))
    status, msg = 'ok', ''
    try:
        p['fn'](eng)
    except Unsupported as e:
        status, msg = 'unsupported', str(e)
    except Budget as e:
        status, msg = 'budget', str(e)
    except (AttributeError, KeyError, FileNotFoundError, SyntaxError) as e:
        status, msg = 'error', traceback.format_exc()[-1500:]
    except Exception as e:
        status, msg = 'error', traceback.format_exc()[-1500:]
    obl = []
    for o in eng.obls.values():
        f = None
        if o.fails:
            f = dict(o.fails[0])
            f = dict((k, str(v)[:2000]) for k, v in f.items())
        obl.append({'name': o.name, 'n': o.n, 'status': o.status, 'backend': sorted(b for b in o.backend if b),
                    'fail': f})
    print('@@' + json.dumps({
        'name': sys.argv[2], 'status': status, 'msg': msg, 'obligations': obl,
        'covers': dict((k, v[1]) for k, v in eng.covers.items()), 'paths': eng.n_paths, 'queries': eng.n_queries,
        'solver_s': round(eng.solver_time, 2), 'wall_s': round(time.time() - t, 2),
        'assumptions': sorted(eng.assumptions), 'functions': p.get('functions', []),
        'executed': sorted(getattr(eng, 'executed', ()))}))


sys.setrecursionlimit(20000)
main()

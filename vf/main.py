import importlib
import json
import os
import sys

MODULES = dict(P='process_', S='sources', M='mc', I='integ',
               A='analyt', K='kf')


def main(argv):
    prop, rest = argv[0], argv[1:]
    if prop == 'setup':
        # nothing to build (pure Python): check that everything imports
        for m in MODULES.values():
            importlib.import_module('vf.checks.' + m)
        print('setup ok')
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = case = None
    while rest:
        a = rest.pop(0)
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--section':
            only = rest.pop(0)
        elif a == '--case':
            case = int(rest.pop(0))
        elif a == '--seed':
            seed = int(rest.pop(0))
        elif a == '--replay':
            d = json.load(open(rest.pop(0)))
            seed, tier = d['seed'], d['tier']
            only, case = d['section'], d['index']
    from vf import core
    try:
        mod = importlib.import_module('vf.checks.' + MODULES[prop[0]])
    except Exception:
        # the tree cannot even be imported: no verdict on the property
        import traceback
        traceback.print_exc()
        print(f'INCONCLUSIVE {prop}: import failed')
        return 3
    return core.run_check(mod.CHECKS[prop], seed, tier, only=only, case=case)


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main(sys.argv[1:]))

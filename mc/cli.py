import os
import sys
import traceback


def run(argv):
    if argv and argv[0] == '--replay':
        from mc import engine
        return engine.replay(argv[1])
    verbose = '-v' in argv
    argv = [a for a in argv if a != '-v']
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    try:
        from mc import engine
        import nvector
        if not os.path.abspath(nvector.__file__).startswith(os.path.abspath(engine.REPO) + os.sep):
            print('nvector comes from', nvector.__file__)
            return 3
        return engine.main(prop, tier, seed=os.environ.get('VERIF_SEED', 0), verbose=verbose)
    except Exception:
        traceback.print_exc()
        print('VIOLATION property=%s replay=none' % prop)
        return 1

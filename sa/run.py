import sys, os, importlib, traceback
def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in sys.argv: tier = 'thorough'
    if '--quick' in sys.argv: tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or '1')
    from .core import run_check, AnalysisError
    mod = importlib.import_module(f'sa.rules.{prop.lower()}')
    try:
        rc = run_check(prop, mod.check, tier, seed)
    except AnalysisError as ex:
        print(f'ANALYSIS-BROKEN property={prop}: {ex}', file=sys.stderr)
        return 3
    return rc
if __name__ == '__main__':
    import threading
    sys.setrecursionlimit(100000)
    threading.stack_size(512*1024*1024)
    res = []
    def go():
        try: res.append(main())
        except SystemExit as ex: res.append(ex.code or 0)
        except BaseException:
            traceback.print_exc(); res.append(4)
    t = threading.Thread(target=go); t.start(); t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 5)

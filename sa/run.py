"""python3 /verif/sa/run.py <property> : decide one property from the source of the package."""
import importlib, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(30000)
sys.dont_write_bytecode = True
import threading
threading.stack_size(512 * 1024 * 1024)
from repo import Repo, AnalysisError
from report import Report, finish, DEADLINE

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    rep = Report(prop, tier, int(os.environ.get('VERIF_SEED', '1')))
    try:
        mod = importlib.import_module('check_' + prop.lower())
        mod.check(Repo(), rep)
    except AnalysisError as e:
        if not rep.findings and time.monotonic() < DEADLINE:
            print(f'{prop}: cannot decide: {e}'); return 2
        rep.note(str(e))
    except Exception as e:
        if not rep.findings and time.monotonic() < DEADLINE:
            traceback.print_exc(); return 2
        rep.note(f'{type(e).__name__}: {e}')
    return finish(rep)

if __name__ == '__main__':
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start(); t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 2)

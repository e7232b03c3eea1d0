"""Entry point: python3-vt -m nd.check C13"""
import importlib, os, sys, traceback
from . import extract

def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    sys.setrecursionlimit(100000)
    m = importlib.import_module("nd.checks." + prop.lower())
    rep = m.run()
    sys.stdout.flush()
    return rep.finish()

if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]
    def go():
        try:
            rc[0] = main()
        except extract.ExtractError as e:
            print("error of the check: " + str(e))
        except BaseException as e:
            traceback.print_exc()
            # a construct the analysis cannot cope with: report what was established so far
            from . import report
            r = report.CURRENT or report.Report(sys.argv[1])
            r.undecided("analysis", "stopped: %s %s" % (type(e).__name__, e))
            rc[0] = r.finish()
    t = threading.Thread(target=go)
    t.start(); t.join()
    sys.stdout.flush()
    os._exit(rc[0])

"""Development aid: which lines of tf2onnx did the checks execute (VERIF_COV=<directory>)."""
import atexit
import os
import pickle
import sys

OUT = os.environ.get("VERIF_COV")
HITS = set()


def start():
    if not OUT:
        return
    root = os.path.join(os.environ["VERIF_REPO"], "tf2onnx") + os.sep
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, "verif")

    def line(code, no):
        if code.co_filename.startswith(root):
            HITS.add((code.co_filename[len(root):], no))
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    atexit.register(dump)
    leave = os._exit

    def ending(rc):
        dump()
        leave(rc)
    os._exit = ending


def dump():
    if OUT:
        with open(os.path.join(OUT, "%d.pkl" % os.getpid()), "wb") as f:
            pickle.dump(HITS, f)

"""World reset between paths and call tracing."""
import sys


def reset_world():
    import ideal
    ideal.ORACLE = None
    import pysodium
    pysodium.reset()
    import lmdb
    lmdb.reset()
    lmdb.FAULT = None
    h = sys.modules.get("keri.help.helping")
    if h is not None:
        pass


def trace_calls():
    """Records qualified names of keri functions executed (sys.monitoring)."""
    seen = set()
    mon = sys.monitoring
    tid = 3
    try:
        mon.use_tool_id(tid, "vt")
    except ValueError:
        pass

    def start(code, off):
        fn = code.co_filename
        i = fn.find("/src/keri/")
        if i >= 0:
            seen.add(fn[i + 5:-3].replace("/", ".") + "." + code.co_qualname)
        elif "/tools/" in fn and fn.startswith("/repo"):
            seen.add("tools." + fn.rsplit("/", 1)[1][:-3] + "." + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)
    mon.restart_events()
    return seen

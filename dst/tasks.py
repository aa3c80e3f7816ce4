"""Functions that simulated clients run on simulated engines.

They are ordinary importable functions; each execution is recorded in the run's
history (the ground truth the oracles compare everything else with)."""

from dst import core


class TaskFailed(Exception):
    pass


def _here():
    s = core.active()
    return s, s.ctx["world"], s.current.proc


def _load_bad(tag):
    raise ValueError("bad:" + tag)


def _load_slow(v):
    s = core.active()
    if s is not None and s.current is not None:
        s.sleep(0.2)
    return v


class _Loads:
    """a result which does something when the client unpickles it"""

    def __init__(self, fn, arg):
        self.fn, self.arg = fn, arg

    def __reduce__(self):
        return (self.fn, (self.arg,))


def work(tag, dur=0.0, mode="ok", arg=None):
    """The universal task."""
    s, w, proc = _here()
    e = proc.cwd_data.get("engine")
    n = w.exec_count.get(tag, 0) + 1
    w.exec_count[tag] = n
    w.h("start", tag=tag, eng=e.index, n=n)
    try:
        if mode == "print":
            for i, line in enumerate(arg or ()):
                print(line)
                if dur:
                    s.sleep(dur / max(1, len(arg)))
        elif mode == "printflush":
            import sys

            for i, line in enumerate(arg or ()):
                print(line)
                sys.stdout.flush()
                if dur:
                    s.sleep(dur / max(1, len(arg)))
        elif mode == "errprint":
            import sys

            for i, line in enumerate(arg or ()):
                print(line)
                print("E" + line, file=sys.stderr)
            if dur:
                s.sleep(dur)
        elif dur:
            s.sleep(dur)
        if mode == "fail" or (mode == "failn" and n <= arg) or (
            mode == "failon" and e.index in arg
        ):
            w.h("end", tag=tag, eng=e.index, n=n, ok=False)
            raise TaskFailed(tag)
        if mode == "compfail":
            from ipyparallel.error import CompositeError

            w.h("end", tag=tag, eng=e.index, n=n, ok=False)
            raise CompositeError("composite", [("TaskFailed", tag, "", {})])
        if mode == "die" or (mode == "dien" and n <= arg):
            w.h("die", tag=tag, eng=e.index, n=n)
            w.note_death(e)
            proc.kill(-9)
            s.sleep(1000)
    except core.SimKilled:
        w.h("lost", tag=tag, eng=e.index, n=n)
        raise
    w.h("end", tag=tag, eng=e.index, n=n, ok=True)
    if mode == "none":
        return None
    if mode == "echo":
        return arg
    if mode == "nopickle":
        return (x for x in ())
    if mode == "badres":
        return _Loads(_load_bad, tag)
    if mode == "slowres":
        return _Loads(_load_slow, ["r", tag, e.index, n])
    return ["r", tag, e.index, n]


def item(x, tag="m", dur=0.0, fail=(), slow=()):
    """map element function"""
    s, w, proc = _here()
    e = proc.cwd_data.get("engine")
    key = f"{tag}:{x}"
    n = w.exec_count.get(key, 0) + 1
    w.exec_count[key] = n
    w.h("start", tag=key, eng=e.index, n=n)
    try:
        d = dur + (0.5 if x in slow else 0)
        if d:
            s.sleep(d)
    except core.SimKilled:
        w.h("lost", tag=key, eng=e.index, n=n)
        raise
    if x in fail:
        w.h("end", tag=key, eng=e.index, n=n, ok=False)
        raise TaskFailed(key)
    w.h("end", tag=key, eng=e.index, n=n, ok=True)
    return ("i", x)


def on_engines(allowed, limit=10**9):
    """functional dependency: only the listed engines (and later ones) satisfy it"""
    s, w, proc = _here()
    e = proc.cwd_data.get("engine")
    ok = e.index in allowed or e.index >= limit
    w.h("depcheck", eng=e.index, ok=ok)
    return ok


def eng_index():
    s, w, proc = _here()
    return proc.cwd_data.get("engine").index

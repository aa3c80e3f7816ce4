"""Interpreter of simulated client programs.

A plan lists, per client, operations; each runs through the real public client
API in that client's simulated process, and everything the user could observe
is recorded in the run's history."""

import json

from . import core, tasks, world

ALIAS = {"task": "TaskScheduler", "mux": "DirectScheduler", "control": "ControlScheduler",
         "iopub": "IOPubScheduler", "bcast": "BroadcastScheduler(depth=0, id=0)"}


class Actor:
    """One client process and its user thread(s)."""

    def __init__(self, run, idx, spec):
        self.run = run
        self.sim = run.sim
        self.world = run.world
        self.idx = idx
        self.spec = spec
        self.proc = run.world.client_proc(f"client{idx}")
        self.rc = None
        self.lbv = None
        self.done = False
        self.final_done = False
        self.ars = {}  # label -> AsyncResult
        self.watched = set()
        self.views = {}
        self.its = {}

    def start(self):
        t = self.world.spawn_user(self.proc, self._main, delay=self.spec.get("delay", 0.0))
        self.thread = t

    def h(self, kind, **kw):
        return self.world.h(kind, c=self.idx, **kw)

    def _main(self):
        try:
            try:
                self.rc = self.world.make_client(**self.spec.get("client", {}))
            except Exception as e:
                self.h("client_fail", err=f"{type(e).__name__}: {e}")
                return
            self.h("client_up", ids=list(self.rc.ids), session=self.rc.session.session)
            self.world.session_of[self.rc.session.session] = self.idx
            want = self.spec.get("wait_engines", 1)
            end = self.sim.now + 30
            while len(self.rc.ids) < want and self.sim.now < end:
                self.sim.sleep(0.05)
            if self.spec.get("settle"):
                self.sim.sleep(self.spec["settle"])
            self.lbv = self.rc.load_balanced_view()
            for n, op in enumerate(self.spec["ops"]):
                self.do(n, op)
        finally:
            self.done = True

    def do(self, n, op):
        kind = op["op"]
        rec = self.h("op", n=n, op=kind, label=op.get("tag") or op.get("label"))
        t0 = self.sim.now
        try:
            v = getattr(self, "op_" + kind)(op, rec)
            status, err = "ok", None
        except core.SimKilled:
            raise
        except Exception as e:
            v, status, err = None, "raise", f"{type(e).__name__}: {e}"
            ename = getattr(e, "ename", None) or type(e).__name__
            r = self.h("opdone", n=n, op=kind, label=op.get("tag") or op.get("label"),
                       status=status, err=err[:300], ename=ename, t0=t0)
            r["exc"] = e
            return
        r = self.h("opdone", n=n, op=kind, label=op.get("tag") or op.get("label"),
                   status=status, t0=t0)
        r["v"] = v

    # ---- helpers ------------------------------------------------------------
    def eids(self, indices):
        """map engine indices to the ids this client knows about"""
        out = []
        for i in indices:
            if i >= len(self.world.engines):
                continue
            e = self.world.engines[i]
            if e.app is not None and e.eid is not None and self.rc._engines.get(e.eid) == e.uuid:
                out.append(e.eid)
        return out

    def watch_future(self, fut, label, msg_id, **kw):
        """record every completion of a message future"""
        key = id(fut)
        h = self.h

        def cb(f):
            if f.cancelled():
                h("done", label=label, msg_id=msg_id, out="cancelled", **kw)
                return
            e = f.exception()
            if e is not None:
                h("done", label=label, msg_id=msg_id, out="exc", ename=getattr(e, "ename", None) or type(e).__name__, **kw)
            else:
                r = f.result()
                en = getattr(r, "ename", None) if isinstance(r, BaseException) else None
                if isinstance(r, BaseException) and en is None:
                    en = type(r).__name__
                h("done", label=label, msg_id=msg_id, out="err" if en else "ok", ename=en, **kw)

        fut.add_done_callback(cb)

    def track(self, ar, op, rec, label=None):
        label = label or op["tag"]
        self.ars[label] = ar
        mids = list(ar.msg_ids)
        sub = self.h("submit", label=label, msg_ids=mids, op=op["op"], n=len(mids))
        sub["spec"] = op
        self.world.submits[label] = sub
        sub["t0"] = rec["t"]
        for ch in ar._children:
            self.watch_future(ch, label, ch.msg_id)

        def resolved(f):
            self.h("ardone", label=label, ok=f.exception() is None)

        ar.add_done_callback(resolved)
        return ar

    def msgids(self, labels):
        out = []
        for lb in labels:
            s = self.world.submits.get(lb)
            if s is None:
                continue
            out.extend(s["msg_ids"])
        return out

    # ---- generic -----------------------------------------------------------
    def op_sleep(self, op, rec):
        self.sim.sleep(op["d"])

    def op_spin(self, op, rec):
        self.rc.spin()

    # ---- load-balanced -------------------------------------------------------
    def op_task(self, op, rec):
        import ipyparallel as ipp

        kw = {}
        for which in ("after", "follow"):
            d = op.get(which)
            if d:
                ids = self.msgids(d["tags"]) + list(d.get("raw", ()))
                if not ids:
                    rec["skip"] = True
                    return None
                if d.get("plain"):
                    kw[which] = ids
                else:
                    kw[which] = ipp.Dependency(
                        ids, all=d.get("all", True), success=d.get("success", True),
                        failure=d.get("failure", False),
                    )
        if op.get("targets") is not None:
            t = self.eids(op["targets"])
            if not t:
                rec["skip"] = True
                return None
            kw["targets"] = t
            rec["uuids"] = [self.rc._engines[i] for i in t if i in self.rc._engines]
        if op.get("retries"):
            kw["retries"] = op["retries"]
        if op.get("timeout"):
            kw["timeout"] = op["timeout"]
        f = tasks.work
        if op.get("dep") is not None:
            f = ipp.dependent(tasks.work, tasks.on_engines, op["dep"], op.get("limit", 10**9))
        with self.lbv.temp_flags(**kw):
            ar = self.lbv.apply_async(f, op["tag"], op.get("dur", 0.0), op.get("mode", "ok"), op.get("arg"))
        self.track(ar, op, rec)
        self.world.submits[op["tag"]]["uuids"] = rec.get("uuids")
        return None

    def op_map(self, op, rec):
        kind = op["kind"]
        xs = list(range(op["n"]))
        n = op["n"]
        args = ([op["tag"]] * n, [op.get("dur", 0.0)] * n, [tuple(op.get("fail", ()))] * n,
                [tuple(op.get("slow", ()))] * n)
        v = self._view(op)
        if v is None:
            rec["skip"] = True
            return None
        out = []
        if kind in ("async", "sync"):
            kw = {}
            if op.get("lb", True):
                if op.get("chunksize"):
                    kw["chunksize"] = op["chunksize"]
                if not op.get("ordered", True):
                    kw["ordered"] = False
            if op.get("return_exceptions"):
                kw["return_exceptions"] = True
            ar = v.map_async(tasks.item, xs, *args, **kw)
            self.track(ar, op, rec)
            if kind == "sync":
                return self._collect(ar, op)
            return None
        # imap
        kw = {}
        if op.get("max_outstanding") is not None:
            kw["max_outstanding"] = op["max_outstanding"]
        kw["ordered"] = op.get("ordered", True)
        kw["return_exceptions"] = op.get("return_exceptions", False)
        consumed = [0]
        w = self.world

        def gen():
            for x in xs:
                consumed[0] += 1
                w.h("consume", tag=op["tag"], n=consumed[0])
                if op.get("gen_fail") == x:
                    raise ValueError("genfail")
                yield x
        it = v.imap(tasks.item, gen(), *[iter(a) for a in args], **kw)
        errs = None
        try:
            for val in it:
                self.h("imap_item", tag=op["tag"], v=_rv(val))
                out.append(_rv(val))
                if op.get("consume_delay"):
                    self.sim.sleep(op["consume_delay"])
                if op.get("stop_after") and len(out) >= op["stop_after"]:
                    it.cancel()
                    op = dict(op, stop_after=None)
        except core.SimKilled:
            raise
        except Exception as e:
            errs = getattr(e, "ename", None) or type(e).__name__
        return {"out": out, "err": errs, "consumed": consumed[0]}

    def _collect(self, ar, op):
        out = []
        try:
            for val in ar:
                out.append(_rv(val))
        except core.SimKilled:
            raise
        except Exception as e:
            return {"out": out, "err": getattr(e, "ename", None) or type(e).__name__}
        return {"out": out, "err": None}

    def op_iterate(self, op, rec):
        ar = self.ars.get(op["label"])
        if ar is None:
            rec["skip"] = True
            return None
        return self._collect(ar, op)

    def _view(self, op):
        """load balanced / direct / broadcast view for an op"""
        lb = op.get("lb", True)
        if lb:
            if op.get("targets") is not None:
                t = self.eids(op["targets"])
                if not t:
                    return None
                return self.rc.load_balanced_view(t)
            return self.lbv
        t = op.get("targets")
        if t == "all" or t is None:
            t = "all" if op.get("lazy") else list(self.rc.ids)
        elif isinstance(t, int):
            tt = self.eids([t])
            t = tt[0] if tt else None
        else:
            t = self.eids(t)
        if t is None or t == []:
            return None
        if op.get("bcast"):
            v = self.rc.broadcast_view(t, is_coalescing=bool(op.get("coalescing")))
        else:
            v = self.rc.direct_view(t)
        v.block = False
        return v

    # ---- direct ---------------------------------------------------------------
    def op_dapply(self, op, rec):
        v = self._view(dict(op, lb=False))
        if v is None:
            rec["skip"] = True
            return None
        t = v.targets
        ids = list(self.rc.ids) if t == "all" else ([t] if isinstance(t, int) else list(t))
        uuids = [self.rc._engines.get(i) for i in ids]
        ar = v.apply_async(tasks.work, op["tag"], op.get("dur", 0.0), op.get("mode", "ok"), op.get("arg"))
        self.track(ar, op, rec)
        self.world.submits[op["tag"]].update(targets=ids, uuids=uuids)
        return None

    def op_dexec(self, op, rec):
        v = self._view(dict(op, lb=False))
        if v is None:
            rec["skip"] = True
            return None
        ids = [v.targets] if isinstance(v.targets, int) else list(v.targets)
        uuids = [self.rc._engines.get(i) for i in ids]
        code = op["code"]
        ar = v.execute(code, silent=op.get("silent", True), block=False)
        self.track(ar, op, rec)
        self.world.submits[op["tag"]].update(targets=ids, uuids=uuids)
        return None

    def op_push(self, op, rec):
        v = self._view(dict(op, lb=False))
        if v is None:
            rec["skip"] = True
            return None
        ids = [v.targets] if isinstance(v.targets, int) else list(v.targets)
        uuids = [self.rc._engines.get(i) for i in ids]
        ar = v.push(op["ns"], block=False)
        self.track(ar, op, rec)
        self.world.submits[op["tag"]].update(targets=ids, uuids=uuids)

    def op_pull(self, op, rec):
        v = self._view(dict(op, lb=False))
        if v is None:
            rec["skip"] = True
            return None
        ids = [v.targets] if isinstance(v.targets, int) else list(v.targets)
        uuids = [self.rc._engines.get(i) for i in ids]
        ar = v.pull(op["names"], block=False)
        self.track(ar, op, rec)
        self.world.submits[op["tag"]].update(targets=ids, uuids=uuids)

    def op_scatter(self, op, rec):
        v = self._view(dict(op, lb=False))
        if v is None:
            rec["skip"] = True
            return None
        ids = [v.targets] if isinstance(v.targets, int) else list(v.targets)
        uuids = [self.rc._engines.get(i) for i in ids]
        kw = {}
        if op.get("flatten"):
            kw["flatten"] = True
        ar = v.scatter(op["key"], list(op["seq"]), block=False, **kw)
        self.track(ar, op, rec)
        self.world.submits[op["tag"]].update(targets=ids, uuids=uuids)

    def op_gather(self, op, rec):
        v = self._view(dict(op, lb=False))
        if v is None:
            rec["skip"] = True
            return None
        ids = [v.targets] if isinstance(v.targets, int) else list(v.targets)
        uuids = [self.rc._engines.get(i) for i in ids]
        ar = v.gather(op["key"], block=False)
        self.track(ar, op, rec)
        self.world.submits[op["tag"]].update(targets=ids, uuids=uuids)

    # ---- waiting ----------------------------------------------------------------
    def _names(self, ars):
        inv = {id(a): k for k, a in self.ars.items()}
        return sorted(inv.get(id(a), "?") for a in ars)

    def op_wait(self, op, rec):
        ar = self.ars.get(op["label"])
        if ar is None:
            rec["skip"] = True
            return None
        t0 = self.sim.now
        st0 = ar.done()
        rw = op.get("return_when")
        if rw:
            done, pending = ar.wait(None if op["timeout"] < 0 else op["timeout"], return_when=rw)
            sp = ar.split()
            return {"rw": rw, "dt": self.sim.now - t0, "ready0": st0, "n": len(sp),
                    "done": sorted(sp.index(x) for x in done), "pending": sorted(sp.index(x) for x in pending),
                    "alldone": [x.done() for x in sp],
                    "failed": [x.done() and x.exception() is not None for x in sp]}
        r = ar.wait(op["timeout"])
        return {"r": r, "dt": self.sim.now - t0, "ready0": st0, "ready": ar.done()}

    def op_get(self, op, rec):
        ar = self.ars.get(op["label"])
        if ar is None:
            rec["skip"] = True
            return None
        t0 = self.sim.now
        d0 = ar.done()
        kw = {}
        if op.get("return_exceptions"):
            kw["return_exceptions"] = True
        if op.get("return_when"):
            kw["return_when"] = op["return_when"]
        try:
            v = ar.get(op["timeout"], **kw)
            return {"v": _rv(v), "dt": self.sim.now - t0, "d0": d0, "d1": ar.done()}
        except core.SimKilled:
            raise
        except Exception as e:
            return {"exc": getattr(e, "ename", None) or type(e).__name__, "dt": self.sim.now - t0, "d0": d0,
                    "done": ar.done(), "timeout": isinstance(e, TimeoutError) and not hasattr(e, "ename"),
                    "msg": str(e)[:200]}

    def op_arq(self, op, rec):
        """what the cheap queries say about a result, one after the other"""
        ar = self.ars.get(op["label"])
        if ar is None:
            rec["skip"] = True
            return None
        t0 = self.sim.now
        out = {"done": ar.done(), "ready": ar.ready()}
        try:
            out["successful"] = ar.successful()
        except RuntimeError as e:
            out["successful"] = "RuntimeError"
        try:
            ar.get(0)
            out["get"] = "value"
        except core.SimKilled:
            raise
        except Exception as e:
            out["get"] = "TimeoutError" if isinstance(e, TimeoutError) and not hasattr(e, "ename") else "exc"
        out["done2"] = ar.done()
        out["ready2"] = ar.ready()
        out["len"] = len(ar)
        out["progress"] = ar.progress
        out["repr"] = repr(ar).rstrip(">").split(": ")[-1]
        out["dt"] = self.sim.now - t0
        return out

    def op_owait(self, op, rec):
        ar = self.ars.get(op["label"])
        if ar is None:
            rec["skip"] = True
            return None
        t0 = self.sim.now
        r = ar.wait_for_output(op["timeout"])
        return {"r": r, "dt": self.sim.now - t0, "std": [md.get("stdout") for md in ar._metadata]}

    def op_outq(self, op, rec):
        return {"out": sorted(self.rc.outstanding)}

    def op_cwait(self, op, rec):
        jobs = None
        if op.get("labels") is not None:
            jobs = [self.ars[x] for x in op["labels"] if x in self.ars]
            if not jobs:
                rec["skip"] = True
                return None
            if op.get("as_ids"):
                jobs = [m for a in jobs for m in a.msg_ids]
        t0 = self.sim.now
        before = sorted(self.rc.outstanding)
        r = self.rc.wait(jobs, timeout=op["timeout"])
        return {"r": r, "dt": self.sim.now - t0, "before": before,
                "out": sorted(self.rc.outstanding)}

    # ---- queries -----------------------------------------------------------------
    def op_qstatus(self, op, rec):
        return self.rc.queue_status(verbose=op.get("verbose", False))

    def op_rstatus(self, op, rec):
        ids = self.msgids(op["labels"])
        if not ids:
            rec["skip"] = True
            return None
        r = self.rc.result_status(ids, status_only=True)
        return {"ids": ids, "completed": sorted(r["completed"]), "pending": sorted(r["pending"])}

    def op_get_result(self, op, rec):
        ids = self.msgids(op["labels"])
        if not ids:
            rec["skip"] = True
            return None
        arg = ids[0] if len(ids) == 1 and op.get("single") else ids
        ar = self.rc.get_result(arg, owner=op.get("owner", False))
        if op.get("tag"):
            self.ars[op["tag"]] = ar
        t0 = self.sim.now
        try:
            v = ar.get(op["timeout"])
            return {"ids": ids, "v": _rv(v), "dt": self.sim.now - t0, "md": _md(ar)}
        except core.SimKilled:
            raise
        except Exception as e:
            return {"ids": ids, "exc": getattr(e, "ename", None) or type(e).__name__, "msg": str(e)[:300],
                    "dt": self.sim.now - t0, "done": ar.done()}

    def op_resubmit(self, op, rec):
        ids = self.msgids([op["label"]])
        if not ids:
            rec["skip"] = True
            return None
        ar = self.rc.resubmit(ids[0] if len(ids) == 1 else ids)
        self.ars[op["tag"]] = ar
        new = list(ar.msg_ids)
        sub = self.h("resubmitted", label=op["tag"], of=op["label"], old=ids, msg_ids=new)
        self.world.submits[op["tag"]] = sub
        sub["spec"] = op
        t0 = self.sim.now
        try:
            v = ar.get(op["timeout"])
            return {"old": ids, "new": new, "v": _rv(v), "dt": self.sim.now - t0}
        except core.SimKilled:
            raise
        except Exception as e:
            return {"old": ids, "new": new, "exc": getattr(e, "ename", None) or type(e).__name__,
                    "msg": str(e)[:300]}

    def op_purge(self, op, rec):
        if op.get("all"):
            self.rc.purge_hub_results("all")
            return {"all": True}
        if op.get("targets") is not None:
            t = self.eids(op["targets"])
            if not t:
                rec["skip"] = True
                return None
            self.rc.purge_hub_results(targets=t)
            return {"targets": t}
        ids = self.msgids(op["labels"])
        if not ids:
            rec["skip"] = True
            return None
        self.rc.purge_hub_results(ids)
        return {"ids": ids}

    def op_purge_local(self, op, rec):
        ars = [self.ars[x] for x in op["labels"] if x in self.ars]
        if not ars:
            rec["skip"] = True
            return None
        self.rc.purge_local_results(ars)

    def op_history(self, op, rec):
        return self.rc.hub_history()

    def op_dbq(self, op, rec):
        q = op.get("query") or {}
        if op.get("labels"):
            q = {"msg_id": {"$in": self.msgids(op["labels"])}}
        recs = self.rc.db_query(q, keys=op.get("keys"))
        return [
            {k: (v if isinstance(v, (str, int, float, list, type(None))) else str(v))
             for k, v in r.items() if k not in ("buffers", "result_buffers")}
            for r in recs
        ]

    def op_abort(self, op, rec):
        jobs = None
        if op.get("labels") is not None:
            jobs = [self.ars[x] for x in op["labels"] if x in self.ars]
            if not jobs:
                rec["skip"] = True
                return None
        kw = {}
        if op.get("targets") is not None:
            t = self.eids(op["targets"])
            if not t:
                rec["skip"] = True
                return None
            kw["targets"] = t
        before = sorted(self.rc.outstanding)
        r = self.rc.abort(jobs, block=True, **kw)
        return {"before": before, "ids": [m for a in jobs for m in a.msg_ids] if jobs is not None else None}

    def op_ids(self, op, rec):
        return list(self.rc.ids)

    def op_shutdown_engine(self, op, rec):
        t = self.eids(op["targets"])
        if not t:
            rec["skip"] = True
            return None
        for i in t:
            for e in self.world.engines:
                if e.alive and e.eid == i:
                    self.world.h("shutting", eng=e.index)
        self.rc.shutdown(t, block=op.get("block", False))
        return t

    def op_wait_for_engines(self, op, rec):
        t0 = self.sim.now
        try:
            self.rc.wait_for_engines(op["n"], timeout=op["timeout"])
            return {"ok": True, "n": len(self.rc.ids), "dt": self.sim.now - t0}
        except core.SimKilled:
            raise
        except Exception as e:
            return {"ok": False, "exc": type(e).__name__, "msg": str(e)[:200], "n": len(self.rc.ids),
                    "dt": self.sim.now - t0}

    def op_executor(self, op, rec):
        ex = self.lbv.executor
        n = op["n"]
        out = {}
        futs = []
        for i in range(n):
            ar = ex.submit(tasks.work, f"{op['tag']}.{i}", op.get("dur", 0.0), "ok")
            self.track(ar, dict(op, tag=f"{op['tag']}.{i}", op="task"), rec, label=f"{op['tag']}.{i}")
            futs.append(ar)
        if op.get("map"):
            res = list(ex.map(tasks.item, range(op["map"]), [op["tag"] + "m"] * op["map"]))
            out["map"] = [_rv(x) for x in res]
        t0 = self.sim.now
        if op.get("how") == "shutdown":
            ex.shutdown(wait=True)
            out["done_after"] = [f.done() for f in futs]
        elif op.get("how") == "with":
            with self.lbv.executor:
                pass
            out["done_after"] = [f.done() for f in futs]
        elif op.get("how") == "as_completed":
            import concurrent.futures as cf

            seen = []
            for f in cf.as_completed(futs, timeout=op["timeout"]):
                seen.append(futs.index(f))
            out["seen"] = seen
        elif op.get("how") == "wait":
            import concurrent.futures as cf

            d, nd = cf.wait(futs, timeout=op["timeout"])
            out["waited"] = [len(d), len(nd)]
        out["dt"] = self.sim.now - t0
        return out

    def op_call(self, op, rec):
        """run a scenario-specific python function"""
        return self.run.calls[op["fn"]](self, op, rec)

    # ---- end of run --------------------------------------------------------------
    def finalize(self):
        """What the user finally sees of every AsyncResult."""
        out = {}
        for label, ar in self.ars.items():
            d = {"ready": ar.done(), "cls": type(ar).__name__}
            if d["ready"]:
                d["successful"] = ar.successful()
                kids = []
                for ch in ar._children:
                    try:
                        v = ch.result(0)
                    except core.SimKilled:
                        raise
                    except BaseException as e:
                        v = e
                    kids.append(_rv(v))
                d["kids"] = kids
                try:
                    d["v"] = _rv(ar.get(timeout=5))
                except core.SimKilled:
                    raise
                except Exception as e:
                    d["exc"] = getattr(e, "ename", None) or type(e).__name__
                    d["excmsg"] = str(e)[:300]
                d["md"] = _md(ar)
                d["outputs_ready"] = ar.wait_for_output(0)
            out[label] = d
        r = self.h("final", n=len(out), outstanding=len(self.rc.outstanding))
        r["ars"] = out
        r["out_ids"] = sorted(self.rc.outstanding)
        r["ids"] = list(self.rc.ids)
        r["engines"] = dict(self.rc._engines)
        return r


def _rv(v):
    """a comparable picture of a value a client got"""
    if isinstance(v, BaseException):
        en = getattr(v, "ename", None)
        if en is None and hasattr(v, "elist"):
            return {"composite": [x[0] for x in v.elist]}
        return {"error": en or type(v).__name__, "evalue": str(getattr(v, "evalue", v))[:200],
                "eng": (getattr(v, "engine_info", None) or {}).get("engine_id")}
    if isinstance(v, tuple):
        return [_rv(x) for x in v]
    if isinstance(v, list):
        return [_rv(x) for x in v]
    if isinstance(v, (str, int, float, type(None), bool)):
        return v
    if isinstance(v, dict):
        return {str(k): _rv(x) for k, x in v.items()}
    return repr(v)


MDK = ("msg_id", "engine_id", "engine_uuid", "status", "stdout", "stderr", "submitted",
       "started", "completed", "received", "follow", "after", "outputs_ready", "execute_input", "execute_result",
       "error", "outputs")


def _md(ar):
    mds = ar._metadata
    out = []
    for m in mds:
        d = {}
        for k in MDK:
            v = m.get(k)
            if hasattr(v, "timestamp"):
                v = v.timestamp()
            if not isinstance(v, (str, int, float, list, dict, type(None), bool)):
                v = repr(v)
            d[k] = v
        out.append(d)
    return out


class Run:
    """Sets up a deployment from a plan, runs the clients and the faults, waits
    for quiescence, and collects the final observations."""

    def __init__(self, sim, plan, hooks=None):
        self.sim = sim
        self.plan = plan
        self.calls = {}
        self.hooks = hooks
        cfg = plan.get("cfg", {})
        self.world = world.World(sim, cfg)
        self.world.submits = {}
        self.world.session_of = {}
        self.actors = []
        self.fault_end = 0.0

    # ---- faults ------------------------------------------------------------
    def fault(self, f):
        w, s = self.world, self.sim
        k = f["kind"]
        done = False
        if k == "kill_engine":
            i = f["eng"]
            if i < len(w.engines):
                done = w.kill_engine(w.engines[i])
        elif k == "start_engine":
            w.start_engine(**f.get("kw", {}))
            done = True
        elif k == "pause":
            p = self.proc_named(f["proc"])
            if p is not None:
                p.pause(f["dur"])
                w.h("pause", proc=f["proc"], dur=f["dur"])
                done = True
        elif k == "stall":
            # all links between two processes stop delivering for a while
            a, b = self.proc_named(f["a"]), self.proc_named(f["b"])
            if a is not None and b is not None:
                for ln in w.net.links:
                    ps = (ln.conn._proc, ln.bound._proc)
                    if ps in ((a, b), (b, a)):
                        w.net.stall(ln, f["dur"])
                        done = True
                if done:
                    w.h("stall", a=f["a"], b=f["b"], dur=f["dur"])
        elif k == "clock":
            if f.get("proc"):
                p = self.proc_named(f["proc"])
                if p is not None:
                    p.clock_offset += f["by"]
                    done = True
            else:
                s.wall_offset += f["by"]
                done = True
            if done:
                w.h("clock", proc=f.get("proc"), by=f["by"])
        elif k == "hb_drop":
            # heartbeats to/from one engine are lost for a while
            i = f["eng"]
            if i < len(w.engines):
                self.hb_loss[i] = max(self.hb_loss.get(i, 0), s.now + f["dur"])
                w.h("hb_drop", eng=i, dur=f["dur"])
                done = True
        elif k == "kill_client":
            i = f["client"]
            if i < len(self.actors) and self.actors[i].proc.alive:
                self.actors[i].proc.kill(-9)
                w.h("client_death", c=i)
                done = True
        else:
            fn = self.calls.get("fault_" + k)
            done = bool(fn(f)) if fn else False
        if done:
            s.count("fault:" + k)
            s.note(f"FAULT {k}")
        self.fault_end = max(self.fault_end, s.now + f.get("dur", 0))

    def proc_named(self, name):
        w = self.world
        if name == "hub":
            return w.controller_proc if w.controller_proc.alive else None
        return w.child(ALIAS.get(name, name))

    def _note_tap(self, phase):
        w = self.world
        port = str(w.client_info["notification"])

        def tap(pipe, frames):
            if pipe.link.addr.rsplit(":", 1)[-1] != port or pipe.dst is pipe.link.bound:
                return
            try:
                i = frames.index(world.DELIM)
                header = json.loads(frames[i + 2])
                content = json.loads(frames[i + 5])
            except Exception:
                return
            mt = header["msg_type"]
            kind = {"registration_notification": "reg", "unregistration_notification": "unreg"}.get(mt)
            if kind is None:
                return
            u = content["uuid"]
            if phase == "snd":
                if (kind, u) not in self._noted:
                    self._noted.add((kind, u))
                    w.h(kind, uuid=u, eid=content.get("id"))
            elif pipe.dst._proc.name == "TaskScheduler":
                w.sched_notes[kind].setdefault(u, self.sim.now)

        return tap

    def _hb_filter(self, pipe, frames):
        a = pipe.link.addr.rsplit(":", 1)[-1]
        if a not in self.hb_ports:
            return None
        p = pipe.link.conn._proc
        e = p.cwd_data.get("engine")
        if e is not None and self.hb_loss.get(e.index, 0) > self.sim.now:
            self.sim.count("fault:hb_msg_lost")
            return "drop"
        return None

    # ---- main ------------------------------------------------------------------
    def main(self, sim):
        plan, w = self.plan, self.world
        self.hb_loss = {}
        if self.hooks:
            self.hooks(self)
        w.start_controller()
        ei = w.engine_info
        self.hb_ports = {str(ei.get("hb_ping")), str(ei.get("hb_pong"))}
        w.net.filters.append(self._hb_filter)
        w.start_taps(plan.get("taps", ("c.task", "e.task")))
        w.sched_notes = {"reg": {}, "unreg": {}}
        self._noted = set()
        w.net.send_taps.append(self._note_tap("snd"))
        w.net.taps.append(self._note_tap("rcv"))
        if self.calls.get("on_world"):
            self.calls["on_world"](self)
        for e in plan.get("engines", []):
            w.start_engine(delay=e.get("delay", 0.0), **e.get("kw", {}))
        if plan.get("settle", True):
            w.wait_engines(len(plan.get("engines", [])), timeout=30)
        t_base = sim.now
        self.t_base = t_base
        w.h("base")
        for i, spec in enumerate(plan.get("clients", [])):
            a = Actor(self, i, spec)
            self.actors.append(a)
            a.start()
        for f in plan.get("faults", []):
            sim.at(t_base + f["at"], self._fault_ev, f)
        end_faults = t_base + max([f["at"] + f.get("dur", 0) for f in plan.get("faults", [])], default=0)
        # phase 1: programs run to their end
        budget = plan.get("max_prog", 600.0)
        early = plan.get("recover_early", 0)
        while sim.now < t_base + budget:
            if sim.now >= end_faults and early:
                # programs may be waiting for an engine
                for _ in range(early):
                    w.start_engine()
                early = 0
            if sim.now >= end_faults and all(a.done or not a.proc.alive for a in self.actors):
                break
            sim.sleep(0.05)
        w.h("programs_done", stuck=[a.idx for a in self.actors if not a.done and a.proc.alive])
        # phase 2: recovery capacity, then quiescence
        if self.calls.get("recover"):
            self.calls["recover"](self)
        want = plan.get("recover_engines", 0)
        for _ in range(want):
            w.start_engine()
        end = sim.now + plan.get("quiesce", 120.0)
        while sim.now < end:
            if all(self.settled(a) for a in self.actors):
                break
            if want and len(w.engines) < 80:
                # replace engines the programs' own tasks keep killing
                gone = {h["uuid"] for h in w.hist if h["k"] in ("unreg", "death")}
                for _ in range(want - sum(1 for e in w.engines if e.alive and e.uuid not in gone)):
                    w.start_engine()
            sim.sleep(0.1)
        w.h("quiesced", ok=all(self.settled(a) for a in self.actors))
        sim.sleep(plan.get("tail", 1.0))
        if self.calls.get("before_final"):
            self.calls["before_final"](self)
        # phase 3: final observations, in the clients' own processes
        for a in self.actors:
            if a.proc.alive and a.rc is not None and a.done:
                self.in_client(a, a.finalize, 30)
        if self.calls.get("final"):
            self.calls["final"](self)
        return self

    def in_client(self, a, fn, timeout=30):
        """run fn in a thread of client a; returns its value or None"""
        box = []

        def go():
            try:
                box.append(("ok", fn()))
            except core.SimKilled:
                raise
            except Exception as e:
                import traceback

                self.world.h("final_err", c=a.idx, err=f"{type(e).__name__}: {e}",
                             tb=traceback.format_exc()[-800:])
                box.append(("err", e))

        t = self.world.spawn_user(a.proc, go, name="final")
        end = self.sim.now + timeout
        while not t.dead and self.sim.now < end:
            self.sim.sleep(0.01)
        if not t.dead:
            self.world.h("final_stuck", c=a.idx)
            return None
        return box[0][1] if box and box[0][0] == "ok" else None

    def _fault_ev(self, f):
        self.fault(f)

    def settled(self, a):
        if not a.proc.alive or a.rc is None:
            return True
        if not a.done:
            return False
        for ar in a.ars.values():
            if not ar.done():
                return False
            if self.plan.get("want_output") and not ar._output_ready:
                return False
        return True

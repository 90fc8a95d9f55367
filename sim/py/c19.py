#!/usr/bin/env python3
"""C19: the Python client in a simulated world."""
import argparse
import asyncio
import contextvars
import gc
import hashlib
import json
import logging
import multiprocessing
import os
import subprocess
import sys
import time as realtime
import _thread

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pysim
import stubs

REPO = os.environ.get("VERIF_REPO", "/repo")
NS = pysim.NS
MS = NS // 1000
CALL = contextvars.ContextVar("call", default=None)
QUICK, THOROUGH = 14000, 150000

GETTERS = {
    "get_bootinfo": ("GetBootInfo", "BootInfo"),
    "get_bypass": ("GetBypass", "Bypass"),
    "get_temps": ("GetTemps", "Temps"),
    "get_fans": ("GetFans", "Fans"),
    "get_fan_profiles": ("GetFanProfiles", "FanProfiles"),
    "get_errors": ("GetErrors", "Errors"),
}
METHODS = ["ping"] + list(GETTERS) + ["set_fan_speed", "increase_fan_speed", "decrease_fan_speed", "set_comfort_temperature", "configure_fan_profile"]

SPEEDS_BAD = [0, 5, -1, 255, 256, 257, 260, 1 << 32, (1 << 32) + 2, None, "2", 2.5]
TEMPS_OK = [0, 1, 12, 20, 21, 22, 40, 128, 254, 255]
TEMPS_BAD = [-1, 256, 300, -256, 1 << 32, (1 << 32) + 20, None, 20.5, "20"]
PCT_OK = [15, 16, 35, 50, 70, 99, 100]
PCT_BAD = [14, 101, 0, -1, 256, 271, 300, 1 << 32, (1 << 32) + 50, None, 50.5, "50"]

FAULT_CODES = [e for e in stubs.Errors if e is not stubs.Errors.NoError]


class Call:
    def __init__(self, i):
        self.i = i
        self.kind = self.how = None
        self.args = ()
        self.at = 0
        self.cancel = None
        self.client = 0
        self.reqs = []
        self.started = self.ended = None
        self.out = None  # ("ok", value) or ("exc", e)
        self.cancelled = False
        self.phase = 0

    def desc(self):
        return f"call{self.i} {self.how} {self.kind}{self.args}"


class Run:
    def __init__(self, seed, replay=None, tracing=False):
        self.seed = seed
        self.w = pysim.W = pysim.World(seed, replay, tracing)
        self.viols, self.faults, self.judged = [], {}, {}
        self.reqs = []
        self.n = 0
        self.aborted = ""

    def violate(self, cls, msg):
        if len(self.viols) < 20:
            self.viols.append((cls, msg))

    def fault(self, k):
        self.faults[k] = self.faults.get(k, 0) + 1

    def judge(self, k):
        self.judged[k] = self.judged.get(k, 0) + 1

    # -- the simulated network and API
    def network(self, address, url, reqtype, body, timeout):
        w = self.w
        w.yield_()
        call = CALL.get()
        n = len(self.reqs)
        me = w.cur
        method = url.rpartition("/")[2]
        rec = {"n": n, "call": call, "url": address + url, "method": method, "type": reqtype, "thread": me.name, "seq": w.seq, "out": None, "done": None}
        self.reqs.append(rec)
        msgs, rpcs = SCHEMA
        if method not in rpcs:
            rec["bad"] = "unknown method"
            raise stubs.TwirpServerException(code=stubs.Errors.BadRoute, message=f"no handler for path {url}")
        it, ot = rpcs[method]
        try:
            rec["req"] = stubs.decode(msgs[it], body)
        except Exception as e:
            rec["bad"] = f"undecodable request: {e}"
        w.event(f"request {n} {method} {rec.get('req')} of call {call.i if call else '-'}")
        if me.is_loop and me.in_loop and (call is None or call.how == "async"):
            self.violate("loop-thread", f"request {n} ({method}) is made on the event loop's thread{' by ' + call.desc() if call else ''}")
        # how long it takes and what becomes of it
        kind = w.choose("net", 100)
        if not self.faulty:
            kind = 0
        d = (0, w.choose("net", 40) * MS, w.choose("net", 2000) * MS, w.choose("net", 4500) * MS)[w.choose("net", 4)]
        out = None
        if kind < 50:
            out = None
        elif kind < 62:
            e = stubs.Errors.InvalidArgument
            out = stubs.TwirpServerException(code=e, message=f"invalid {n}")
            self.fault("invalid-argument")
        elif kind < 80:
            e = FAULT_CODES[w.choose("net", len(FAULT_CODES))]
            out = stubs.TwirpServerException(code=e, message=f"error {n}")
            self.fault("api-error")
        elif kind < 86:
            out = stubs.TwirpServerException(code=stubs.Errors.Unavailable, message=f"connection refused {n}")
            self.fault("connection-error")
        elif kind < 92:
            t = timeout if isinstance(timeout, (int, float)) and timeout > 0 else 5
            d = int(t * NS)
            out = stubs.TwirpServerException(code=stubs.Errors.DeadlineExceeded, message=f"timed out {n}")
            self.fault("timeout")
        elif kind < 96:
            out = ConnectionResetError(104, f"connection reset {n}")
            self.fault("connection-reset")
        else:
            out = [ValueError, KeyError, RuntimeError, OSError][w.choose("net", 4)](f"undecodable answer {n}")
            self.fault("bad-answer")
        w.sleep(d)
        w.yield_()
        if out is None:
            self.n += 1
            vals = {}
            flat = w.choose("val", 6) == 5
            base = (0, 1000, 70000, (1 << 31) + 5, (1 << 32) - 5000)[w.choose("val", 5)]
            for k, (name, (num, t)) in enumerate(sorted(msgs[ot].items(), key=lambda x: x[1][0])):
                if flat:
                    vals[name] = stubs.default(t)
                elif t == stubs.BOOL:
                    vals[name] = w.choose("val", 2) == 1
                elif t == stubs.STRING:
                    vals[name] = f"v{self.n}.{k}" + ("", "\u00e9\u20ac ", "x" * 40)[w.choose("val", 3)]
                elif t == stubs.FLOAT:
                    vals[name] = float((self.n * 16 + k) % 65536) / 2 - 20
                else:
                    vals[name] = base + self.n * 16 + k
            rec["out"] = ("ok", vals)
            b = stubs.encode(msgs[ot], vals)
        else:
            rec["out"] = ("exc", out)
        rec["done"] = w.event(f"request {n} ends: {rec['out']}")
        if call is not None:
            call.reqs.append(rec)
        else:
            self.anon = True
        if out is not None:
            raise out
        return b

    # -- the scenario
    def scenario(self):
        w = self.w
        c = lambda n: w.choose("cfg", n)
        self.faulty = c(4) != 0
        p = c(6)
        w.p_switch = (0.0, 0.02, 0.1, 0.3, 0.5, 0.9)[p]
        w.fine = c(3) == 2
        w.p_stall = (0, 0, 0.002, 0.02)[c(4)]
        self.workers = (12, 1, 2, 3, 4, 6, 8, 5)[c(8)]
        self.nclients = 1 + (0, 0, 1, 2)[c(4)]
        self.ctor = [("running", "explicit-outside", "explicit-inside", "explicit-other-loop", "explicit-thread")[c(5)] for _ in range(self.nclients)]
        n = 1 + c((4, 14)[c(2)])
        spread = (0, 5 * MS, 300 * MS, 3 * NS)[c(4)]
        few = None
        if c(3) == 2:
            few = [METHODS[c(len(METHODS))] for _ in range(1 + c(2))]
        self.calls = []
        for i in range(n):
            k = Call(i)
            k.kind = few[c(len(few))] if few else METHODS[c(len(METHODS))]
            k.client = c(self.nclients)
            k.how = "sync" if c(6) == 5 else "async"
            k.at = c(spread // MS + 1) * MS if spread else 0
            k.args, k.valid, k.exc = self.args(k.kind, c)
            if k.how == "async" and c(6) == 5:
                k.cancel = (c(3), c(2000) * MS)
            self.calls.append(k)
        # perhaps a second event loop with its own clients: after the first one, or beside it in another thread
        self.phases = 2 if c(4) == 3 else 1
        self.beside = c(2) == 1
        if self.phases == 2:
            m = 1 + c(2)
            self.ctor += [("running", "explicit-outside", "explicit-inside")[c(3)] for _ in range(m)]
            for i in range(n, n + 1 + c(5)):
                k = Call(i)
                k.phase = 1
                k.kind = few[c(len(few))] if few else METHODS[c(len(METHODS))]
                k.client = self.nclients + c(m)
                k.how = "sync" if c(6) == 5 else "async"
                k.at = c(spread // MS + 1) * MS if spread else 0
                k.args, k.valid, k.exc = self.args(k.kind, c)
                self.calls.append(k)
            self.fault("second-loop")

    def args(self, kind, c):
        bad = c(4) == 3
        if kind == "set_fan_speed":
            if bad:
                a = SPEEDS_BAD[c(len(SPEEDS_BAD))]
                return (a,), False, ("InvalidFanSpeed",)
            return (1 + c(4),), True, None
        if kind == "set_comfort_temperature":
            if bad:
                a = TEMPS_BAD[c(len(TEMPS_BAD))]
                return (a,), False, ("InvalidTemperature",) if a is None or isinstance(a, int) else None
            return (TEMPS_OK[c(len(TEMPS_OK))],), True, None
        if kind == "configure_fan_profile":
            p, d = 1 + c(4), PCT_OK[c(len(PCT_OK))]
            if not bad:
                return (p, d), True, None
            k = c(3)
            exc = ()
            if k != 1:
                p = SPEEDS_BAD[c(len(SPEEDS_BAD))]
                exc += ("InvalidFanSpeed",)
            if k != 0:
                d = PCT_BAD[c(len(PCT_BAD))]
                exc += ("InvalidDutyPercent",) if isinstance(d, int) else ("InvalidDutyPercent", "TypeError")
            if exc == ("InvalidDutyPercent", "TypeError"):
                exc = None
            return (p, d), False, exc
        return (), True, None

    # -- the run
    def execute(self):
        w = self.w
        main = w.adopt("loop")
        main.is_loop = True
        main.in_loop = False
        pysim.Task.in_loop = False
        self.loops = []
        try:
            self.scenario()
            mods = stubs.make_modules(self.network)
            mods.update(pysim.make_modules())
            self.loader = stubs.Loader(os.path.join(REPO, "python"), "comfo", mods, w.point_s, w.point_e)
            self.comfo = self.loader.load("comfo")
            w.on = True
            self.clients = [None] * len(self.ctor)
            if self.phases == 2 and self.beside:
                over = pysim.WaitQ(w)
                self.left = 1

                def body():
                    try:
                        me = w.cur
                        me.is_loop = True
                        self.phase(1)
                    except pysim.SimExit:
                        raise
                    except Exception as e:
                        self.broken(e)
                    finally:
                        me.in_loop = me.is_loop = False
                        asyncio.events._set_running_loop(None)
                    self.left = 0
                    over.wake_all()

                w.spawn("loop2", body)
                self.phase(0)
                if self.left:
                    main.is_loop = False
                    over.wait(w.now + 1000 * NS)
                    main.is_loop = True
                if self.left:
                    self.violate("stuck", f"the second event loop does not end: {self.open_calls()}")
            else:
                for p in range(self.phases):
                    self.phase(p)
        except pysim.SimExit:
            pass
        except Exception as e:
            self.broken(e)
        main.in_loop = False
        w.end()
        for loop in self.loops:
            self.discard(loop)
        asyncio.events._set_running_loop(None)
        if w.stuck:
            self.violate("stuck", f"{w.stuck}: {self.open_calls()}")
        if not self.aborted:
            self.oracle()

    def broken(self, e):
        if self.w.stuck is None:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            if any(f.filename.startswith(REPO) for f in tb):
                self.violate("crash", f"{type(e).__name__}: {e} ({tb[-1].filename}:{tb[-1].lineno})")
            else:
                self.aborted = f"{type(e).__name__}: {e} at {tb[-1].filename}:{tb[-1].lineno}"

    def discard(self, loop):
        try:
            if loop._thread_id is None:
                loop._ready.clear()
                loop._scheduled.clear()
                loop.close()
        except Exception:
            pass

    def phase(self, p):
        """One event loop, its clients and their calls."""
        w = self.w
        pool = pysim.Executor(self.workers)
        loop = pysim.Loop(pool)
        loop.set_exception_handler(lambda l, ctx: None)
        self.loops.append(loop)
        mine = [(i, how) for i, how in enumerate(self.ctor) if (i >= self.nclients) == (p == 1)]
        for i, how in mine:
            host = f"unit{i}.example"
            if how == "explicit-outside":
                self.clients[i] = self.comfo.Comfo(host, loop=loop)
            elif how == "explicit-other-loop":
                other = pysim.Loop(pool)

                async def ctor():
                    return self.comfo.Comfo(host, loop=loop)

                self.clients[i] = other.run_until_complete(ctor())
                other.close()
            elif how == "explicit-thread":
                done = pysim.WaitQ(w)

                def body():
                    self.clients[i] = self.comfo.Comfo(host, loop=loop)
                    done.wake_all()

                w.spawn("ctor", body)
                if self.clients[i] is None:
                    done.wait(w.now + 100 * NS)
            w.event(f"client {i} constructed: {how}")
        w.cur.in_loop = True
        loop.run_until_complete(self.main(p, loop, mine))
        w.cur.in_loop = False
        self.discard(loop)
        w.event(f"loop {p} ended")

    def open_calls(self):
        return [c.desc() for c in getattr(self, "calls", []) if c.started and not c.ended]

    async def main(self, p, loop, mine):
        w = self.w
        for i, how in mine:
            if how == "running":
                self.clients[i] = self.comfo.Comfo(f"unit{i}.example")
            elif how == "explicit-inside":
                self.clients[i] = self.comfo.Comfo(f"unit{i}.example", loop=loop)
        stop = False
        late = 0
        calls = [k for k in self.calls if k.phase == p]

        async def heart():
            nonlocal late
            while not stop:
                due = w.now + 20 * MS
                await asyncio.sleep(0.02)
                late = max(late, w.now - due)

        hb = asyncio.ensure_future(heart())
        ts = []
        alive = []
        for k in calls:
            if k.how == "async":
                ctx = contextvars.copy_context()
                ctx.run(CALL.set, k)
                ts.append(loop.create_task(self.async_call(k), context=ctx))
            else:
                alive.append(w.spawn(f"client-thread{k.i}", lambda k=k: self.sync_call(k)))
        limit = 60 * NS + len(calls) * 6 * NS
        end = w.now + limit
        while w.now < end and (any(not t.done() for t in ts) or any(t.state != "done" for t in alive)):
            await asyncio.sleep(0.05)
        stop = True
        for k in calls:
            if k.started and not k.ended:
                self.violate("lost", f"{k.desc()} has not completed {limit / NS:.0f}s after the start (its requests: {[r['out'] for r in k.reqs]})")
        for t in ts:
            if not t.done():
                t.cancel()
        await asyncio.sleep(0.05)
        if late > MS:
            self.violate("loop-blocked", f"a timer of the event loop ran {late / NS:.3f}s late")
        self.judge("timers")
        hb.cancel()

    async def async_call(self, k):
        w = self.w
        await asyncio.sleep(k.at / NS)
        k.started = w.event(f"start {k.desc()}")
        f = getattr(self.clients[k.client], "async_" + k.kind)
        try:
            if k.cancel is None:
                v = await f(*k.args)
            else:
                how, d = k.cancel
                t = asyncio.current_task()

                def cancel():
                    if k.ended is None:
                        k.cancelled = True
                        self.fault("cancel")
                        w.event(f"cancel {k.desc()}")
                        t.cancel()

                asyncio.get_running_loop().call_later((0, d / NS / 50, d / NS)[how], cancel)
                v = await f(*k.args)
            k.out = ("ok", v)
        except BaseException as e:
            if isinstance(e, (pysim.SimExit, GeneratorExit)):
                raise
            k.out = ("exc", e)
        k.ended = w.event(f"end {k.desc()}: {show(k.out)}")

    def sync_call(self, k):
        CALL.set(k)
        w = self.w
        if k.at:
            w.sleep(k.at)
        k.started = w.event(f"start {k.desc()}")
        try:
            k.out = ("ok", getattr(self.clients[k.client], k.kind)(*k.args))
        except pysim.SimExit:
            raise
        except BaseException as e:
            k.out = ("exc", e)
        k.ended = w.event(f"end {k.desc()}: {show(k.out)}")

    # -- the oracle
    def oracle(self):
        self.owner = {}
        anon = [r for r in self.reqs if r["call"] is None and r["out"] is not None]
        for k in self.calls:
            if k.ended is None:
                continue
            self.judge(k.how)
            mine = [r for r in self.reqs if r["call"] is k]
            d = k.desc()
            if not k.valid:
                if mine:
                    self.violate("invalid", f"{d}: a request was made ({mine[0]['method']} {mine[0].get('req')}) although the arguments are invalid")
                elif k.out[0] == "ok":
                    self.violate("invalid", f"{d}: returned {k.out[1]!r} although the arguments are invalid")
                elif isinstance(k.out[1], asyncio.CancelledError):
                    if not k.cancelled:
                        self.violate("cancelled", f"{d} was cancelled by nobody")
                elif k.exc and type(k.out[1]).__name__ not in k.exc:
                    self.violate("invalid", f"{d}: raised {k.out[1]!r}, expected {' or '.join(k.exc)}")
                self.judge("refused")
                continue
            if k.out[0] == "exc" and isinstance(k.out[1], asyncio.CancelledError) and k.cancelled:
                if len(mine) > 1:
                    self.violate("requests", f"{d}: {len(mine)} requests were made")
                for r in mine:
                    self.check_request(k, r)
                continue
            if not mine:  # perhaps made by a helper thread of the client
                for r in anon:
                    if r["n"] not in self.owner and r["seq"] >= k.started and r["done"] < k.ended and self.same(k, r) is None:
                        mine = [r]
                        self.owner[r["n"]] = k
                        break
            if len(mine) != 1:
                if not mine and k.out[0] == "exc":
                    self.violate("requests", f"{d}: raised {k.out[1]!r} without a request")
                else:
                    self.violate("requests", f"{d}: {len(mine)} requests were made, and it ended with {show(k.out)}")
                continue
            r = mine[0]
            self.check_request(k, r)
            if r["out"] is None:
                self.violate("early", f"{d} ended with {show(k.out)} before its request had")
                continue
            if r["done"] > k.ended:
                self.violate("early", f"{d} ended with {show(k.out)} before its request had")
                continue
            m = self.same(k, r)
            if m:
                self.violate("outcome", f"{d}: {m}")

    def check_request(self, k, r):
        if "bad" in r:
            self.violate("request", f"{k.desc()}: {r['bad']} ({r['url']})")
            return
        want, fields = self.expected(k)
        url = f"http://unit{k.client}.example:3094/twirp/comfo.api.Comfo/{want}"
        if r["url"] != url:
            self.violate("request", f"{k.desc()}: request to {r['url']} instead of {url}")
        elif r["req"] != fields:
            self.violate("request", f"{k.desc()}: request {r['req']} instead of {fields}")

    def expected(self, k):
        if k.kind == "ping":
            return "GetBootInfo", {}
        if k.kind in GETTERS:
            return GETTERS[k.kind][0], {}
        if k.kind == "set_fan_speed":
            return "SetFanSpeed", {"Abs": k.args[0], "Rel": False}
        if k.kind == "increase_fan_speed":
            return "SetFanSpeed", {"Abs": 0, "Rel": True}
        if k.kind == "decrease_fan_speed":
            return "SetFanSpeed", {"Abs": 0, "Rel": False}
        if k.kind == "set_comfort_temperature":
            return "SetComfortTemp", {"ComfortTemp": k.args[0]}
        return "SetFanProfile", {"Mode": k.args[0], "TargetSpeed": k.args[1]}

    def same(self, k, r):
        """None if the outcome of call k is the one of request r, otherwise what is wrong."""
        kind, v = r["out"]
        got = k.out
        if kind == "exc":
            if k.kind in ("increase_fan_speed", "decrease_fan_speed") and isinstance(v, stubs.TwirpServerException) and v.code is stubs.Errors.InvalidArgument:
                self.judge("step-refused")
                if got[0] != "ok" or got[1] is not False:
                    return f"ended with {show(got)} although the step was refused as out of range"
                return None
            self.judge("failure")
            if got[0] != "exc":
                return f"returned {got[1]!r} although its request failed with {v!r}"
            g = got[1]
            if g is v:
                return None
            if type(g) is type(v) and str(g) == str(v) and getattr(g, "code", None) is getattr(v, "code", None):
                return None
            return f"raised {g!r} although its request failed with {v!r}"
        self.judge("success")
        if got[0] != "ok":
            return f"raised {got[1]!r} although the API answered {v}"
        g = got[1]
        if k.kind == "ping":
            return None if g is True else f"returned {g!r} although the API answered"
        if k.kind in GETTERS:
            for name, x in v.items():
                try:
                    y = getattr(g, name)
                except AttributeError:
                    return f"the result lacks {name}"
                if y != x or isinstance(y, bool) != isinstance(x, bool):
                    return f"{name} is {y!r}, but the API answered {x!r}"
            return None
        if g is not v["Modified"]:
            return f"returned {g!r}, but the API answered Modified={v['Modified']}"
        return None


def show(o):
    if o[0] == "ok":
        v = o[1]
        return "value " + (repr(vars(v)) if hasattr(v, "__dict__") else repr(v))
    e = o[1]
    return f"{type(e).__name__}({getattr(e, 'code', '')}, {e})"


SCHEMA = None


def setup():
    global SCHEMA
    logging.disable(logging.CRITICAL)
    SCHEMA = stubs.proto_schema(os.path.join(REPO, "rpc", "comfo", "comfo.proto"))
    pysim.patch_process()
    import warnings
    warnings.simplefilter("ignore")
    gc.disable()


def run_seed(seed, i):
    return int.from_bytes(hashlib.sha256(f"{seed}/C19/{i}".encode()).digest()[:8], "big")


def one(seed, replay=None, tracing=False):
    r = Run(seed, replay, tracing)
    r.execute()
    gc.collect(0)
    return r


def worker(q, seed, first, stride, count, wall):
    setup()
    end = realtime.monotonic() + wall
    n = 0
    agg = None
    for i in range(first, count, stride):
        if realtime.monotonic() > end:
            break
        s = run_seed(seed, i)
        r = one(s, tracing=i < 3)
        n += 1
        if n % 200 == 0:
            gc.collect()
        w = r.w
        q.put((i, s, w.hash, w.switch_hash, w.switches, w.preempts, w.steps, w.now, len(r.calls) if hasattr(r, "calls") else 0, len(r.reqs),
               r.faults, r.judged, dict({"thread-stalled": w.stalls} if w.stalls else {}), r.viols, r.aborted, w.trace[:60] if i < 3 else None))
        if r.viols:
            break
    q.put(None)


def size(c):
    return len(c["sched"]) + len(c["stall"]) + sum(1 for s in c["streams"].values() for v in s if v)


def minimise(seed, rec, cls, budget):
    end = realtime.monotonic() + budget
    best = rec
    tries = 0

    def attempt(c):
        nonlocal best, tries
        if realtime.monotonic() > end:
            return False
        tries += 1
        r = one(seed, c)
        if not any(v[0] == cls for v in r.viols):
            return False
        b = r.w.recorded()
        for s in list(b["streams"]):
            l = b["streams"][s]
            while l and l[-1] == 0:
                l.pop()
        best = b
        return True

    cp = lambda c: json.loads(json.dumps(c))
    for _ in range(3):
        before = size(best)
        for key in ("sched", "stall"):
            n = len(best[key])
            while n >= 1:
                at = 0
                while at < len(best[key]):
                    c = cp(best)
                    del c[key][at:at + n]
                    if not attempt(c):
                        at += n
                n //= 2
        for s in sorted(best["streams"]):
            n = len(best["streams"].get(s, ()))
            while n >= 1:
                at = 0
                while at < len(best["streams"].get(s, ())):
                    c = cp(best)
                    l = c["streams"][s]
                    if any(l[at:at + n]):
                        l[at:at + n] = [0] * len(l[at:at + n])
                        attempt(c)
                    at += n
                n //= 2
        if size(best) == before:
            break
    return best, tries


def replay_file(path, quiet=False):
    setup()
    f = json.load(open(path))
    r = one(f["seed"], f.get("choices"), True)
    for l in r.w.trace:
        print("   ", l)
    v = [v for v in r.viols if v[0] == f["violation"]["class"]]
    same = str('%016x' % r.w.hash == f.get('hash')).lower()
    if v:
        print(f"reproduced (identical execution: {same}): {v[0][0]}: {v[0][1]}")
        return 1
    print("not reproduced")
    return 0


def check(a):
    start = realtime.monotonic()
    count = a.count or (THOROUGH if a.tier == "thorough" else QUICK)
    wall = 600 if a.tier == "thorough" else 240
    nw = a.workers or min(8, os.cpu_count() or 1)
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    ps = [ctx.Process(target=worker, args=(q, a.seed, k, nw, count, wall), daemon=True) for k in range(nw)]
    for p in ps:
        p.start()
    live, fail, broken = nw, None, ""
    T = dict(runs=0, calls=0, reqs=0, sim=0, switches=0, preempts=0, steps=0, aborted=0)
    faults, judged, aborts = {}, {}, {}
    hashes, sws, nth, samples = set(), set(), set(), []

    def add(d, s):
        for k, v in s.items():
            d[k] = d.get(k, 0) + v

    import queue
    while live and fail is None:
        try:
            m = q.get(timeout=60)
        except queue.Empty:
            broken = "no run finished within 60s"
            break
        if m is None:
            live -= 1
            continue
        i, s, h, sh, sw, pre, st, sim, calls, reqs, fl, jd, fl2, viols, ab, trace = m
        T["runs"] += 1
        T["calls"] += calls
        T["reqs"] += reqs
        T["sim"] += sim
        T["switches"] += sw
        T["preempts"] += pre
        T["steps"] += st
        add(faults, fl)
        add(faults, fl2)
        add(judged, jd)
        hashes.add(h)
        sws.add(sh)
        if jd.get("success", 0) + jd.get("failure", 0) + jd.get("step-refused", 0):
            nth.add(h)
        if ab:
            T["aborted"] += 1
            if len(aborts) < 20 or ab in aborts:
                aborts[ab] = aborts.get(ab, 0) + 1
        if trace and len(samples) < 3:
            samples.append({"run": i, "seed": s, "what": trace, "faults": fl, "judged": jd})
        if viols:
            fail = m
    for p in ps:
        p.kill()
    for p in ps:
        p.join()
    code, viols = 0, 0
    if fail is not None:
        viols = 1
        code = report(a, fail[0], fail[1], fail[13])
    elif broken:
        print("check broken:", broken, file=sys.stderr)
        code = 2
    elif T["runs"] == 0 or T["aborted"] * 2 > T["runs"]:
        print(f"check gives no answer: {T['aborted']} of {T['runs']} runs could not be judged: {aborts}", file=sys.stderr)
        code = 2
    el = realtime.monotonic() - start
    ev = {
        "property": "C19", "tier": a.tier, "seed": a.seed, "level": "exploration", "wall_s": el, "violations": viols,
        "assumptions": ["the stand-ins for twirp 0.0.3 and google.protobuf behave as those packages do (neither is installed here)",
                        "a thread switches only at the client's statements, calls and loads of attributes and items, at waiting points and at the network, which is where its shared state can be seen"],
        "coverage": {
            "evaluations": T["runs"], "distinct_nontrivial": len(nth),
            "rule": "each run draws clients, ways of constructing them, calls with arguments, the executor's size, delays, API errors, transport failures, cancellations and the schedule from its seed; non-trivial: at least one call that reached the API was judged; distinct: by the hash over all events",
            "samples": samples or [{"run": 0, "seed": run_seed(a.seed, 0)}],
            "simulated_runs": T["runs"], "planned_runs": count, "runs_per_hour": T["runs"] / el * 3600, "seeds": f"run seeds derived from VERIF_SEED={a.seed}, one per run",
            "simulated_seconds": T["sim"] / NS, "operations": T["calls"], "requests": T["reqs"], "judged": judged, "aborted_runs": T["aborted"], "abort_reasons": aborts,
            "faults_injected": faults, "distinct_executions": len(hashes), "distinct_interleavings": len(sws),
            "interleaving_measure": "hash over the sequence of (task, step) at every context switch",
            "context_switches": T["switches"], "preemptions": T["preempts"], "yield_points": T["steps"],
            "real_components": ["python/comfo/*.py (client, types, exceptions, generated Twirp client and protobuf descriptors)", "asyncio's event loop core, tasks and futures, concurrent.futures.Future"],
            "stub_components": ["clock, selector, thread pool and thread scheduling", "twirp and google.protobuf packages", "HTTP transport and the API server"],
            "workers": nw,
        },
    }
    os.makedirs(os.path.join(a.verif, "evidence"), exist_ok=True)
    with open(os.path.join(a.verif, "evidence", "C19.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print(f"C19: {T['runs']} runs ({len(hashes)} distinct, {len(nth)} judged non-trivial, {T['aborted']} aborted) in {el:.1f}s, {T['sim'] / NS:.0f}s simulated, {len(sws)} interleavings, faults {faults}")
    return code


def report(a, index, seed, viols):
    setup()
    d = os.path.join(a.verif, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"C19-{a.seed}-{index}.json")
    cls = viols[0][0]

    def unrepeated():
        # the code under test did something whose outcome the simulator does not decide;
        # what was seen is a violation all the same
        with open(path, "w") as f:
            json.dump({"property": "C19", "seed": seed, "index": index, "violation": {"class": cls, "message": viols[0][1]}}, f, indent=1)
        print(f"{cls}: {viols[0][1]}")
        print(f"run seed {seed} (index {index}), NOT REPRODUCED from its seed: the code depends on something outside the simulation")
        print(f"VIOLATION property=C19 replay={path}")
        return 1

    r = one(seed)
    if not any(v[0] == cls for v in r.viols):
        return unrepeated()
    rec = json.loads(json.dumps(r.w.recorded()))
    full = size(rec)
    rr = one(seed, rec)
    if rr.w.hash != r.w.hash or not any(v[0] == cls for v in rr.viols):
        return unrepeated()
    best, tries = minimise(seed, rec, cls, 60)
    best = json.loads(json.dumps(best))
    fin = one(seed, best, True)
    v = next(v for v in fin.viols if v[0] == cls)
    with open(path, "w") as f:
        json.dump({"property": "C19", "seed": seed, "index": index, "violation": {"class": cls, "message": v[1]}, "hash": "%016x" % fin.w.hash,
                   "minimised": f"{full} recorded decisions reduced to {size(best)} in {tries} replays", "faults": fin.faults, "choices": best, "trace": fin.w.trace}, f, indent=1)
    o = subprocess.run([sys.executable, os.path.abspath(__file__), "replay", path], capture_output=True, text=True).stdout
    if "reproduced (identical execution: true)" not in o:
        return unrepeated()
    print(f"{cls}: {v[1]}")
    print(f"run seed {seed} (index {index}), {full} recorded decisions reduced to {size(best)} in {tries} replays")
    print(f"VIOLATION property=C19 replay={path}")
    return 1


def determinism(a):
    setup()
    bad = 0
    n = a.count or 300
    for i in range(n):
        s = run_seed(a.seed, i)
        x, y = one(s, tracing=i % 2 == 0), one(s)
        z = one(s, json.loads(json.dumps(x.w.recorded())))
        if len({x.w.hash, y.w.hash, z.w.hash}) > 1:
            bad += 1
            print("NOT DETERMINISTIC run", i, x.w.hash, y.w.hash, z.w.hash)
    print(f"determinism: {n} runs of C19 repeated and replayed, {bad} differ")
    return 1 if bad else 0


def main():
    p = argparse.ArgumentParser()
    p.add_argument("cmd", choices=["check", "replay", "determinism", "run"])
    p.add_argument("file", nargs="?")
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--tier", default="quick")
    p.add_argument("--count", type=int, default=0)
    p.add_argument("--workers", type=int, default=0)
    p.add_argument("--index", type=int, default=0)
    p.add_argument("--verif", default="/verif")
    a = p.parse_args()
    if a.cmd == "check":
        return check(a)
    if a.cmd == "determinism":
        return determinism(a)
    if a.cmd == "run":
        setup()
        r = one(run_seed(a.seed, a.index), tracing=True)
        print("\n".join(r.w.trace), r.viols, r.aborted)
        return 0
    return replay_file(a.file)


if __name__ == "__main__":
    sys.exit(main())

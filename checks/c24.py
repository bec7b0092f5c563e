"""Symbolic execution of the reconnection loop, of deliberate closes and of API.probe on a virtual
clock, with failures at every stage and symbolic times of loss, shutdown and answer."""
import asyncio

import serial

from checks.env import AF, AREQ, CONFIG, SRSP, SYS, UTIL, ZDO, Adapter, AppRecorder, Call, FrameRecorder, World, add_device, frame_bytes, mt_frame, new_api, new_app, version_frame, zdo_request
from checks.nv import NvAdapter, configure, stored
from sx.case import Case

BOUNDS = "connection lost with or without an error, 0 to 3 (thorough: 5) and 12, 25, 60 failing attempts before success, each one of: port cannot be opened (13 error types), any of 8 commands unanswered, a failing status, an unknown adapter type, no coordinator confirmation, connection lost again at a symbolic time; further losses after success (5, thorough 9 in a row); shutdown at a symbolic time within the whole sequence; probe: symbolic answer time, 5 open errors, junk or foreign answers, cancellation at a symbolic time"
ASSUMPTIONS = ["the port behaves as pyserial-asyncio documents: after a loss or close nothing is written or received and connection_lost is called once"]

MS = 1000
S = 1000 * MS
NET = {"channels": 0x800, "pan": 0x1234, "ext": bytes([1] * 8), "key": bytes(range(16))}


class PortError(serial.SerialException):
    pass


class Odd(Exception):
    pass


OPEN_ERRORS = {"serial": PortError("x"), "os": FileNotFoundError("y"), "runtime": RuntimeError("z"),
               "timeout": asyncio.TimeoutError(), "value": ValueError("v"),
               "assertion": AssertionError(), "attribute": AttributeError("a"), "type": TypeError("t"), "key": KeyError("k"),
               "eof": EOFError(), "other": Odd(), "command": None, "delivery": None}
PLAIN = ["serial", "os", "runtime", "timeout", "value"]


def open_error(name):
    if name == "command":
        from zigpy_cc.exception import CommandError
        return CommandError(2, "c")
    if name == "delivery":
        from zigpy.exceptions import DeliveryError
        return DeliveryError("d")
    return OPEN_ERRORS[name]


SILENT = {"ping": 6, "version": 6, "osalNvRead": 6, "getDeviceInfo": 6, "extFindGroup": 6, "startupFromApp": 20,
          "register": 6}
STATUS = ["getDeviceInfo", "register"]


class Scene:
    def __init__(self, ctx, product, failures):
        self.ctx = ctx
        self.failures = failures
        self.ad = NvAdapter(ctx, product)
        self.ad.nv = stored(NET, product)
        self.w = World(ctx, self.ad)
        self.w.open_hook = self.opening
        self.app, self.log = new_app(ctx)
        configure(self.app, NET)
        self.attempt = None  # index of the failing attempt in progress
        self.failed = []  # when each attempt failed
        self.ad.fault = self.fault
        self.ad.boot_frames = self.boot
        self.status = ctx.int("status", 10, 255)
        self.product = product
        self.ad.version = None
        self.ad.on(SYS, "version", self.ad.guarded(SYS, "version", self.version))

    def mode(self):
        n = len(self.w.opens) - 2
        return self.failures[n] if 0 <= n < len(self.failures) else "ok"

    def opening(self, n):
        ctx = self.ctx
        for tr in self.w.transports:
            ctx.check(tr.ended, "opened-while-the-old-port-is-open")
        m = self.mode()
        self.ad.state = 0 if m in ("silent-startupFromApp", "unconfirmed") else 9
        self.ad.active = [1] if m.endswith("-register") else [1, 2, 3, 4, 5, 6, 8, 11, 110, 12, 13, 47, 242]
        self.hit = False
        if m.startswith("open-"):
            self.failed.append(ctx.loop.now)
            return open_error(m[5:])
        if m == "lost":
            # drops while the attempt is under way
            k = len(self.w.transports)
            self.lost_after = ctx.int("lost%d" % n, 0, 1300 * MS)

            def drop():
                tr = self.w.transports[k]
                tr.drop(PortError("again") if ctx.choose("lost-error%d" % n, [True, False]) else None)
            ctx.loop.call_at_us(ctx.loop.now + self.lost_after, drop)
            self.failed.append(("lost", ctx.loop.now, self.lost_after))
        return None

    def fault(self, step, name):
        m = self.mode()
        if self.hit:
            return None
        if m == "silent-" + name:
            self.hit = True
            self.failed.append(self.ctx.loop.now + SILENT[name] * S)
            return "silent"
        if m == "status-" + name:
            self.hit = True
            self.failed.append(self.ctx.loop.now + self.ad.delay)
            return ("status", self.status)
        return None

    def version(self, d):
        p = self.product
        if self.mode() == "unknown":
            p = self.ctx.int("type%d" % len(self.w.opens), 3, 255)
            self.failed.append(self.ctx.loop.now + self.ad.delay)
        return [version_frame(p)]

    def boot(self):
        if self.mode() == "unconfirmed":
            self.failed.append(self.ctx.loop.now + 60 * S)
            return [mt_frame(SRSP, ZDO, "startupFromApp", {"status": 0})]
        return [mt_frame(SRSP, ZDO, "startupFromApp", {"status": 0})] + self.ad.started()

    def begin(self):
        self.ctx.run(self.app.startup(True))
        self.ctx.check(len(self.w.opens) == 1, "start-up")
        self.ctx.loop.run_for(500 * MS)


def reconnecting(ctx, product, failures, busy=False, losses=2):
    s = Scene(ctx, product, failures)
    w, app, loop = s.w, s.app, ctx.loop
    s.begin()
    if busy:
        dev = add_device(ctx, app, [1], 0x1234)
        w.adapter.default = False
        calls = [Call(ctx, app.request(dev, 0x104, 6, 1, 1, 5, b"ab")), Call(ctx, app.permit_ncp(10)),
                 Call(ctx, app.broadcast(0x104, 6, 1, 1, 0, 30, 1, b"ab"))]
        loop.run_for(ctx.choose("busy", [0, 100 * MS]))
        w.adapter.default = True
    for loss in range(losses):
        at = loop.now
        n0 = len(w.opens)
        w.tr.drop(PortError("lost") if ctx.choose("error%d" % loss, [True, False]) else None)
        fails = failures if loss == 0 else []
        loop.run_for(sum([90 for f in fails]) * S + 20 * S)
        got = [o["time"] for o in w.opens[n0:]]
        lab = ",".join(fails)
        ctx.check(len(got) == len(fails) + 1, "number-of-attempts:" + lab, len(got))
        ctx.check(ctx.all([got[0] >= at + 5 * S, got[0] <= at + 5 * S + 10 * MS]), "first-attempt-after-5-s:" + lab)
        for i in range(len(fails)):
            f = s.failed[i]
            if isinstance(f, tuple):
                t = f[1] + f[2]
                # noticed at once, or by the first command left unanswered after the opening pause
                ctx.check(ctx.any([ctx.all([got[i + 1] >= t + 5 * S, got[i + 1] <= t + 5 * S + 10 * MS]),
                                   ctx.all([got[i + 1] >= t + 5 * S, got[i + 1] <= f[1] + 12 * S + 100 * MS])]),
                          "5-s-after-the-loss:" + lab)
            else:
                ctx.check(ctx.all([got[i + 1] >= f + 5 * S, got[i + 1] <= f + 5 * S + 10 * MS]),
                          "5-s-after-the-failure:" + lab)
        ctx.check(not w.tr.ended, "last-port-not-open")
        ctx.check(all([t.ended for t in w.transports[:-1]]), "ports-left-open")
        loop.run_for(100 * S)
        ctx.check(len(w.opens) == n0 + len(fails) + 1, "does-not-stop-trying:" + lab)
        dev = add_device(ctx, app, [1], 0x1234)
        call = Call(ctx, app.request(dev, 0x104, 6, 1, 1, 5, b"ab"))
        loop.run_for(1 * S)
        ctx.check(call.kind == "ok" and call.value[0] == 0, "not-usable-afterwards:" + lab)
    ctx.cover("reconnected")


def shut(ctx, product, failures, end):
    """Shutdown at any time of the reconnection: nothing is opened any more, all is closed."""
    s = Scene(ctx, product, failures)
    w, app, loop = s.w, s.app, ctx.loop
    s.begin()
    w.tr.drop(PortError("lost"))
    at = ctx.int("shutdown", 0, end)
    done = []

    def down():
        done.append(len(w.opens))
        done.append(Call(ctx, app.shutdown()))
    loop.call_at_us(loop.now + at, down)
    loop.run_for(at + 1 * MS)
    loop.run_for(150 * S)
    ctx.check(done[1].kind == "ok", "shutdown-fails")
    ctx.check(len(w.opens) == done[0], "reconnects-after-shutdown")
    ctx.check(all([t.ended for t in w.transports]), "port-left-open")
    ctx.cover("shut-down")


def deliberate(ctx, what):
    """A close or shutdown while connected is no loss, whatever happens to the port then."""
    s = Scene(ctx, ctx.choose("product", [0, 1, 2]), [])
    w, app, loop = s.w, s.app, ctx.loop
    s.begin()
    loop.run_for(ctx.int("when", 0, 10 * S))
    tr = w.tr
    if what == "shutdown":
        loop.run(app.shutdown())
    elif what == "close":
        app._api.close()
    elif what == "dropped-with-close":
        # the port breaks, but before this is reported the application is shut down
        tr.drop(PortError("lost"))
        loop.run(app.shutdown())
    elif what == "twice":
        loop.run(app.shutdown())
        loop.run(app.shutdown())
    loop.run_for(100 * S)
    ctx.check(len(w.opens) == 1, "reconnects:" + what)
    ctx.check(tr.ended and tr.lost_reported == 1, "not-closed:" + what)
    if what == "shutdown":  # and it can be started again and then reconnects again
        ctx.run(app.startup(True))
        w.tr.drop(None)
        loop.run_for(30 * S)
        ctx.check(len(w.opens) == 3, "no-reconnection-after-restart")
    ctx.cover("closed")


def levels(ctx, level):
    """Losses are reported once, deliberate closes not, at every level."""
    for close in (False, True):
        rec = AppRecorder() if level == "api" else FrameRecorder()
        w = World(ctx, Adapter(ctx))
        if level == "api":
            from zigpy_cc.api import API
            x = ctx.run(API.new(rec, dict(CONFIG)))
        else:
            from zigpy_cc import uart
            x = ctx.run(uart.connect(dict(CONFIG), rec))
        ctx.loop.run_for(ctx.int("when%d" % close, 0, 5 * S))
        if close:
            x.close()
        else:
            w.tr.drop(PortError("x") if ctx.choose("error", [True, False]) else None)
        ctx.loop.run_for(10 * S)
        ctx.check(rec.lost == (0 if close else 1), "reported:%s" % close, rec.lost)
        ctx.check(w.tr.lost_reported == 1 and not w.tr.escaped and not ctx.loop.errors, "port")
    ctx.cover("done")


def probing(ctx, kind):
    from zigpy_cc.zigbee.application import ControllerApplication
    ad = Adapter(ctx)
    ad.default = False
    w = World(ctx, ad)
    t = {"asked": None, "answered": None}
    delay = ctx.int("delay", 0, 4 * S)
    late = ctx.choose("product", [0, 1, 2])

    def version(ct, d):
        t["asked"] = ctx.loop.now
        if kind == "silent":
            return []
        if kind == "junk":
            return [(delay, frame_bytes(SRSP, SYS, 2, b"\x02"))]
        if kind == "other":
            return [(delay, mt_frame(SRSP, SYS, "ping", {"capabilities": 1})),
                    (delay, frame_bytes(AREQ, SYS, 2, bytes(9)))]

        def answer():
            t["answered"] = ctx.loop.now
            w.tr.feed(version_frame(late))
        ctx.loop.call_at_us(ctx.loop.now + delay, answer)
        return []
    ad.on(SYS, "version", version)
    begin = ctx.loop.now
    if kind.startswith("open-"):
        err = open_error(kind[5:])
        w.open_hook = lambda n: err
    call = Call(ctx, ControllerApplication.probe({"path": "/dev/null"}))
    if kind == "cancelled":
        ctx.loop.call_at_us(begin + ctx.int("cancel", 0, 2100 * MS), call.cancel)
    if kind == "lost":
        ctx.loop.call_at_us(begin + ctx.int("lost", 0, 2100 * MS), lambda: w.tr.drop(PortError("x")))
    ctx.loop.run_for(2500 * MS)
    ctx.check(call.done, "probe-never-ends:" + kind)
    yes = call.kind == "ok" and call.value is True
    ctx.check(call.kind != "ok" or call.value is True or call.value is False, "no-answer:" + kind)
    answered = t["answered"] is not None
    if yes:
        ctx.check(answered and ctx.all([t["answered"] <= t["asked"] + 2 * S]), "true-without-answer:" + kind)
        ctx.check(ctx.all([t["answered"] >= t["asked"]]), "true-before-answer:" + kind)
        ctx.cover("true")
    else:
        ctx.cover("false")
        if kind == "answers":
            ctx.check(not answered or ctx.neg(ctx.any([t["answered"] < t["asked"] + 900 * MS])), "false-despite-answer")
            ctx.check(call.kind == "ok", "raises:" + kind)
    if kind in ("silent", "junk", "other", "open-serial", "open-timeout"):
        ctx.check(call.kind == "ok" and call.value is False, "not-false:" + kind)
    ctx.loop.run_for(100 * S)
    ctx.check(all([x.ended for x in w.transports]), "port-left-open:" + kind)
    ctx.check(len(w.opens) == 1, "opened-again:" + kind)
    ctx.observe("answer", yes)


def cases(tier):
    q = tier == "quick"
    out = []
    modes = (["open-" + x for x in PLAIN] + ["silent-" + x for x in SILENT] + ["status-" + x for x in STATUS]
             + ["unknown", "unconfirmed", "lost"])
    for p in (0, 1, 2):
        out.append(Case("reconnect-%d-at-once" % p, reconnecting, ["reconnected"], product=p, failures=[]))
    for i, m in enumerate(modes):
        out.append(Case("reconnect-%s" % m, reconnecting, ["reconnected"], product=i % 3, failures=[m],
                        busy=m != "lost" or not q, losses=1 if m == "lost" and q else 2))
        m2 = modes[(i * 5 + 3) % len(modes)]
        m3 = "lost" if not q or i % 4 == 0 else modes[(i * 3 + 1) % len(modes)]
        f = [m, m2, m3] if not q or "lost" not in (m, m2, m3) else [x for x in (m, m2) if x != "lost"] + ["lost"]
        out.append(Case("reconnect-" + ",".join(f), reconnecting, ["reconnected"], product=(i + 1) % 3,
                        failures=f, losses=1 if q and "lost" in f else 2))
        if not q:
            for m3 in modes:
                out.append(Case("reconnect-%s,%s,%s,%s,open-os" % (m, m3, m2, m), reconnecting, ["reconnected"],
                                product=i % 3, failures=[m, m3, m2, m, "open-os"]))
    for i, m in enumerate(modes):
        out.append(Case("shutdown-%s" % m, shut, ["shut-down"], product=i % 3, failures=[m, "open-serial"],
                        end=13 * S if q else 80 * S))
    opens = ["open-" + x for x in OPEN_ERRORS]
    for i, m in enumerate(opens[len(PLAIN):]):
        out.append(Case("reconnect-%s" % m, reconnecting, ["reconnected"], product=i % 3, failures=[m], losses=1))
    for n, fs in ((12, opens), (60, ["open-os"]), (25, ["silent-ping", "open-serial"])):
        out.append(Case("reconnect-%d-%s" % (n, fs[0]), reconnecting, ["reconnected"], product=n % 3,
                        failures=[fs[i % len(fs)] for i in range(n)], losses=1))
    out.append(Case("reconnect-lost-often", reconnecting, ["reconnected"], product=0, failures=[], losses=5 if q else 9))
    out.append(Case("shutdown-ok", shut, ["shut-down"], product=0, failures=[], end=20 * S))
    for x in ("shutdown", "close", "dropped-with-close", "twice"):
        out.append(Case("deliberate-" + x, deliberate, ["closed"], what=x))
    for x in ("api", "uart"):
        out.append(Case("reported-by-" + x, levels, ["done"], level=x))
    for k in ["answers", "silent", "junk", "other", "cancelled", "lost"] + ["open-" + x for x in PLAIN]:
        out.append(Case("probe-" + k, probing, ["true", "false"] if k in ("answers", "cancelled", "lost") else ["false"],
                        kind=k))
    return out

"""Symbolic execution of ControllerApplication.request / mrequest / broadcast / permit_ncp: a
monitor on the serial line counts the requests in progress; after every mix of outcomes a probe
measures how many slots are available."""
from checks.env import AF, BY_ID, BY_NAME, INT_SIZES, SREQ, SRSP, Call, add_device, mt_frame, started_app, zdo_request
from checks.history import aged
from sx.case import Case

BOUNDS = "limit 2 and 16; 1-2 (thorough: 3) earlier requests of every kind, each ending in one of: response, symbolic failing status, silence, cancellation at a symbolic time 0..7 s with a symbolic or missing response, content that cannot be encoded, failing port write, including requests ended while they wait for a slot, and single requests of every kind with arbitrary arguments; then limit+1 broadcasts at once; line monitor: 4 (thorough: 5) concurrent requests of every kind with symbolic response delays up to 0.5 s and issue times"
ASSUMPTIONS = ["the adapter does not answer a request after it timed out or was cancelled"]

MS = 1000
SETTLE = 200 * MS
KINDS = ["unicast", "group", "broadcast", "permit", "zdo"]
OUTCOMES = ["ok", "status", "silent", "cancel", "cancel-silent", "unencodable", "write"]
ZDO_KINDS = ["nwkAddrReq", "ieeeAddrReq", "nodeDescReq", "powerDescReq", "simpleDescReq", "activeEpReq", "matchDescReq",
             "bindReq", "unbindReq", "mgmtLqiReq", "mgmtRtgReq", "mgmtBindReq", "mgmtLeaveReq"]
LIMIT = {0: 2, 1: 16, 2: 2}


class Failing(OSError):
    pass


def make(ctx, app, dev, kind, i, bad=False, free=False, duration=60, reply=True):
    """A request; with `free` its arguments are arbitrary."""
    if free:
        prof, cl = ctx.int("profile", 1, 0xFFFF), ctx.u16("cluster")
        src, dst, tsn = ctx.byte("srcep"), ctx.byte("dstep"), ctx.byte("tsn")
        reply = ctx.choose("expect_reply", [True, False])
        data = ctx.bytes("data", ctx.choose("length", [0, 1, 3]))
        if kind == "unicast":
            return app.request(dev, prof, cl, src, dst, tsn, data, expect_reply=reply)
        if kind == "group":
            return app.mrequest(ctx.u16("group"), prof, cl, src, tsn, data)
        if kind == "broadcast":
            return app.broadcast(prof, cl, src, dst, 0, ctx.byte("radius"), tsn, data)
        if kind == "permit":
            return app.permit_ncp(ctx.int("duration", -2, 256))
        from checks.c13 import request_fields
        cl, body, _ = request_fields(ctx, ctx.choose("request", ZDO_KINDS), 1, 1)
        return app.request(dev, 0, cl, 0, 0, tsn, bytes([tsn]) + body, expect_reply=reply)
    cl = 0x10000 if bad else 6
    if kind == "unicast":
        return app.request(dev, 0x104, cl, 1, 1, i, b"ab", expect_reply=reply)
    if kind == "group":
        return app.mrequest(7, 0x104, cl, 1, i, b"ab")
    if kind == "broadcast":
        return app.broadcast(0x104, cl, 1, 1, 0, 30, i, b"ab")
    if kind == "permit":
        return app.permit_ncp(300 if bad else duration)
    return zdo_request(app, dev, "simpleDescRsp", i, b"" if bad else b"\x34\x12\x01", expect_reply=reply)


def released(ctx, product, steps, free=False):
    """After requests with these (kind, outcome) the whole number of slots is available."""
    app, log, ad, w = started_app(ctx, product)
    ad.default = False
    dev = add_device(ctx, app, [1], 0x1234)
    limit = LIMIT[product]
    now = {"plan": None}
    queue = []

    def host_frame(tr, ct, ss, cid, data):
        ad.log.append([ctx.loop.now, ct, ss, cid, data])
        if ct != SREQ or not queue:
            return
        i, outcome = queue.pop(0)
        if outcome == "write":
            raise Failing("write failed")
        if outcome in ("silent", "cancel-silent"):
            return

        def answer():
            if i in gone:
                return
            name = BY_ID[(ss, cid)]["name"]
            w.tr.feed(mt_frame(SRSP, ss, name, {"status": st.get(i, 0)}))
        ctx.loop.call_at_us(ctx.loop.now + delay.get(i, 1 * MS), answer)

    gone = set()
    st = {}
    delay = {}
    calls = {}
    for i, (kind, outcome) in enumerate(steps):
        if outcome == "status":
            st[i] = ctx.int("status%d" % i, 1, 255)
        if outcome == "cancel":
            delay[i] = ctx.int("delay%d" % i, 1, 5900 * MS)
    ad.host_frame = host_frame

    def cancel(i):
        if not calls[i].done:
            gone.add(i)
            if (i, steps[i][1]) in queue:
                queue.remove((i, steps[i][1]))
            calls[i].cancel()

    for i, (kind, outcome) in enumerate(steps):
        if outcome != "unencodable":
            queue.append((i, outcome))
        calls[i] = Call(ctx, make(ctx, app, dev, kind, i, outcome == "unencodable", free))
        if outcome in ("cancel", "cancel-silent"):
            ctx.loop.call_at_us(ctx.loop.now + ctx.int("cancel%d" % i, 0, 7000 * MS), cancel, i)
    ctx.loop.run_for((10 + 7 * len(steps)) * 1000 * MS)
    ctx.check(all([calls[i].done for i in calls]), "never-ends")
    for i, (kind, outcome) in enumerate(steps):
        if outcome == "ok" and not (free and kind == "permit"):
            ctx.check(calls[i].kind == "ok", "fails")
    # the probe
    ad.log.clear()
    queue.clear()
    times = []

    def immediate(tr, ct, ss, cid, data):
        times.append(ctx.loop.now)
        ctx.loop.call_at_us(ctx.loop.now + 1 * MS, w.tr.feed,
                            mt_frame(SRSP, ss, BY_ID[(ss, cid)]["name"], {"status": 0}))
    ad.host_frame = immediate
    lab = ",".join("%s-%s" % s for s in steps)
    start = ctx.loop.now
    probes = [Call(ctx, make(ctx, app, dev, "broadcast", i)) for i in range(limit + 1)]
    ctx.loop.run_for(190 * MS)
    ctx.check(len(times) == limit, "slots-available-afterwards:" + lab, len(times))
    ctx.loop.run_for(100 * MS)
    ctx.check(len(times) == limit + 1, "slot-not-freed-after-settling:" + lab)
    ctx.check(times[limit] >= times[0] + 1 * MS + SETTLE, "slot-freed-before-settling:" + lab)
    ctx.loop.run_for(1000 * MS)
    ctx.check(all([p.kind == "ok" for p in probes]), "probe-fails:" + lab)
    ctx.cover("done")


def transaction(name, data):
    at = 0
    for n, t in BY_NAME[(AF, name)]["request"]:
        if n == "transid":
            return int(data[at])
        at += 8 if t == "IEEEADDR" else INT_SIZES[t]


def monitor(ctx, product, kinds, symbolic, late, slowest=500):
    """At any time at most `limit` requests are in progress: each from its transmission to its
    response, group and broadcast ones also for the settling time; all of them are carried out."""
    app, log, ad, w = started_app(ctx, product)
    ad.default = False
    dev = add_device(ctx, app, [1], 0x1234)
    limit = LIMIT[product]
    n = len(kinds)
    delay = [ctx.int("delay%d" % i, 1, slowest * MS) if i in symbolic else 1 * MS for i in range(n)]
    st = [ctx.choose("status%d" % i, [0, 0xCD]) if i in symbolic else 0 for i in range(n)]
    running = {}  # position -> None while outstanding, else the time its slot is free again

    def host_frame(tr, ct, ss, cid, data):
        if ct != SREQ:
            return
        k = len(running)
        now = ctx.loop.now
        busy = 0
        for j in running:
            if running[j] is None or ctx.neg(ctx.any([now >= running[j]])):
                busy += 1
        ctx.check(busy < limit, "too-many-in-progress", busy)
        running[k] = None
        name = BY_ID[(ss, cid)]["name"]
        settle = ss == AF and kinds[transaction(name, data)] != "unicast"

        def answer():
            running[k] = ctx.loop.now + (SETTLE if settle and st[k] == 0 else 0)
            w.tr.feed(mt_frame(SRSP, ss, name, {"status": st[k]}))
        ctx.loop.call_at_us(now + delay[k], answer)

    ad.host_frame = host_frame
    calls = {}

    duration = ctx.int("duration", 0, 254) if "permit" in kinds else None

    reply = ctx.choose("expect_reply", [True, False]) if {"unicast", "zdo"} & set(kinds) else True

    def issue(i):
        calls[i] = Call(ctx, make(ctx, app, dev, kinds[i], i, duration=duration, reply=reply))
    base = ctx.loop.now
    for i in range(n):
        if i == n - 1 and late:
            ctx.loop.call_at_us(base + ctx.int("issue", 1, 1000 * MS), issue, i)
        else:
            issue(i)
    ctx.loop.run_for((2000 + 800 * n) * MS)
    ctx.check(len(calls) == n and all([calls[i].done for i in calls]), "never-ends")
    ctx.check(len(running) == n, "not-every-request-was-made")
    ctx.check(not w.tr.escaped, "escaped")
    ctx.observe("times", [calls[i].done_at for i in range(n)])
    ctx.cover("done")


def cases(tier):
    q = tier == "quick"
    out = []

    def rel(product, steps):
        out.append(Case("released-%d-%s" % (product, ",".join("%s-%s" % s for s in steps)), released, ["done"],
                        product=product, steps=steps))
    for k in KINDS:
        for o in ("ok", "status"):
            out.append(Case("any-content-%s-%s" % (k, o), released, ["done"], product=0, steps=[(k, o)], free=True))
        for o in OUTCOMES:
            rel(0, [(k, o)])
            if not q or k in ("group", "zdo"):
                rel(1, [(k, o)])
            # ended while waiting for a slot that two others hold
            if o in ("cancel", "cancel-silent", "unencodable"):
                rel(0, [("broadcast", "silent"), ("group", "ok"), (k, o)])
                rel(0, [("broadcast", "ok"), ("group", "ok"), (k, o)])
            second = "permit" if k != "permit" else "group"
            rel(2, [(k, o), (second, "ok" if q and o.startswith("cancel") else "cancel-silent" if o == "cancel" else "cancel")])
            if not q:
                for k2 in KINDS:
                    rel(0, [(k, o), (k2, "cancel-silent"), ("broadcast", "ok")])
                    rel(1, [("broadcast", "ok"), (k, o), (k2, "status")])
    for k in KINDS:
        for p in (0, 1):
            out.append(Case("aged-%s-%d" % (k, p), aged(released), ["done"], product=p, steps=[(k, "ok")]))
    for a in KINDS:
        for b in KINDS:
            out.append(Case("line-%s,%s" % (a, b), monitor, ["done"], product=0 if a <= b else 2,
                            kinds=[a, "group", b, "broadcast"] + ([] if q else [a]), symbolic=[0, 1] if q else [0, 1, 2], late=False))
    for k in KINDS:
        for j, slowest in ((0, 20), (15, 500)) if q else ((0, 250), (5, 30), (15, 500), (16, 500)):
            out.append(Case("line16-%s-%d" % (k, j), monitor, ["done"], product=1,
                            kinds=["broadcast", "group"] * 8 + ["broadcast", k], symbolic=[j], late=False, slowest=slowest))
    return out

"""Symbolic execution of API.request under concurrency: several requests are issued, each with
its own outcome and symbolic response, cancellation and issue times; a monitor on the serial
line checks that at most one request is outstanding."""
from checks.env import (AF, AREQ, BY_ID, BY_NAME, MT, SREQ, SRSP, SUPPORTED_WRITE, SYS, ZDO, Adapter, AppRecorder,
                        Call, add_device, decodable, mt_frame, new_api, started_app, subsystem, sym_values, un_le,
                        zdo_request)
from checks.history import aged
from sx.case import Case

BOUNDS = "3 (thorough: 4) concurrent requests, the last issued at a symbolic time 0..20 s (quick: together with the others when one of them is cancelled or a reset), each ending in one of: response (symbolic delay 1 us..5.9 s), failing status (symbolic), silence, cancellation at a symbolic time 0..20 s (queued or in flight, or as late as its response), value that does not fit, missing argument, failing port write, notification command, reset with symbolic or missing answer; 2 (thorough: 5) requests of the application of every kind it makes, with symbolic response delays and statuses; every pair of one of 3 commands followed by any synchronous command; every synchronous command ending in a time-out, a failing status, a cancellation or a failing write with 1 request queued before and 4 issued after its end"
ASSUMPTIONS = ["the adapter does not answer a request after it timed out or was cancelled (a late answer is indistinguishable from the answer to a newer request of the same command; see C08, C11)"]

MS = 1000
KINDS = ["ok", "status", "silent", "cancel", "range", "missing", "write", "areq", "reset", "reset-silent"]


class Failing(OSError):
    pass


def scenario(ctx, kinds, late=True):
    ad = Adapter(ctx)
    ad.default = False
    api, w = new_api(ctx, ad, AppRecorder())
    w.tr.writes.clear()
    n = len(kinds)
    st = {}
    ended = {}  # wire-level end of a request
    sent = {}
    order = []
    delay = {}
    for i, k in enumerate(kinds):
        if k in ("ok", "status"):
            delay[i] = ctx.int("delay%d" % i, 1, 5900 * MS)
        if k == "reset":
            delay[i] = ctx.int("delay%d" % i, 1, 29900 * MS)
        if k == "status":
            st[i] = ctx.int("status%d" % i, 1, 255)
    limit = {}

    def wrote(ct, data):
        i = un_le(data[:2]) - 1 if ct != AREQ else data[0] - 1
        label = "second-transmission"
        ctx.check(i not in sent, label)
        now = ctx.loop.now
        for j in sent:
            ctx.check(j in ended or j in limit and ctx.any([now >= limit[j]]), "request-while-another-is-outstanding")
        sent[i] = now
        order.append(i)
        k = kinds[i]
        if k == "write":
            ended[i] = now
            raise Failing("write failed")
        if k == "areq":
            ended[i] = now
        elif k in ("ok", "status"):
            def answer():
                ended[i] = ctx.loop.now
                w.tr.feed(mt_frame(SRSP, SYS, "osalNvRead",
                                   {"status": st.get(i, 0), "len": 1, "value": bytes([i + 1])}))
            ctx.loop.call_at_us(now + delay[i], answer)
        elif k == "reset":
            def answer():
                ended[i] = ctx.loop.now
                w.tr.feed(mt_frame(AREQ, SYS, "resetInd", {
                    "reason": i, "transportrev": 2, "productid": 1, "majorrel": 2, "minorrel": 6, "hwrev": 0}))
            ctx.loop.call_at_us(now + delay[i], answer)
        elif k == "reset-silent":
            limit[i] = now + 30000 * MS
        elif k in ("silent", "cancel"):
            limit[i] = now + 6000 * MS

    ad.on(SYS, "osalNvRead", wrote)
    ad.on(SYS, "resetReq", wrote)
    ad.on(SYS, "osalTimerExpired", wrote)
    calls = {}

    def issue(i):
        k = kinds[i]
        if k in ("reset", "reset-silent"):
            c = api.request(subsystem(SYS), "resetReq", {"type": i + 1})
        elif k == "areq":
            c = api.request(subsystem(SYS), "osalTimerExpired", {"id": i + 1})
        elif k == "missing":
            c = api.request(subsystem(SYS), "osalNvRead", {"id": i + 1})
        elif k == "range":
            c = api.request(subsystem(SYS), "osalNvRead", {"id": i + 1, "offset": ctx.int("big%d" % i, 256, 1000)})
        else:
            c = api.request(subsystem(SYS), "osalNvRead", {"id": i + 1, "offset": 0})
        calls[i] = Call(ctx, c)

    cancelled = {}

    def cancel(i):
        cancelled[i] = ctx.loop.now
        if not calls[i].done:
            ended[i] = ctx.loop.now
            calls[i].cancel()

    issued = {}
    base = ctx.loop.now
    for i in range(n):
        issued[i] = base
        if i == n - 1 and late:
            issued[i] = base + ctx.int("issue%d" % i, 1, 20000 * MS)
            ctx.loop.call_at_us(issued[i], issue, i)
        else:
            issue(i)
    for i in range(n):
        if kinds[i] == "cancel":
            at = ctx.int("cancel%d" % i, 1, 20000 * MS)
            ctx.loop.call_at_us(issued[i] + at, cancel, i)
    ctx.loop.run_for((20000 + 21000 + 31000 * n) * MS)

    want = []
    for i, k in enumerate(kinds):
        c = calls[i]
        lab = k
        ctx.check(c.done, "never-ends:" + lab)
        if k in ("range", "missing"):
            ctx.check(i not in sent, "unencodable-request-sent:" + lab)
            ctx.check(c.kind == "exc", "unencodable-request-succeeds:" + lab)
            continue
        if k == "cancel":
            if i not in sent:
                ctx.check(i in cancelled and c.kind == "cancelled", "not-sent:" + lab)
                ctx.cover("cancelled-in-queue")
                continue
            ctx.cover("cancelled-in-flight")
            ctx.check(c.kind in ("cancelled", "exc"), "outcome:" + lab)
        want.append(i)
        ctx.check(i in sent, "not-sent:" + lab)
        if k == "ok":
            ctx.check(c.kind == "ok", "fails:" + lab)
            ctx.check(ctx.eq(c.value.payload["value"], bytes([i + 1])), "not-its-own-response:" + lab)
        elif k == "status":
            ctx.check(c.kind == "exc" and ctx.eq(getattr(c.value, "status", None), st[i]), "outcome:" + lab)
        elif k in ("silent", "reset-silent", "write"):
            ctx.check(c.kind == "exc", "outcome:" + lab)
            if k == "write":
                ctx.check(isinstance(c.value, Failing), "error-replaced:" + lab)
        elif k == "areq":
            ctx.check(c.kind == "ok", "fails:" + lab)
        elif k == "reset":
            ctx.check(c.kind == "ok" and c.value.payload["reason"] == i, "outcome:" + lab)
    ctx.check(order == want, "order-of-transmission")
    # the channel does not idle while a request waits
    free = base
    for i in order:
        start = issued[i]
        ctx.check(ctx.any([ctx.all([sent[i] <= start + 200 * MS]), ctx.all([sent[i] <= free + 200 * MS])]),
                  "waiting-request-not-sent")
        e = ended.get(i)
        if e is None or (i in limit and ctx.neg(ctx.any([e <= limit[i]]))):
            e = limit[i]
        free = e
    ctx.observe("order", order)
    ctx.cover("done")
    # afterwards the channel is free
    kinds.append("ok")
    delay[n] = 1000
    issue(n)
    ctx.loop.run_for(10 * MS)
    kinds.pop()
    ctx.check(calls[n].kind == "ok", "channel-blocked-afterwards")


ACTIONS = ["unicast", "group", "broadcast", "permit", "zdo", "permitJoinInd", "mgmtPermitJoinRsp"]


def application(ctx, product, actions):
    """The same line monitor under requests of the application, of every kind it makes."""
    app, log, ad, w = started_app(ctx, product)
    ad.default = False
    dev = add_device(ctx, app, [1], 0x1234)
    state = {"busy": None, "n": 0}
    orig = ad.host_frame

    def host_frame(tr, ct, ss, cid, data):
        if ct == SREQ:
            ctx.check(state["busy"] is None, "request-while-another-is-outstanding")
            state["busy"] = (ss, cid)
            state["n"] += 1
            i = state["n"]

            def answer():
                state["busy"] = None
                name = BY_ID[(ss, cid)]["name"]
                w.tr.feed(mt_frame(SRSP, ss, name, {"status": st[i % len(st)]}))
            ctx.loop.call_at_us(ctx.loop.now + delay[i % len(delay)], answer)
        return orig(tr, ct, ss, cid, data)

    n = len(actions)
    tsn = [ctx.byte("tsn%d" % i) for i in range(n)]
    st = [ctx.choose("status%d" % i, [0, 0xCD]) for i in range(n)]
    delay = [ctx.int("delay%d" % i, 1, 500 * MS) for i in range(n)]
    ad.host_frame = host_frame
    calls = []

    def act(i, a):
        if a == "unicast":
            calls.append(Call(ctx, app.request(dev, 0x104, 6, 1, 1, tsn[i], b"ab")))
        elif a == "group":
            calls.append(Call(ctx, app.mrequest(7, 0x104, 6, 1, tsn[i], b"ab")))
        elif a == "broadcast":
            calls.append(Call(ctx, app.broadcast(0x104, 6, 1, 1, 0, 30, tsn[i], b"ab")))
        elif a == "permit":
            calls.append(Call(ctx, app.permit_ncp(60)))
        elif a == "zdo":
            calls.append(Call(ctx, zdo_request(app, dev, "nodeDescRsp", tsn[i], b"\x34\x12")))
        elif a == "permitJoinInd":
            w.tr.feed(mt_frame(AREQ, ZDO, a, {"duration": ctx.byte("dur%d" % i)}))
        else:
            w.tr.feed(mt_frame(AREQ, ZDO, a, {"srcaddr": 0, "status": 0}))

    for i, a in enumerate(actions):
        ctx.loop.call_at_us(ctx.loop.now + (ctx.int("at%d" % i, 1, 1000 * MS) if i == n - 1 else 1 + i), act, i, a)
    ctx.loop.run_for(30000 * MS)
    ctx.check(all([c.done for c in calls]), "never-ends")
    ctx.check(state["busy"] is None, "outstanding-at-the-end")
    k = sum([1 for a in actions if product != 1 or a not in ("permitJoinInd", "mgmtPermitJoinRsp")])
    ctx.check(state["n"] == k, "not-every-request-was-made")
    ctx.check(not w.tr.escaped, "escaped")
    ctx.cover("done")


def any_command(ctx, first, commands):
    """Whatever the two commands are, the second waits until the first got its response."""
    ad = Adapter(ctx)
    ad.default = False
    api, w = new_api(ctx, ad, AppRecorder())
    c = ctx.choose("command", commands)
    p0 = sym_values(ctx, first["request"], 1, prefix="a.")
    p1 = sym_values(ctx, c["request"], 1, prefix="b.")
    a = Call(ctx, api.request(subsystem(first["ss"]), first["name"], p0))
    ctx.loop.settle()
    ctx.check(len(ad.log) == 1, "first-not-sent")
    b = Call(ctx, api.request(subsystem(c["ss"]), c["name"], p1))
    ctx.loop.run_for(ctx.int("delay", 0, 5900 * MS))
    ctx.check(len([1 for x in ad.log if x[1] == SREQ]) == 1, "request-while-another-is-outstanding:" + c["name"])
    r0 = sym_values(ctx, first["response"], 0, prefix="r.")
    w.tr.feed(mt_frame(SRSP, first["ss"], first["name"], r0))
    ctx.loop.run_for(1 * MS)
    ctx.check(a.done, "first-not-finished")
    ctx.check(len(ad.log) == 2 and ctx.eq(ad.log[1][2], c["ss"]) and ctx.eq(ad.log[1][3], c["id"]),
              "second-not-sent:" + c["name"])
    ctx.cover("done")


def any_failure(ctx, commands):
    """Whatever the command and however it ends, those behind it still take turns."""
    ad = Adapter(ctx)
    ad.default = False
    api, w = new_api(ctx, ad, AppRecorder())
    c = ctx.choose("command", commands)
    how = ctx.choose("how", ["silent", "status", "cancel", "write"])
    if how == "status" and "status" not in [n for n, t in c["response"] or []]:
        ctx.stop()
    if how == "status" and not decodable(c["response"]):
        ctx.stop()
    w.tr.fail = Failing("write failed") if how == "write" else None
    a = Call(ctx, api.request(subsystem(c["ss"]), c["name"], sym_values(ctx, c["request"], 1, prefix="a.")))
    rd = BY_NAME[(SYS, "osalNvRead")]

    def issue(v):
        return Call(ctx, api.request(subsystem(SYS), "osalNvRead", {"id": v, "offset": 0}))

    first = None

    def sent():
        return [int(x[4][0]) for x in ad.log if x[1] == SREQ and x[2] == SYS and x[3] == rd["id"]
                and x is not first]
    if how == "write":
        q = issue(1)  # queued while the failing write is made
        ctx.loop.call_soon(lambda: setattr(w.tr, "fail", None))
        ctx.loop.settle()
        first = None
        if not sent():  # failed as well: also an answer
            w.tr.fail = None
            q = issue(1)
    else:
        ctx.loop.settle()
        ctx.check(len(ad.log) == 1, "first-not-sent")
        first = ad.log[0]
        q = issue(1)
        ctx.loop.run_for(1 * MS)
        ctx.check(not sent(), "request-while-another-is-outstanding:" + c["name"])
    if how == "cancel":
        a.cancel()
    elif how == "status":
        vals = sym_values(ctx, c["response"], 0, prefix="r.")
        vals["status"] = ctx.int("status", 1, 255)
        w.tr.feed(mt_frame(SRSP, c["ss"], c["name"], vals))
    ctx.loop.run_for(1 * MS)
    more = [issue(2), issue(3)]
    ctx.loop.run_for(20100 * MS if how == "silent" and c["name"] in ("bdbStartCommissioning", "startupFromApp")
                     else 6100 * MS if how == "silent" else 1 * MS)
    ctx.check(a.done and a.kind != "ok", "failing-request-outcome:" + c["name"])
    calls = [q] + more
    for i in range(3):
        if i < 2:
            calls.append(issue(4 + i))
        ctx.loop.run_for(200 * MS)
        ctx.check(sent() == [1, 2, 3, 4, 5][:i + 1], "one-after-the-other-after-a-failure:" + c["name"])
        w.tr.feed(mt_frame(SRSP, SYS, "osalNvRead", {"status": 0, "len": 1, "value": b"a"}))
        ctx.loop.run_for(1 * MS)
        ctx.check(calls[i].kind == "ok", "waiting-request-not-completed:" + c["name"])
    ctx.cover("done")


def sendable(c):
    return c["type"] == SREQ and all([t in SUPPORTED_WRITE for n, t in c["request"]])


def cases(tier):
    out = []
    for p in (0, 1):
        for a in ACTIONS:
            for b in ACTIONS if p == 0 or tier != "quick" else ["permitJoinInd"]:
                out.append(Case("app-%d-%s,%s" % (p, a, b), application, ["done"], product=p, actions=[a, b]
                                if tier == "quick" else [a, b, "unicast", b, a]))
    cmds = [c for c in MT if sendable(c)]
    for f in (BY_NAME[(SYS, "osalNvRead")], BY_NAME[(AF, "dataRequest")], BY_NAME[(ZDO, "nodeDescReq")]):
        for i in range(4):
            out.append(Case("any-command-after-%s-%d" % (f["name"], i), any_command, ["done"], first=f,
                            commands=cmds[i::4]))
    for i in range(6):
        out.append(Case("any-failure-%d" % i, any_failure, ["done"], commands=cmds[i::6]))
    q = tier == "quick"
    heavy = ("cancel", "reset")
    for a in KINDS:
        for b in KINDS:
            late = not q or not (a in heavy or b in heavy)
            if q and a == b == "cancel":
                continue
            out.append(Case("%s,%s,ok" % (a, b), scenario, ["done"], kinds=[a, b, "ok"], late=late))
        out.append(Case("ok,ok,%s" % a, scenario, ["done"], kinds=["ok", "ok", a], late=not q or a not in heavy))
    for a in KINDS:
        out.append(Case("aged-%s,ok" % a, aged(scenario), ["done"], kinds=[a, "ok"], late=a not in heavy))
    if not q:
        for a in KINDS:
            for b in KINDS:
                out.append(Case("%s,ok,%s,ok" % (a, b), scenario, ["done"], kinds=[a, "ok", b, "ok"],
                                late=not (a in heavy or b in heavy)))
            out.append(Case("cancel,%s,cancel,ok" % a, scenario, ["done"], kinds=["cancel", a, "cancel", "ok"],
                            late=False))
    return out

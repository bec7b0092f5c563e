"""Symbolic execution of API.request / API.wait_for with symbolic arrival times: where timeouts
fall, what late messages do, and who a message that arrives after an expiry belongs to."""
from checks.env import (AF, AREQ, BY_NAME, MT, SAPI, SREQ, SRSP, SUPPORTED_WRITE, SYS, ZDO, ZDO_REPLY, Adapter,
                        AppRecorder, Call, add_device, decodable, enc_fields, frame_bytes, mt_frame, new_api,
                        reply_frame, reply_values, started_app, status_frame, subsystem, sym_values, zdo_body,
                        zdo_request)
from checks.history import aged
from sx.case import Case

BOUNDS = "arrival times symbolic at microsecond resolution: responses 1 us..45 s after the request (1 ms around the limit excluded) for every synchronous command and both resets; second request / second wait / reply / repetition at symbolic times 0..25 s (100 ms before and 200 ms after the end of a reply wait excluded)"
ASSUMPTIONS = ["event loop delay is zero"]

MS = 1000
S = 1000000
APP_CNF = 15


def limit_of(ss, name):
    if (ss, name) in ((APP_CNF, "bdbStartCommissioning"), (ZDO, "startupFromApp")):
        return 20 * S
    if name in ("resetReq", "systemReset") and BY_NAME[(ss, name)]["type"] == AREQ:
        return 30 * S
    return 6 * S


def one_timeout(ctx, cmds, answer):
    """One request; its response arrives at any time, or never."""
    import asyncio
    c = ctx.choose("command", cmds)
    ss, name = c["ss"], c["name"]
    lab = "%d.%s" % (ss, name)
    T = limit_of(ss, name)
    app = AppRecorder()
    ad = Adapter(ctx)
    ad.default = False
    api, w = new_api(ctx, ad, app)
    vals = sym_values(ctx, c["request"], 1, prefix="arg.")
    from zigpy.types import EUI64
    args = {n: EUI64(vals[n]) if t == "IEEEADDR" else vals[n] for n, t in c["request"]}
    start = ctx.loop.now
    if c["type"] == SREQ:
        ps = c["response"]
        rv = sym_values(ctx, ps, 1)
        if "status" in rv:
            rv["status"] = 0
        frame = frame_bytes(SRSP, ss, c["id"], enc_fields(ps, rv))
    else:
        ps = BY_NAME[(SYS, "resetInd")]["request"]
        rv = sym_values(ctx, ps, 1)
        frame = frame_bytes(AREQ, SYS, BY_NAME[(SYS, "resetInd")]["id"], enc_fields(ps, rv))
    call = Call(ctx, api.request(subsystem(ss), name, args))
    ctx.loop.settle()
    ctx.check(len(ad.log) == 1 or ad.malformed == 0 and len(ad.log) == 1, "not-sent:" + lab)
    if answer:
        at = ctx.int("arrival", 1, 45 * S)
        ctx.assume(ctx.any([at < T - MS, at > T + MS]))
        ctx.loop.call_at_us(start + at, w.tr.feed, frame)
    ctx.loop.run_until(start + 50 * S)
    ctx.check(call.done, "never-ends:" + lab)
    ctx.observe("kind", call.kind)
    took = call.done_at - start
    if answer and at < T:
        ctx.check(call.kind == "ok", "in-time-response-refused:" + lab)
        ctx.check(ctx.eq(took, at), "completion-time:" + lab)
        from checks.env import same_fields
        ctx.check(same_fields(ctx, ps, call.value.payload, rv), "content:" + lab)
        ctx.cover("answered")
    else:
        ctx.check(call.kind == "exc", "completes-without-response-in-time:" + lab)
        ctx.check(isinstance(call.value, asyncio.TimeoutError), "not-a-timeout:" + lab)
        ctx.check(ctx.all([took >= T - MS, took <= T + MS]), "timeout-time:" + lab)
        ctx.check(not w.tr.escaped, "late-response-error:" + lab)
        if answer:
            ctx.check(len(app.objs) == 1, "late-response-not-passed-on:" + lab)
            ctx.cover("late")
        ctx.cover("timeout")
    # nothing is left behind: the next request of the same command gets its own response
    n = len(ad.log)
    second = Call(ctx, api.request(subsystem(ss), name, args))
    ctx.loop.run_for(2 * S)
    ctx.check(len(ad.log) == n + 1 and not second.done, "second-request:" + lab)
    w.tr.feed(frame)
    ctx.loop.run_for(1)
    ctx.check(second.kind == "ok", "second-not-answered:" + lab)


def reply_attribution(ctx, kind, plan):
    """Requests with replies; the wait for the first may have ended when the reply arrives."""
    app, log, ad, w = started_app(ctx, 0)
    nwk = 0x4321
    dev = add_device(ctx, app, [1], nwk)
    req = ZDO_REPLY[kind][0]
    t1, t2 = ctx.byte("tsn1"), ctx.byte("tsn2")
    body = zdo_body(ctx, kind, nwk)
    params, v = reply_values(ctx, kind, nwk)
    frame = reply_frame(kind, params, v)
    start = ctx.loop.now
    end1 = 10 * S
    calls = [Call(ctx, zdo_request(app, dev, kind, t1, body))]
    second = ctx.int("second", 10 * MS, 12 * S)
    ctx.loop.call_at_us(start + second, lambda: calls.append(Call(ctx, zdo_request(app, dev, kind, t2, body))))
    arr = []
    last = 5 * MS
    for i in range(plan):
        r = ctx.int("reply%d" % i, 10 * MS, 25 * S)
        # not while a wait is ending, nor at the very moment the second request is made
        ctx.assume(ctx.any([r < end1 - 100 * MS, r > end1 + 200 * MS]))
        ctx.assume(ctx.any([r < second, r > second + 5 * MS]))
        ctx.assume(ctx.any([r < second + end1 - 100 * MS, r > second + end1 + 200 * MS]))
        ctx.assume(r > last)
        last = r
        arr.append(r)
        ctx.loop.call_at_us(start + r, w.tr.feed, frame)
    ctx.loop.run_until(start + 40 * S)
    ctx.check(len(calls) == 2 and all([c.kind == "ok" for c in calls]), "request-failed:" + kind)
    # reference: waits in order of creation, each for 10 s
    waits = [[0, t1, False], [second, t2, False]]
    exp = []
    for r in arr:
        for x in waits:
            if not x[2] and r > x[0] and r < x[0] + end1:
                x[2] = True
                exp.append(x[1])
                break
    ctx.check(len(log.messages) == len(exp), "replies-attributed:" + kind)
    for m, tsn in zip(log.messages, exp):
        ctx.check(ctx.eq(m[5][0], tsn), "attributed-to-wrong-request:" + kind)
    ctx.observe("tsns", [m[5][0] for m in log.messages])
    ctx.cover("replies-%d" % len(exp))
    ctx.check(not w.tr.escaped, "escaped:" + kind)
    ctx.check(not ctx.loop.errors, "unhandled-error:" + kind)


def waits(ctx, second_seq):
    """Two explicit waits for one notification; the message comes twice."""
    import asyncio
    from zigpy_cc.types import CommandType
    app = AppRecorder()
    ad = Adapter(ctx)
    api, w = new_api(ctx, ad, app)
    ps = BY_NAME[(ZDO, "stateChangeInd")]["request"]
    frames, vals = [], []
    for i in range(2):
        vals.append(sym_values(ctx, ps, 1, prefix="m%d." % i))
        frames.append(frame_bytes(AREQ, ZDO, BY_NAME[(ZDO, "stateChangeInd")]["id"], enc_fields(ps, vals[i])))
    start = ctx.loop.now
    to = [ctx.choose("timeout0", [3000, 10000, 60000]), 10000]
    got = {}
    at1 = ctx.int("second", 1, 20 * S)

    def begin(i):
        got[i] = Call(ctx, api.wait_for(CommandType.AREQ, subsystem(ZDO), "stateChangeInd", timeout=to[i]).wait())

    begin(0)
    ctx.loop.call_at_us(start + at1, begin, 1)
    a = [ctx.int("a0", 1, 20 * S), ctx.int("a1", 1, 30 * S)]
    ctx.assume(a[1] > a[0])
    e0 = to[0] * MS
    for x in a:
        ctx.assume(ctx.any([x < e0 - MS, x > e0 + 200 * MS]))
        ctx.assume(ctx.any([x < at1, x > at1]))
        ctx.assume(ctx.any([x < at1 + 10 * S - MS, x > at1 + 10 * S + 200 * MS]))
    for x, f in zip(a, frames):
        ctx.loop.call_at_us(start + x, w.tr.feed, f)
    ctx.loop.run_until(start + 120 * S)
    begins = [0, at1]
    for i in range(2):
        exp = None
        for k, x in enumerate(a):
            if x > begins[i] and x < begins[i] + to[i] * MS:
                exp = k
                break
        c = got[i]
        ctx.check(c.done, "wait-never-ends")
        if exp is None:
            ctx.check(c.kind == "exc" and isinstance(c.value, asyncio.TimeoutError), "wait-served-by-nothing")
            ctx.check(ctx.all([c.done_at - start - begins[i] >= to[i] * MS - MS,
                               c.done_at - start - begins[i] <= to[i] * MS + MS]), "wait-timeout-time")
            ctx.cover("expired")
        else:
            from checks.env import same_fields
            ctx.check(c.kind == "ok", "message-kept-from-wait")
            ctx.check(same_fields(ctx, ps, c.value.payload, vals[exp]), "wait-wrong-message")
            ctx.cover("served")
    ctx.check(len(app.objs) == 2, "not-passed-on")
    ctx.observe("kinds", [got[0].kind, got[1].kind])


def cases(tier):
    out = []
    q = tier == "quick"
    cmds = [c for c in MT if c["type"] == SREQ and c["response"] is not None and decodable(c["response"])
            and all(t in SUPPORTED_WRITE for n, t in c["request"])]
    special = [BY_NAME[(APP_CNF, "bdbStartCommissioning")], BY_NAME[(ZDO, "startupFromApp")],
               BY_NAME[(SYS, "resetReq")], BY_NAME[(SAPI, "systemReset")]]
    rest = [c for c in cmds if c not in special]
    for c in special:
        for a in (True, False):
            out.append(Case("limit-%s-%s" % (c["name"], "answered" if a else "silent"), one_timeout,
                            ["timeout"] + (["answered", "late"] if a else []), cmds=[c], answer=a))
    for i in range(12):
        out.append(Case("limit-part%d" % i, one_timeout, ["answered", "late", "timeout"], cmds=rest[i::12], answer=True))
    out.append(Case("limit-silent", one_timeout, ["timeout"], cmds=rest, answer=False))
    out.append(Case("aged-limit", aged(one_timeout), ["answered", "late", "timeout"], cmds=rest[::24], answer=True))
    for c in special:
        out.append(Case("aged-limit-%s" % c["name"], aged(one_timeout), ["answered", "late", "timeout"], cmds=[c], answer=True))
    out.append(Case("aged-two-waits", aged(waits), ["expired", "served"], second_seq=None))
    for k in ZDO_REPLY:
        if not q or k == "mgmtLqiRsp":
            out.append(Case("aged-reply-%s-1" % k, aged(reply_attribution), ["replies-0", "replies-1"], kind=k, plan=1))
        out.append(Case("reply-%s-1" % k, reply_attribution, ["replies-0", "replies-1"], kind=k, plan=1))
        if not q or k == "nodeDescRsp":
            out.append(Case("reply-%s-2" % k, reply_attribution, ["replies-0", "replies-1", "replies-2"], kind=k, plan=2))
        if not q:
            out.append(Case("reply-%s-3" % k, reply_attribution, ["replies-0", "replies-2"], kind=k, plan=3))
    out.append(Case("two-waits", waits, ["expired", "served"], second_seq=None))
    return out

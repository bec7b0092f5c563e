"""Symbolic execution of API.request and of ControllerApplication.request / mrequest /
broadcast with a symbolic status byte in the adapter's response."""
from checks.env import (AF, BY_NAME, SYS, UTIL, ZDO, ZDO_REPLY, Adapter, AppRecorder, Call, add_device,
                        af_request_args, mt_frame, new_api, reply_frame, reply_values, started_app,
                        status_frame, subsystem, zdo_body, zdo_request, SRSP, enc_fields, frame_bytes, sym_values)
from checks.history import aged
from sx.case import Case

BOUNDS = "all 256 status values; expected lists none, [0], [0,1], [0,2], [0,9], [3], symbolic pair; every synchronous command with decodable response at API level; unicast, group, broadcast and the 6 device-management requests with forwarded replies at application level; the reply arriving before, or its wait expiring before, the failing response"
ASSUMPTIONS = ["the adapter answers every request"]


def api_status(ctx, cmds):
    from zigpy_cc.exception import CommandError

    c = ctx.choose("command", cmds)
    how = ctx.choose("expected", [None, [0], [0, 1], [0, 2], [0, 9], [3], "symbolic"])
    if how == "symbolic":
        how = [ctx.byte("e0"), ctx.byte("e1")]
    exp = [0] if how is None else how
    vals = sym_values(ctx, c["response"], 1)
    ad = Adapter(ctx)
    ad.on(c["ss"], c["name"], lambda ct, d: [frame_bytes(SRSP, c["ss"], c["id"], enc_fields(c["response"], vals))])
    api, w = new_api(ctx, ad, AppRecorder())
    args = sym_values(ctx, c["request"], 0, prefix="arg.")
    from zigpy.types import EUI64
    args = {n: EUI64(args[n]) if t == "IEEEADDR" else args[n] for n, t in c["request"]}
    kw = {} if how is None else {"expected_status": how}
    call = Call(ctx, api.request(subsystem(c["ss"]), c["name"], args, **kw))
    ctx.loop.run_for(100000)
    label = "%d.%s" % (c["ss"], c["name"])
    ctx.check(call.done, "not-done:" + label)
    ctx.observe("kind", call.kind)
    st = vals.get("status")
    if st is None:
        ctx.check(call.kind == "ok", "fails-without-status:" + label)
        return
    good = ctx.any([ctx.eq(st, e) for e in exp])
    if call.kind == "ok":
        ctx.check(good, "unexpected-status-accepted:" + label)
        ctx.check(ctx.eq(call.value.payload["status"], st), "status-value:" + label)
        ctx.cover("ok")
    else:
        ctx.check(ctx.neg(good), "expected-status-refused:" + label)
        ctx.check(isinstance(call.value, CommandError), "not-a-command-error:" + label)
        ctx.check(ctx.eq(call.value.status, st), "wrong-status-reported:" + label)
        ctx.observe("status", call.value.status)
        ctx.cover("error")


def outcome_ok(ctx, call, st, label):
    ctx.check(call.done, "not-done:" + label)
    ctx.check(call.kind == "ok", "exception-to-caller:" + label)
    r = call.value
    ctx.check(isinstance(r, tuple) and len(r) == 2, "no-status-and-message:" + label)
    ctx.check(ctx.eq(r[0], st), "status:" + label)
    ctx.check(isinstance(r[1], str) and len(r[1]) > 0, "message:" + label)
    ctx.observe("status", r[0])


def app_status(ctx, kind):
    app, log, ad, w = started_app(ctx, 0)
    st = ctx.byte("status")
    a = af_request_args(ctx)
    dev = add_device(ctx, app, [1], ctx.u16("nwk"))
    if kind == "unicast":
        ad.on(AF, "dataRequest", lambda ct, d: [status_frame(AF, "dataRequest", st)])
        c = app.request(dev, a["profile"], a["cluster"], a["src_ep"], a["dst_ep"], a["sequence"], a["data"],
                        expect_reply=ctx.choose("expect_reply", [True, False]))
    elif kind == "group":
        ad.on(AF, "dataRequestExt", lambda ct, d: [status_frame(AF, "dataRequestExt", st)])
        c = app.mrequest(ctx.u16("group"), a["profile"], a["cluster"], a["src_ep"], a["sequence"], a["data"])
    elif kind == "broadcast":
        from zigpy.types import BroadcastAddress
        ad.on(AF, "dataRequestExt", lambda ct, d: [status_frame(AF, "dataRequestExt", st)])
        c = app.broadcast(a["profile"], a["cluster"], a["src_ep"], a["dst_ep"], 0, ctx.byte("radius"),
                          a["sequence"], a["data"], BroadcastAddress.ALL_DEVICES)
    else:
        req = ZDO_REPLY[kind][0]
        ad.on(ZDO, req, lambda ct, d: [status_frame(ZDO, req, st)])
        c = zdo_request(app, dev, kind, a["sequence"], zdo_body(ctx, kind, 7))
    call = Call(ctx, c)
    ctx.loop.run_for(1000000)
    outcome_ok(ctx, call, st, kind)
    if call.value[0] == 0:
        ctx.cover("success")
    else:
        ctx.cover("failure")


def no_longer_awaited(ctx, kind, mode):
    """First request fails with a status; a reply then belongs to the second request."""
    app, log, ad, w = started_app(ctx, 0)
    req = ZDO_REPLY[kind][0]
    nwk = ctx.u16("nwk")
    dev = add_device(ctx, app, [1], nwk)
    st = ctx.int("status", 1, 255)
    t1, t2 = ctx.byte("tsn1"), ctx.byte("tsn2")
    answers = [st, 0]
    delay = [1000]

    def answer(ct, d):
        return [(delay[0], status_frame(ZDO, req, answers.pop(0) if answers else 0))]

    ad.on(ZDO, req, answer)
    body = zdo_body(ctx, kind, nwk)
    params, v1 = reply_values(ctx, kind, nwk, tag="r1.")
    params, v2 = reply_values(ctx, kind, nwk, tag="r2.")
    if mode == "replied":  # the reply overtakes the failing response
        ad.send(reply_frame(kind, params, v1), 500)
        c1 = Call(ctx, zdo_request(app, dev, kind, t1, body))
        ctx.loop.run_for(100000)
        ctx.check(len(log.messages) == 1, "reply-lost:" + kind)
        ctx.check(ctx.eq(log.messages[0][5][0], t1), "reply-tsn:" + kind)
        outcome_ok(ctx, c1, st, kind)
        log.messages.clear()
    elif mode == "expired":  # the request waits so long in the queue that its wait has ended
        slow = {"n": 0}
        ad.on(SYS, "ping", lambda ct, d: [(5500000, mt_frame(SRSP, SYS, "ping", {"capabilities": 1}))])
        for i in range(2):
            ctx.loop.create_task(app._api.request(subsystem(SYS), "ping", {"capabilities": 1}))
        c1 = Call(ctx, zdo_request(app, dev, kind, t1, body))
        ctx.loop.run_for(11500000)
        outcome_ok(ctx, c1, st, kind)
    else:
        c1 = Call(ctx, zdo_request(app, dev, kind, t1, body))
        ctx.loop.run_for(100000)
        outcome_ok(ctx, c1, st, kind)
    c2 = Call(ctx, zdo_request(app, dev, kind, t2, body))
    ctx.loop.run_for(100000)
    outcome_ok(ctx, c2, 0, kind)
    w.tr.feed(reply_frame(kind, params, v2))
    ctx.loop.run_for(1000)
    ctx.check(len(log.messages) == 1, "reply-count:" + kind)
    ctx.check(ctx.eq(log.messages[0][5][0], t2), "reply-given-to-failed-request:" + kind)
    ctx.observe("data", log.messages[0][5])
    log.messages.clear()
    w.tr.feed(reply_frame(kind, params, v2))
    ctx.loop.run_for(1000)
    ctx.check(len(log.messages) == 0, "reply-given-to-failed-request:" + kind)
    ctx.cover("done")


def cases(tier):
    from checks.env import MT, decodable, SREQ, SUPPORTED_WRITE
    out = []
    q = tier == "quick"
    cmds = [c for c in MT if c["type"] == SREQ and c["response"] is not None and decodable(c["response"])
            and all(t in SUPPORTED_WRITE for n, t in c["request"])]
    for i in range(12):
        out.append(Case("api-part%d" % i, api_status, ["ok", "error"], cmds=cmds[i::12]))
    for k in ["unicast", "group", "broadcast"] + list(ZDO_REPLY):
        out.append(Case("app-" + k, app_status, ["success", "failure"], kind=k))
    for k in ZDO_REPLY:
        out.append(Case("aged-reply-wait-" + k, aged(no_longer_awaited), ["done"], kind=k, mode="plain"))
        for m in ("plain", "replied", "expired"):
            out.append(Case("reply-wait-%s-%s" % (m, k), no_longer_awaited, ["done"], kind=k, mode=m))
    return out

"""Symbolic execution of ControllerApplication.handle_znp, API.data_received and the codec on
management replies with every content byte symbolic."""
from checks.env import (BY_NAME, ZDO, ZDO_REPLY, AREQ, SRSP, Call, add_device, enc_fields, frame_bytes, reply_frame,
                        reply_values, started_app, zdo_body, zdo_request)
from checks.history import aged
from sx.case import Case

BOUNDS = "all 6 reply kinds x every content, sender, transaction number; lists of 0..3 entries and the largest that fit: 11 neighbours, 77 endpoints, 20 input clusters (thorough 0..8 too); answered, unanswered, repeated, from another sender, and as a frame of another type"
ASSUMPTIONS = ["a reply has every field of its documented layout (failure replies without descriptor are outside)"]


def replied(ctx, kind, sizes, products):
    app, log, ad, w = started_app(ctx, ctx.choose("product", products))
    nwk, other = ctx.u16("nwk"), ctx.u16("other")
    ctx.assume(nwk != other)
    ctx.assume(ctx.all([nwk != 0, other != 0]))
    d_other = add_device(ctx, app, [1], other)
    dev = add_device(ctx, app, [2], nwk)
    tsn = ctx.byte("tsn")
    call = Call(ctx, zdo_request(app, dev, kind, tsn, zdo_body(ctx, kind, nwk)))
    ctx.loop.run_for(300000)
    ctx.check(call.kind == "ok", "request-fails:" + kind)
    ctx.check(not log.messages, "message-without-reply:" + kind)
    # the same reply from another device is not the answer
    params, v = reply_values(ctx, kind, other, 1, tag="o.")
    w.tr.feed(reply_frame(kind, params, v))
    ctx.loop.run_for(1000)
    ctx.check(not log.messages, "reply-of-other-device-handed-on:" + kind)
    n = ctx.choose("size", sizes)
    params, v = reply_values(ctx, kind, nwk, n)
    frame = reply_frame(kind, params, v)
    w.tr.feed(frame)
    ctx.loop.run_for(1000)
    ctx.check(len(log.messages) == 1, "not-handed-on-once:" + kind)
    sender, profile, cluster, src_ep, dst_ep, data = log.messages[0]
    ctx.check(sender is dev, "wrong-device:" + kind)
    ctx.check(cluster == ZDO_REPLY[kind][2], "cluster:" + kind)
    ctx.check(src_ep == 0 and dst_ep == 0, "endpoint:" + kind)
    exp = bytes([tsn]) + enc_fields(params, v)[2:]
    ctx.check(len(data) == len(exp), "length:" + kind)
    ctx.check(ctx.eq(data, exp), "content:" + kind)
    ctx.observe("data", data)
    # once only
    w.tr.feed(frame)
    ctx.loop.run_for(1000)
    ctx.check(len(log.messages) == 1, "repeated-reply-handed-on:" + kind)
    ctx.check(not w.tr.escaped and not log.joins, "side-effect:" + kind)
    ctx.cover("handed-on")


def unanswered(ctx, kind):
    """Nobody asked (or the request of another kind is outstanding): nothing is handed on."""
    app, log, ad, w = started_app(ctx, ctx.choose("product", [0, 1]))
    nwk = ctx.u16("nwk")
    ctx.assume(nwk != 0)
    dev = add_device(ctx, app, [2], nwk)
    others = [k for k in ZDO_REPLY if k != kind]
    o = ctx.choose("outstanding", [None] + others)
    if o is not None:
        Call(ctx, zdo_request(app, dev, o, ctx.byte("tsn"), zdo_body(ctx, o, nwk)))
        ctx.loop.run_for(300000)
    params, v = reply_values(ctx, kind, nwk, 1)
    w.tr.feed(reply_frame(kind, params, v))
    ctx.loop.run_for(1000)
    ctx.check(not log.messages, "unasked-reply-handed-on:" + kind)
    ctx.check(not log.joins, "side-effect:" + kind)
    ctx.check(not w.tr.escaped, "escaped:" + kind)
    ctx.cover("dropped")


def cases(tier):
    q = tier == "quick"
    out = []
    listy = ("mgmtLqiRsp", "activeEpRsp", "simpleDescRsp")
    for k in ZDO_REPLY:
        sizes = [0]
        if k in listy:
            big = {"mgmtLqiRsp": 11, "activeEpRsp": 77, "simpleDescRsp": 20}[k]
            sizes = [0, 1, 2, 3, big] if q else list(range(9)) + [big]
        for p in (0, 1):
            out.append(Case("%s-product%d" % (k, p), replied, ["handed-on"], kind=k, sizes=sizes, products=[p]))
        out.append(Case("aged-" + k, aged(replied), ["handed-on"], kind=k, sizes=[1] if k in listy else [0], products=[0]))
        out.append(Case("aged-%s-unasked" % k, aged(unanswered), ["dropped"], kind=k))
        out.append(Case("%s-unasked" % k, unanswered, ["dropped"], kind=k))
    return out

"""Symbolic execution of ControllerApplication.handle_znp on device announcements (and on every
other notification) with symbolic addresses and capabilities."""
from checks.c06 import messages
from checks.c16 import setup
from checks.env import (AREQ, BY_NAME, ZDO, ZDO_REPLY, Call, enc_fields, frame_bytes, sym_values, zdo_body, zdo_request)
from checks.history import aged
from sx.case import Case

BOUNDS = "every 16-bit and 64-bit address, source address and capability byte; announced device known (2 devices and the coordinator, symbolic distinct addresses) or unknown; one or two announcements; with and without requests outstanding; every other decodable notification and response with symbolic content"
ASSUMPTIONS = ["known devices have distinct addresses"]


def announce(ctx, tag):
    c = BY_NAME[(ZDO, "endDeviceAnnceInd")]
    vals = sym_values(ctx, c["request"], 0, prefix=tag)
    return frame_bytes(AREQ, ZDO, c["id"], enc_fields(c["request"], vals)), vals


def joined(ctx, times, outstanding):
    app, log, ad, w, devs, nwk, ieee = setup(ctx, ctx.choose("product", [0, 1]))
    if outstanding:
        k = ctx.choose("outstanding", ["nodeDescRsp", "mgmtPermitJoinRsp"])
        ctx.assume(ctx.all([nwk[1] != 0, nwk[1] != 0xFFFC]))
        Call(ctx, zdo_request(app, devs[1], k, ctx.byte("tsn"), zdo_body(ctx, k, nwk[1])))
        ctx.loop.run_for(300000)
    n = 0
    for i in range(times):
        frame, v = announce(ctx, "a%d." % i)
        w.tr.feed(frame)
        ctx.loop.run_for(1000)
        ctx.check(len(log.joins) == i + 1, "not-announced-once")
        j = log.joins[-1]
        ctx.check(ctx.eq(j[0], v["nwkaddr"]), "announced-network-address")
        ctx.check(ctx.eq(list(j[1]), list(v["ieeeaddr"])), "announced-ieee")
        ctx.check(j[2] is None or j[2] == 0, "announced-parent")
        who = None
        for k in range(3):
            if ctx.eq(v["ieeeaddr"], ieee[k]):
                who = k
                break
        if who is None:
            ctx.cover("unknown")
        else:
            n += 1
            ctx.cover("known")
        ctx.check(len(log.messages) == n, "announce-message-count")
        if who is not None:
            m = log.messages[-1]
            exp = bytes([0]) + le2(v["nwkaddr"]) + v["ieeeaddr"] + bytes([v["capabilities"]])
            ctx.check(m[0] is devs[who], "announce-device")
            ctx.check(m[2] == 0x0013 and m[3] == 0 and m[4] == 0, "announce-cluster-or-endpoint")
            ctx.check(len(m[5]) == 12 and ctx.eq(m[5], exp), "announce-content")
    ctx.check(not w.tr.escaped, "escaped")
    ctx.observe("joins", [[j[0], list(j[1])] for j in log.joins])


def le2(x):
    from checks.env import le
    return le(x, 2)


def other(ctx, msgs):
    app, log, ad, w, devs, nwk, ieee = setup(ctx, ctx.choose("product", [0, 1]))
    m = ctx.choose("message", msgs)
    vals = sym_values(ctx, m[4], 1, prefix="o.")
    w.tr.feed(frame_bytes(m[0], m[1], m[3], enc_fields(m[4], vals)))
    ctx.loop.run_for(1000)
    lab = "%d.%d.%s" % (m[0], m[1], m[2])
    ctx.check(not log.joins, "join-reported-by:" + lab)
    for x in [] if m[2] in ("incomingMsg", "incomingMsgExt") else log.messages:
        ctx.check(x[2] != 0x0013 or x[3] != 0, "announce-message-from:" + lab)
    frame, v = announce(ctx, "a.")
    w.tr.feed(frame)
    ctx.loop.run_for(1000)
    ctx.check(len(log.joins) == 1, "next-join-lost:" + lab)
    ctx.check(ctx.eq(log.joins[0][0], v["nwkaddr"]), "next-join-changed:" + lab)
    ctx.cover("none")


def cases(tier):
    q = tier == "quick"
    out = [Case("one", joined, ["known", "unknown"], times=1, outstanding=False),
           Case("outstanding", joined, ["known", "unknown"], times=1, outstanding=True),
           Case("two", joined, ["known", "unknown"], times=2, outstanding=False)]
    out.append(Case("aged", aged(joined), ["known", "unknown"], times=1, outstanding=True))
    if not q:
        out.append(Case("three", joined, ["known", "unknown"], times=3, outstanding=True))
    ms = [m for m in messages() if (m[0], m[1], m[2]) != (AREQ, ZDO, "endDeviceAnnceInd")]
    for i in range(8):
        out.append(Case("other-%d" % i, other, ["none"], msgs=ms[i::8]))
    return out

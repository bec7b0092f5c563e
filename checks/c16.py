"""Symbolic execution of ControllerApplication.handle_znp on incoming application messages and on
every other notification, all content symbolic, with several known devices at symbolic
addresses."""
from checks.c06 import messages
from checks.env import (AF, AREQ, BY_NAME, SRSP, ZDO, add_device, enc_fields, frame_bytes, started_app, sym_values)
from checks.history import aged
from sx.case import Case

BOUNDS = "short and extended messages (16-bit and 64-bit source) with every field symbolic, payload 0..3 bytes and the maximum (thorough 0..20); 3 known devices (one the coordinator) with symbolic distinct 16-bit and 64-bit addresses, known or unknown sender; two messages in a row; every other decodable notification and response with symbolic content"
ASSUMPTIONS = ["extended messages use source address mode 2 (16 bit) or 3 (64 bit)", "known devices have distinct addresses"]

COORD = bytes([1, 2, 3, 4, 5, 6, 7, 8])


def setup(ctx, product=0):
    from zigpy.types import EUI64
    app, log, ad, w = started_app(ctx, product)
    nwk = [0, ctx.u16("nwk1"), ctx.u16("nwk2")]
    ieee = [COORD, ctx.bytes("ieee1", 8), ctx.bytes("ieee2", 8)]
    for i in range(3):
        for j in range(i):
            ctx.assume(nwk[i] != nwk[j])
            ctx.assume(ctx.neg(ctx.eq(ieee[i], ieee[j])))
    devs = [app.devices[EUI64(COORD)]]
    for i in (1, 2):
        devs.append(add_device(ctx, app, [0xA0 + i], nwk[i]))
    for i in (1, 2):
        devs[i]._ieee = EUI64(ieee[i])
        [r for r in app.devices.rows if r[1] is devs[i]][0][0] = devs[i]._ieee
        devs[i].lqi = None
    return app, log, ad, w, devs, nwk, ieee


def incoming(ctx, form, n, tag):
    """(frame, values, sender test)"""
    name = "incomingMsg" if form == "short" else "incomingMsgExt"
    c = BY_NAME[(AF, name)]
    vals = sym_values(ctx, c["request"], n, prefix=tag, fixed={"srcaddrmode": 2 if form == "ext16" else 3})
    frame = frame_bytes(AREQ, AF, c["id"], enc_fields(c["request"], vals))
    if form == "short":
        src = vals["srcaddr"]
    elif form == "ext16":
        src = vals["srcaddr"][0] | (vals["srcaddr"][1] << 8)
    else:
        src = vals["srcaddr"]
    return frame, vals, src


def deliver(ctx, forms, sizes, times):
    app, log, ad, w, devs, nwk, ieee = setup(ctx, ctx.choose("product", [0, 1]))
    exp = []
    lq = [None, None, None]
    for i in range(times):
        form = ctx.choose("form%d" % i, forms)
        n = ctx.choose("size%d" % i, sizes)
        frame, vals, src = incoming(ctx, form, n, "m%d." % i)
        who = None
        for k in range(3):
            if (ctx.eq(src, ieee[k]) if form == "ext64" else src == nwk[k]):
                who = k
                break
        w.tr.feed(frame)
        ctx.loop.run_for(1000)
        if who is not None:
            exp.append([who, vals])
            lq[who] = vals["linkquality"]
            ctx.cover("known")
        else:
            ctx.cover("unknown")
        ctx.check(len(log.messages) == len(exp), "delivered-once:" + form)
        for (wh, v), m in zip(exp[-1:], log.messages[-1:]):
            ctx.check(m[0] is devs[wh], "wrong-device:" + form)
            ctx.check(ctx.all([ctx.eq(m[2], v["clusterid"]), ctx.eq(m[3], v["srcendpoint"]),
                               ctx.eq(m[4], v["dstendpoint"])]), "cluster-or-endpoint:" + form)
            ctx.check(ctx.eq(m[5], v["data"]), "payload:" + form)
            ctx.check(ctx.eq(devs[wh].lqi, v["linkquality"]), "link-quality:" + form)
        for k in (1, 2):
            ctx.check(devs[k].lqi is None if lq[k] is None else ctx.eq(devs[k].lqi, lq[k]), "other-link-quality:" + form)
    ctx.check(not w.tr.escaped and not log.joins, "side-effect")
    ctx.check(len(ad.log) == 0, "unexpected-command")
    ctx.observe("data", [m[5] for m in log.messages])


def other(ctx, msgs):
    """No other frame becomes an application message; and it does no harm to the next one."""
    app, log, ad, w, devs, nwk, ieee = setup(ctx, ctx.choose("product", [0, 1]))
    m = ctx.choose("message", msgs)
    vals = sym_values(ctx, m[4], 1, prefix="o.")
    w.tr.feed(frame_bytes(m[0], m[1], m[3], enc_fields(m[4], vals)))
    ctx.loop.run_for(1000)
    lab = "%d.%d.%s" % (m[0], m[1], m[2])
    ctx.check(not log.messages, "handed-on-as-message:" + lab)
    ctx.check(all([d.lqi is None for d in devs[1:]]), "link-quality-from:" + lab)
    frame, vals, src = incoming(ctx, "short", 2, "m.")
    ctx.assume(src == nwk[1])
    w.tr.feed(frame)
    ctx.loop.run_for(1000)
    ctx.check(len(log.messages) == 1 and log.messages[0][0] is devs[1], "next-message-lost:" + lab)
    ctx.check(ctx.eq(log.messages[0][5], vals["data"]), "next-message-changed:" + lab)
    ctx.cover("ignored")


def cases(tier):
    q = tier == "quick"
    out = []
    for f, top in (("short", 233), ("ext16", 223), ("ext64", 223)):
        out.append(Case(f, deliver, ["known", "unknown"], forms=[f], sizes=[0, 1, 2, 3, top] if q else list(range(21)) + [top],
                        times=1))
    out.append(Case("two", deliver, ["known", "unknown"], forms=["short", "ext16", "ext64"], sizes=[2], times=2))
    for f in ("short", "ext16", "ext64"):
        out.append(Case("aged-" + f, aged(deliver), ["known", "unknown"], forms=[f], sizes=[2], times=1))
    if not q:
        out.append(Case("three", deliver, ["known", "unknown"], forms=["short", "ext64"], sizes=[2], times=3))
    ms = [m for m in messages() if (m[0], m[1], m[2]) not in (
        (AREQ, AF, "incomingMsg"), (AREQ, AF, "incomingMsgExt"), (AREQ, ZDO, "endDeviceAnnceInd"))]
    ms.append((SRSP, AF, "incomingMsg", BY_NAME[(AF, "incomingMsg")]["id"], []))
    for i in range(8):
        out.append(Case("other-%d" % i, other, ["ignored"], msgs=ms[i::8]))
    return out

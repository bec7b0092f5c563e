"""Symbolic execution of ControllerApplication.permit_ncp / set_led / handle_znp with symbolic
durations and indication contents for every adapter type."""
from checks.c06 import messages
from checks.env import (AREQ, BY_NAME, SREQ, UTIL, ZDO, Call, add_device, enc_fields, frame_bytes, reply_frame,
                        reply_values, started_app, status_frame, sym_values, zdo_body, zdo_request)
from checks.history import aged
from sx.case import Case

BOUNDS = "durations -300..70000 (each value), every indication and reply content, adapter types 0, 1 and 2; up to 3 indications in a row; LED command answered with any status or not at all; all other decodable messages"
ASSUMPTIONS = []

LED_ID = 3


def leds(ad):
    return [list(d) for d in ad.sent(UTIL, "ledControl")]


def permit(ctx, product):
    app, log, ad, w = started_app(ctx, product)
    d = ctx.int("duration", -300, 70000)
    for i in range(2):
        ad.log.clear()
        w.tr.writes.clear()
        call = Call(ctx, app.permit_ncp(d))
        ctx.loop.run_for(1000000)
        if d >= 0 and d <= 254:
            ctx.check(call.kind == "ok", "refused")
            ctx.check(len(ad.log) == 1 and ad.malformed == 0, "not-one-command")
            t, ct, ss, cid, data = ad.log[0]
            ctx.check(ct == SREQ and ss == ZDO and cid == BY_NAME[(ZDO, "mgmtPermitJoinReq")]["id"], "wrong-command")
            ctx.check(len(data) == 5 and ctx.eq(data[:4], bytes([0x0F, 0xFC, 0xFF, d])), "addressing-or-duration")
            ctx.check(ctx.eq(data[4], 0), "tc-significance")
            ctx.observe("data", data)
            ctx.cover("sent")
        else:
            ctx.check(call.done and call.kind == "exc", "out-of-range-accepted")
            ctx.check(len(w.tr.writes) == 0, "out-of-range-transmitted")
            ctx.cover("refused")


def indications(ctx, product, times, led_answer):
    app, log, ad, w = started_app(ctx, product)
    if led_answer == "status":
        ad.on(UTIL, "ledControl", lambda ct, d: [status_frame(UTIL, "ledControl", ctx.byte("ledstatus"))])
    elif led_answer == "silent":
        ad.on(UTIL, "ledControl", lambda ct, d: [])
    dev = add_device(ctx, app, [1], 0x1234)
    exp = []
    for i in range(times):
        kind = ctx.choose("kind%d" % i, ["permitJoinInd", "mgmtPermitJoinRsp"])
        if kind == "permitJoinInd":
            dur = ctx.byte("duration%d" % i)
            w.tr.feed(frame_bytes(AREQ, ZDO, BY_NAME[(ZDO, kind)]["id"], bytes([dur])))
            if dur == 0:
                exp.append([LED_ID, 0])
                ctx.cover("off")
            else:
                exp.append([LED_ID, 1])
                ctx.cover("on")
        else:
            params, v = reply_values(ctx, kind, ctx.u16("src%d" % i), 0, tag="r%d." % i)
            w.tr.feed(reply_frame(kind, params, v))
            exp.append([LED_ID, 1])
        ctx.loop.run_for(20000000)
        ctx.check(leds(ad) == ([] if product == 1 else exp), "led")
    ctx.check(len(ad.log) == (0 if product == 1 else len(exp)), "other-command")
    ctx.check(not w.tr.escaped, "escaped")
    ctx.observe("leds", leds(ad))


def exchanged(ctx, types):
    """The type of the adapter present now decides, not of one that was there before."""
    from checks.env import SYS, version_frame
    app, log, ad, w = started_app(ctx, types[0])
    for i, p in enumerate(types):
        if i:
            ad.on(SYS, "version", lambda ct, d, p=p: [version_frame(p)])
            if ctx.choose("closed%d" % i, [True, False]):
                ctx.run(app.shutdown())
            ctx.run(app.startup(False))
            ad.log.clear()
        dur = ctx.byte("duration%d" % i)
        w.tr.feed(frame_bytes(AREQ, ZDO, BY_NAME[(ZDO, "permitJoinInd")]["id"], bytes([dur])))
        ctx.loop.run_for(20000000)
        ctx.check(leds(ad) == ([] if p == 1 else [[LED_ID, 0 if dur == 0 else 1]]), "led:%d" % i)
        ctx.check(len(ad.log) == (0 if p == 1 else 1), "other-command:%d" % i)
        ad.log.clear()
        d = ctx.int("d%d" % i, 0, 254)
        call = Call(ctx, app.permit_ncp(d))
        ctx.loop.run_for(1000000)
        ctx.check(call.kind == "ok" and len(ad.log) == 1 and ctx.eq(ad.log[0][4], bytes([0x0F, 0xFC, 0xFF, d, 0])), "permit:%d" % i)
    ctx.cover("done")


def others(ctx, msgs):
    """Nothing else switches the LED."""
    app, log, ad, w = started_app(ctx, ctx.choose("product", [0, 1, 2]))
    m = ctx.choose("message", msgs)
    vals = sym_values(ctx, m[4], 1, prefix="o.")
    w.tr.feed(frame_bytes(m[0], m[1], m[3], enc_fields(m[4], vals)))
    ctx.loop.run_for(1000000)
    ctx.check(len(w.tr.writes) == 0, "command-caused-by:%d.%d.%s" % (m[0], m[1], m[2]))
    ctx.cover("none")


def cases(tier):
    q = tier == "quick"
    out = []
    for p in (0, 1, 2):
        out.append(Case("permit-%d" % p, permit, ["sent", "refused"], product=p))
        out.append(Case("aged-permit-%d" % p, aged(permit), ["sent", "refused"], product=p))
        out.append(Case("aged-indications-%d" % p, aged(indications), ["on", "off"], product=p, times=2, led_answer="ok"))
        for a in ("ok", "status", "silent"):
            out.append(Case("indications-%d-%s" % (p, a), indications, ["on", "off"], product=p, times=3 if q else 5,
                            led_answer=a))
    for types in ((0, 1), (1, 0), (1, 2), (2, 1, 0), (0, 1, 1), (1, 0, 1)):
        out.append(Case("exchanged-" + "-".join(map(str, types)), exchanged, ["done"], types=types))
    ms = [m for m in messages() if (m[0], m[1], m[2]) not in (
        (AREQ, ZDO, "permitJoinInd"), (AREQ, ZDO, "mgmtPermitJoinRsp"))]
    for i in range(4):
        out.append(Case("others-%d" % i, others, ["none"], msgs=ms[i::4]))
    return out

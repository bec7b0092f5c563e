"""Symbolic execution of ControllerApplication.request / mrequest / broadcast and
ZpiObject.from_cluster for application profiles with every argument symbolic."""
from checks.env import (AF, BY_NAME, SREQ, Call, add_device, le, started_app)
from checks.history import aged
from sx.case import Case

BOUNDS = "every device/group address, all four broadcast addresses, every profile 1..65535, endpoint, cluster, transaction number, radius and payload content; payload lengths 0..3, 80, 230/240 (thorough: 0..64, every 16th up to the maximum) and unrepresentable ones (236..300)"
ASSUMPTIONS = []


def send(ctx, app, how, a, data):
    if how == "unicast":
        dev = add_device(ctx, app, [1], a["addr"])
        return app.request(dev, a["profile"], a["cluster"], a["src_ep"], a["dst_ep"], a["tsn"], data,
                           expect_reply=ctx.choose("expect_reply", [True, False]),
                           use_ieee=ctx.choose("use_ieee", [False, True]))
    if how == "group":
        return app.mrequest(a["addr"], a["profile"], a["cluster"], a["src_ep"], a["tsn"], data,
                            hops=ctx.byte("hops"), non_member_radius=ctx.byte("nmr"))
    if how == "broadcast-default":
        return app.broadcast(a["profile"], a["cluster"], a["src_ep"], a["dst_ep"], ctx.u16("grpid"), a["radius"],
                             a["tsn"], data)
    return app.broadcast(a["profile"], a["cluster"], a["src_ep"], a["dst_ep"], ctx.u16("grpid"), a["radius"], a["tsn"],
                         data, a["addr"])


def expected(ctx, how, a, data):
    if how == "unicast":
        return "dataRequest", (le(a["addr"], 2) + bytes([a["dst_ep"], a["src_ep"]]) + le(a["cluster"], 2)
                               + bytes([a["tsn"], 0, 30, len(data)]) + data)
    if how == "group":
        if a["src_ep"] == 0:
            src = 1
            ctx.cover("default-source")
        else:
            src = a["src_ep"]
        mode, dst, radius = 1, 255, 30
    else:
        mode, src, dst, radius = 2, a["src_ep"], a["dst_ep"], a["radius"]
    return "dataRequestExt", (bytes([mode]) + le(a["addr"], 8) + bytes([dst]) + le(0, 2) + bytes([src])
                              + le(a["cluster"], 2) + bytes([a["tsn"], 0, radius]) + le(len(data), 2) + data)


def args(ctx, how, tag=""):
    from zigpy.types import BroadcastAddress
    a = {"profile": ctx.int(tag + "profile", 1, 0xFFFF), "cluster": ctx.u16(tag + "cluster"),
         "src_ep": ctx.byte(tag + "src_ep"), "dst_ep": ctx.byte(tag + "dst_ep"), "tsn": ctx.byte(tag + "tsn"),
         "radius": ctx.byte(tag + "radius")}
    if how == "broadcast":
        a["addr"] = ctx.choose(tag + "addr", [
            BroadcastAddress.ALL_DEVICES, BroadcastAddress.RX_ON_WHEN_IDLE,
            BroadcastAddress.ALL_ROUTERS_AND_COORDINATOR, BroadcastAddress.LOW_POWER_ROUTER])
    elif how == "broadcast-default":
        a["addr"] = 0xFFFD
    else:
        a["addr"] = ctx.u16(tag + "addr")
    return a


def sent(ctx, hows, sizes, times=1):
    app, log, ad, w = started_app(ctx, ctx.choose("product", [0, 1, 2]))
    for i in range(times):
        how = ctx.choose("how%d" % i, hows)
        n = ctx.choose("size%d" % i, sizes)
        a = args(ctx, how, "r%d." % i)
        data = ctx.bytes("r%d.data" % i, n)
        ad.log.clear()
        w.tr.writes.clear()
        call = Call(ctx, send(ctx, app, how, a, data))
        ctx.loop.run_for(1000000)
        lab = how if i == 0 else "second-" + how
        ctx.check(call.kind == "ok", "fails:" + lab)
        ctx.check(ctx.eq(call.value[0], 0), "status:" + lab)
        name, exp = expected(ctx, how, a, data)
        ctx.check(len(ad.log) == 1 and ad.malformed == 0, "not-one-command:" + lab)
        t, ct, ss, cid, got = ad.log[0]
        ctx.check(ct == SREQ and ss == AF and cid == BY_NAME[(AF, name)]["id"], "wrong-command:" + lab)
        ctx.check(len(got) == len(exp), "length:" + lab)
        ctx.check(ctx.eq(got, exp), "fields:" + lab)
        ctx.check(len(w.tr.written()) == len(exp) + 5, "more-than-the-command:" + lab)
        ctx.observe("got", got)
        ctx.cover("sent")


def refused(ctx, how, sizes):
    """A payload too long for the frame: nothing is transmitted, the caller sees a failure, and
    the next message goes out."""
    app, log, ad, w = started_app(ctx, 0)
    n = ctx.choose("size", sizes)
    a = args(ctx, how)
    call = Call(ctx, send(ctx, app, how, a, ctx.bytes("data", 2) + bytes(n - 2)))
    ctx.loop.run_for(7000000)
    ctx.check(call.done, "never-ends:" + how)
    ctx.check(call.kind == "exc" or call.kind == "ok" and call.value[0] != 0, "unrepresentable-accepted:" + how)
    ctx.check(len(w.tr.writes) == 0, "unrepresentable-transmitted:" + how)
    call = Call(ctx, send(ctx, app, how, a, ctx.bytes("data2", 2)))
    ctx.loop.run_for(1000000)
    ctx.check(call.kind == "ok" and len(ad.log) == 1, "blocked-afterwards:" + how)
    ctx.cover("refused")


def cases(tier):
    q = tier == "quick"
    out = []
    for how, top in (("unicast", 240), ("group", 230), ("broadcast", 230), ("broadcast-default", 230)):
        small = [0, 1, 2, 3, 80, top] if q else list(range(65)) + list(range(80, top, 16)) + [top]
        k = 1 if q else 8
        for i in range(k):
            out.append(Case("%s-%d" % (how, i), sent, ["sent"], hows=[how], sizes=small[i::k]))
        out.append(Case("%s-oversize" % how, refused, ["refused"], how=how,
                        sizes=[246, 255, 256, 300] if how == "unicast" else [236, 255, 256, 300]))
        out.append(Case("aged-%s" % how, aged(sent), ["sent"], hows=[how], sizes=[0, 3]))
    out.append(Case("two-messages", sent, ["sent"], hows=["unicast", "group", "broadcast"], sizes=[1, 2], times=2))
    return out

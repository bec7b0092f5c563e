"""Symbolic execution of ControllerApplication.request / broadcast and ZpiObject.from_cluster
for device-management requests with every field symbolic."""
from checks.env import (BY_NAME, SREQ, ZDO, Call, add_device, le, started_app)
from checks.history import aged
from sx.case import Case

BOUNDS = "14 request kinds (and bind/unbind to a group), every target address, transaction number and field value; match-descriptor cluster lists of 0..3 (quick) / 0..8 (thorough) entries each, and of up to 121 in total (as many as fit a frame); expect_reply and use_ieee both ways; permit-join and address requests also as broadcast to any broadcast address"
ASSUMPTIONS = ["requests carry the fields of the Zigbee specification, nothing more or less"]


def request_fields(ctx, kind, nin, nout):
    """(cluster, request body without tsn, expected fields after the destination)"""
    b = lambda n: bytes([ctx.byte(n)])
    h = lambda n: le(ctx.u16(n), 2)
    if kind == "nwkAddrReq":
        x = ctx.bytes("ieee", 8) + b("type") + b("start")
        return 0x0000, x, x
    if kind == "ieeeAddrReq":
        x = h("nwki") + b("type") + b("start")
        return 0x0001, x, x
    if kind in ("nodeDescReq", "powerDescReq", "activeEpReq"):
        x = h("nwki")
        return {"nodeDescReq": 2, "powerDescReq": 3, "activeEpReq": 5}[kind], x, x
    if kind == "simpleDescReq":
        x = h("nwki") + b("ep")
        return 0x0004, x, x
    if kind == "matchDescReq":
        x = h("nwki") + h("profile")
        x += bytes([nin]) + b"".join([h("in%d" % i) for i in range(nin)])
        x += bytes([nout]) + b"".join([h("out%d" % i) for i in range(nout)])
        return 0x0006, x, x
    if kind in ("bindReq", "unbindReq"):
        x = ctx.bytes("src", 8) + b("sep") + h("cluster") + b"\x03" + ctx.bytes("dst", 8) + b("dep")
        return {"bindReq": 0x21, "unbindReq": 0x22}[kind], x, x
    if kind in ("bindReq-group", "unbindReq-group"):
        x = ctx.bytes("src", 8) + b("sep") + h("cluster") + b"\x01" + h("group")
        return {"b": 0x21, "u": 0x22}[kind[0]], x, x + bytes(7)
    if kind in ("mgmtLqiReq", "mgmtRtgReq", "mgmtBindReq"):
        x = b("start")
        return {"mgmtLqiReq": 0x31, "mgmtRtgReq": 0x32, "mgmtBindReq": 0x33}[kind], x, x
    if kind == "mgmtLeaveReq":
        x = ctx.bytes("ieee", 8) + b("options")
        return 0x0034, x, x
    if kind == "mgmtPermitJoinReq":
        x = b("duration") + b("tc")
        return 0x0036, x, x
    raise AssertionError(kind)


KINDS = ["nwkAddrReq", "ieeeAddrReq", "nodeDescReq", "powerDescReq", "simpleDescReq", "activeEpReq", "matchDescReq",
         "bindReq", "unbindReq", "bindReq-group", "unbindReq-group", "mgmtLqiReq", "mgmtRtgReq", "mgmtBindReq",
         "mgmtLeaveReq", "mgmtPermitJoinReq"]


def expected(ctx, kind, nwk, exp):
    if kind in ("nwkAddrReq", "ieeeAddrReq"):
        return exp
    if kind == "mgmtPermitJoinReq":
        if nwk == 0xFFFC:
            ctx.cover("broadcast-mode")
            return b"\x0f" + le(nwk, 2) + exp
        ctx.cover("short-mode")
        return b"\x02" + le(nwk, 2) + exp
    return le(nwk, 2) + exp


def check_sent(ctx, ad, w, name, exp, lab):
    ctx.check(len(ad.log) == 1 and ad.malformed == 0, "not-one-command:" + lab)
    t, ct, ss, cid, data = ad.log[0]
    ctx.check(ct == SREQ and ss == ZDO and cid == BY_NAME[(ZDO, name)]["id"], "wrong-command:" + lab)
    ctx.check(len(data) == len(exp), "length:" + lab)
    ctx.check(ctx.eq(data, exp), "fields:" + lab)
    ctx.check(len(w.tr.written()) == len(data) + 5, "more-than-the-command:" + lab)
    ctx.observe("data", data)


def unicast(ctx, kind, sizes, sizes2=None):
    app, log, ad, w = started_app(ctx, ctx.choose("product", [0, 1, 2]))
    nwk = ctx.u16("nwk")
    tsn = ctx.byte("tsn")
    nin = nout = 0
    if kind == "matchDescReq":
        nin, nout = ctx.choose("nin", sizes), ctx.choose("nout", sizes2 or sizes)
    cluster, body, exp = request_fields(ctx, kind, nin, nout)
    name = kind.split("-")[0]
    dev = add_device(ctx, app, [1], nwk)
    call = Call(ctx, app.request(dev, 0, cluster, 0, 0, tsn, bytes([tsn]) + body,
                                 expect_reply=ctx.choose("expect_reply", [True, False]),
                                 use_ieee=ctx.choose("use_ieee", [False, True])))
    ctx.loop.run_for(1000000)
    ctx.check(call.kind == "ok" and call.value[0] == 0, "fails:" + kind)
    check_sent(ctx, ad, w, name, expected(ctx, kind, nwk, exp), kind)
    ctx.cover("sent")


def broadcast(ctx, kind):
    """The same request addressed to a broadcast address."""
    from zigpy.types import BroadcastAddress
    app, log, ad, w = started_app(ctx, 0)
    addr = ctx.choose("address", [BroadcastAddress.ALL_DEVICES, BroadcastAddress.RX_ON_WHEN_IDLE,
                                  BroadcastAddress.ALL_ROUTERS_AND_COORDINATOR, BroadcastAddress.LOW_POWER_ROUTER])
    tsn = ctx.byte("tsn")
    cluster, body, exp = request_fields(ctx, kind, 1, 1)
    call = Call(ctx, app.broadcast(0, cluster, 0, 0, 0, ctx.byte("radius"), tsn, bytes([tsn]) + body, addr))
    ctx.loop.run_for(1000000)
    ctx.check(call.kind == "ok" and call.value[0] == 0, "broadcast-fails:" + kind)
    check_sent(ctx, ad, w, kind, expected(ctx, kind, int(addr), exp), "broadcast-" + kind)
    ctx.cover("sent")


def sequence(ctx, kinds):
    """Two requests to two devices do not influence each other."""
    app, log, ad, w = started_app(ctx, 0)
    for i in range(2):
        k = ctx.choose("kind%d" % i, kinds)
        nwk = ctx.u16("nwk%d" % i)
        tsn = ctx.byte("tsn%d" % i)
        cluster, body, exp = request_fields(ctx, k, 1, 2)
        dev = add_device(ctx, app, [i + 1], nwk)
        ad.log.clear()
        w.tr.writes.clear()
        call = Call(ctx, app.request(dev, 0, cluster, 0, 0, tsn, bytes([tsn]) + body))
        ctx.loop.run_for(1000000)
        ctx.check(call.kind == "ok", "fails:" + k)
        check_sent(ctx, ad, w, k.split("-")[0], expected(ctx, k, nwk, exp), "second-" + k if i else k)
    ctx.cover("sent")


def cases(tier):
    q = tier == "quick"
    out = []
    for k in KINDS:
        cov = ["sent"] + (["broadcast-mode", "short-mode"] if k == "mgmtPermitJoinReq" else [])
        out.append(Case(k, unicast, cov, kind=k, sizes=[0, 1, 2, 3] if q else range(9)))
    for a, b in ((60, 0), (0, 60), (60, 61), (1, 120)) if q else ((60, 0), (0, 60), (60, 61), (100, 20), (121, 0), (0, 121), (1, 120)):
        out.append(Case("matchDescReq-%d-%d" % (a, b), unicast, ["sent"], kind="matchDescReq", sizes=[a], sizes2=[b]))
    for k in ("nwkAddrReq", "matchDescReq", "mgmtPermitJoinReq", "mgmtLeaveReq"):
        out.append(Case("broadcast-" + k, broadcast, ["sent"], kind=k))
    for k in KINDS:
        out.append(Case("aged-" + k, aged(unicast), ["sent"], kind=k, sizes=[1, 2]))
    for i in range(4):
        out.append(Case("sequence-%d" % i, sequence, ["sent"], kinds=[k for k in KINDS if k != "mgmtPermitJoinReq"][i::4]))
    return out

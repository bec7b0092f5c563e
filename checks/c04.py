"""Symbolic execution of Gateway.data_received / API.data_received / handle_znp on streams in
which a faulty frame (symbolic content) stands between good frames that answer pending requests
and waits."""
from checks.env import (AF, AREQ, BY_ID, MT, SOF, SRSP, SUBSYSTEMS, SYS, UTIL, ZDO, Adapter, AppRecorder, Call,
                        BY_NAME, add_device, decodable, enc_fields, eui, frame_bytes, mt_frame, new_api,
                        same_fields, started_app, subsystem, sym_values, xor)
from checks.history import aged
from sx.case import Case

BOUNDS = "one faulty frame (thorough: two) of every kind - wrong checksum, unknown type, subsystem or command id, truncated or over-promising payload of the pending request's own response, undecodable message of the protocol table, failing application handler - with symbolic bytes, at every position among three good frames (notification, response of the pending request, awaited message; symbolic content), all in one read, one read per frame, or cut inside frames; up to 120 faulty frames before, between and after good ones, in one read or one read each"
ASSUMPTIONS = ["the application handler fails with any Exception subclass (17 classes are run, among them AttributeError, StopIteration, a time-out, zigpy's DeliveryError, the package's own CommandError and a class unknown to it)"]

REQ = (SYS, "osalNvRead", {"id": 7, "offset": 0})


def cmd0(ct, ss):
    return (ct << 5) | ss


def raw_frame(c0, cid, data):
    body = bytes([len(data), c0, cid]) + data
    return bytes([SOF]) + body + bytes([xor(body)])


def bad_frame(ctx, kind, tag, few=False):
    """(frame, content to recognise it by or None)"""
    if kind == "checksum":
        f = frame_bytes(SRSP, SYS, BY_NAME[(SYS, "osalNvRead")]["id"],
                        b"\x00\x02" + ctx.bytes(tag + "v", 2))
        e = ctx.int(tag + "err", 1, 255)
        return f[:-1] + bytes([f[-1] ^ e])
    if kind == "type":
        ct = ctx.int(tag + "type", 4, 7)
        ss = ctx.choose(tag + "ss", (AF, ZDO) if few else SUBSYSTEMS)
        return raw_frame((ct << 5) | ss, ctx.byte(tag + "id"), ctx.bytes(tag + "d", 2))
    if kind == "subsystem":
        ss = ctx.choose(tag + "ss", [10, 31] if few else [s for s in range(32) if s not in SUBSYSTEMS])
        return raw_frame((ctx.int(tag + "type", 0, 3) << 5) | ss, ctx.byte(tag + "id"), ctx.bytes(tag + "d", 2))
    if kind == "command":
        ss = ctx.choose(tag + "ss", (AF, ZDO) if few else SUBSYSTEMS)
        cid = ctx.choose(tag + "id", [i for i in range(256) if (ss, i) not in BY_ID][:4] + [255])
        if (ss, cid) in BY_ID:
            ctx.stop()
        return raw_frame((ctx.choose(tag + "type", [2, 3]) << 5) | ss, cid, ctx.bytes(tag + "d", 2))
    if kind == "truncated":  # shorter than its fixed fields
        n = ctx.choose(tag + "n", [0, 1])
        return frame_bytes(SRSP, SYS, BY_NAME[(SYS, "osalNvRead")]["id"], ctx.bytes(tag + "t", n))
    if kind == "promised":  # length byte larger than what follows
        n = ctx.choose(tag + "n", [0, 1, 3])
        more = ctx.int(tag + "more", n + 1, 255)
        return frame_bytes(SRSP, SYS, BY_NAME[(SYS, "osalNvRead")]["id"],
                           bytes([ctx.byte(tag + "st"), more]) + ctx.bytes(tag + "t", n))
    if kind == "empty-notification":  # notification without its fields
        m = ctx.choose(tag + "m", [(ZDO, "endDeviceAnnceInd"), (AF, "incomingMsg"), (ZDO, "activeEpRsp"),
                                   (ZDO, "mgmtPermitJoinRsp"), (ZDO, "permitJoinInd"), (ZDO, "stateChangeInd")])
        return frame_bytes(AREQ, m[0], BY_NAME[m]["id"], b"")
    if kind == "undecodable":
        ms = [c for c in MT if c["type"] == AREQ and not decodable(c["request"])][:12]
        c = ctx.choose(tag + "m", ms)
        return frame_bytes(AREQ, c["ss"], c["id"], ctx.bytes(tag + "u", 1))
    raise AssertionError(kind)


class Custom(Exception):
    """An error of somebody else's making."""


def errors():
    import asyncio
    from zigpy.exceptions import DeliveryError
    from zigpy_cc.exception import CommandError
    return [RuntimeError("x"), KeyError("x"), AttributeError("x"), AssertionError(), OverflowError(), TypeError("x"),
            OSError(5, "x"), StopIteration(), asyncio.TimeoutError(), asyncio.InvalidStateError(), DeliveryError("x"),
            CommandError(3, "x"), Custom("x", 1), UnicodeDecodeError("utf8", b"\xff", 0, 1, "x"), MemoryError(),
            RecursionError("x"), NotImplementedError()]


KINDS = ["checksum", "type", "subsystem", "command", "truncated", "promised", "empty-notification", "undecodable"]


def deliver(ctx, tr, frames, how):
    if how == "one-read":
        tr.feed(b"".join(frames))
    elif how == "per-frame":
        for f in frames:
            tr.feed(f)
            ctx.loop.run_for(1000)
    else:  # cut inside every frame
        data = b"".join(frames)
        cuts, n = [], 0
        for f in frames:
            cuts.append(n + 2)
            n += len(f)
        last = 0
        for c in cuts:
            tr.feed(data[last:c])
            ctx.loop.run_for(1000)
            last = c
        tr.feed(data[last:])
    ctx.loop.run_for(1000)


def api_level(ctx, kinds, how, nfaults):
    app = AppRecorder()
    ad = Adapter(ctx)
    ad.default = False
    api, w = new_api(ctx, ad, app)
    from zigpy_cc.types import CommandType
    req = Call(ctx, api.request(subsystem(REQ[0]), REQ[1], dict(REQ[2])))
    queued = Call(ctx, api.request(subsystem(SYS), "ping", {"capabilities": 1}))
    wait = Call(ctx, api.wait_for(CommandType.AREQ, subsystem(ZDO), "stateChangeInd").wait())
    ctx.loop.settle()

    good, exp = [], []
    for ct, ss, name in ((AREQ, ZDO, "tcDeviceInd"), (SRSP, SYS, "osalNvRead"), (AREQ, ZDO, "stateChangeInd")):
        c = BY_NAME[(ss, name)]
        ps = c["response"] if ct == SRSP else c["request"]
        vals = sym_values(ctx, ps, 2, prefix=name + ".")
        if name == "osalNvRead":
            vals["status"] = 0
        good.append(frame_bytes(ct, ss, c["id"], enc_fields(ps, vals)))
        exp.append((name, ps, vals))
    frames = list(good)
    fails = []
    for i in range(nfaults):
        kind = ctx.choose("kind%d" % i, kinds)
        pos = ctx.choose("pos%d" % i, range(len(frames) + 1))
        if kind == "handler":
            c = BY_NAME[(ZDO, "leaveInd")]
            vals = sym_values(ctx, c["request"], 1, prefix="leave%d." % i)
            f = frame_bytes(AREQ, ZDO, c["id"], enc_fields(c["request"], vals))
            fails.append("leaveInd")
        else:
            f = bad_frame(ctx, kind, "x%d." % i)
        frames.insert(pos, f)
    excs = errors()
    exc = excs[ctx.choose("error", range(len(excs)))] if fails else None

    def hook(obj):
        if obj.command in fails:
            raise exc

    app.hook = hook
    label = "-".join(kinds) if len(kinds) == 1 else "faults"
    deliver(ctx, w.tr, frames, how)
    ctx.check(not w.tr.escaped, "exception-escapes:" + label)
    seen = [o for o in app.objs if o.command not in fails]
    ctx.check([o.command for o in seen] == [n for n, p, v in exp], "good-frame-lost-or-invented:" + label)
    for o, (n, ps, vals) in zip(seen, exp):
        ctx.check(same_fields(ctx, ps, o.payload, vals), "good-frame-changed:" + label)
    ctx.check(req.kind == "ok", "pending-request-not-answered:" + label)
    ctx.check(same_fields(ctx, exp[1][1], req.value.payload, exp[1][2]), "pending-request-wrong-content:" + label)
    ctx.check(wait.kind == "ok", "pending-wait-not-served:" + label)
    ctx.check(same_fields(ctx, exp[2][1], wait.value.payload, exp[2][2]), "pending-wait-wrong-content:" + label)
    ctx.observe("payload", req.value.payload)
    # and the channel still works: the queued request is sent and answered
    ctx.check(not queued.done, "queued-request-completed:" + label)
    w.tr.feed(mt_frame(SRSP, SYS, "ping", {"capabilities": 5}))
    ctx.loop.run_for(1000)
    ctx.check(queued.kind == "ok", "later-request-lost:" + label)
    ctx.cover("survived")


def storm(ctx, kind, how, n):
    """Many faulty frames, then good ones, in one read (or in many)."""
    app = AppRecorder()
    ad = Adapter(ctx)
    ad.default = False
    api, w = new_api(ctx, ad, app)
    from zigpy_cc.types import CommandType
    req = Call(ctx, api.request(subsystem(REQ[0]), REQ[1], dict(REQ[2])))
    wait = Call(ctx, api.wait_for(CommandType.AREQ, subsystem(ZDO), "stateChangeInd").wait())
    ctx.loop.settle()

    def hook(obj):
        if obj.command == "leaveInd":
            raise RuntimeError("x")
    app.hook = hook
    if kind == "handler":
        c = BY_NAME[(ZDO, "leaveInd")]
        f = frame_bytes(AREQ, ZDO, c["id"], enc_fields(c["request"], sym_values(ctx, c["request"], 1, prefix="l.")))
    else:
        f = bad_frame(ctx, kind, "x.", few=True)
    rd = BY_NAME[(SYS, "osalNvRead")]
    val = ctx.bytes("val", 2)
    good = [mt_frame(SRSP, SYS, "osalNvRead", {"status": 0, "len": 2, "value": val}),
            mt_frame(AREQ, ZDO, "stateChangeInd", {"state": ctx.byte("state")})]
    deliver(ctx, w.tr, [f] * n + good[:1] + [f] * n + good[1:] + [f] * n, how)
    ctx.check(not w.tr.escaped, "storm-exception-escapes:" + kind)
    ctx.check([o.command for o in app.objs if o.command != "leaveInd"] == ["osalNvRead", "stateChangeInd"],
              "storm-good-frame-lost-or-invented:" + kind)
    ctx.check(req.kind == "ok" and ctx.eq(req.value.payload["value"], val), "storm-request:" + kind)
    ctx.check(wait.kind == "ok", "storm-wait:" + kind)
    ctx.cover("survived")


def app_level(ctx, kinds, how):
    """Through the application: the handler of a device message fails, or a frame is bad."""
    app, log, ad, w = started_app(ctx, ctx.choose("product", [0, 1]))
    dev = add_device(ctx, app, [1], 0x1234)
    kind = ctx.choose("kind", kinds)
    inc = BY_NAME[(AF, "incomingMsg")]

    def msg(tag, n=2):
        vals = sym_values(ctx, inc["request"], n, prefix=tag)
        vals["srcaddr"] = 0x1234
        return vals, frame_bytes(AREQ, AF, inc["id"], enc_fields(inc["request"], vals))

    ann = sym_values(ctx, BY_NAME[(ZDO, "endDeviceAnnceInd")]["request"], 0, prefix="ann.")
    aframe = frame_bytes(AREQ, ZDO, BY_NAME[(ZDO, "endDeviceAnnceInd")]["id"],
                         enc_fields(BY_NAME[(ZDO, "endDeviceAnnceInd")]["request"], ann))
    m1, f1 = msg("m1.")
    m2, f2 = msg("m2.")
    frames = [f1, aframe, f2]
    pos = ctx.choose("pos", range(4))
    if kind == "handler":
        excs = errors()
        exc = excs[ctx.choose("error", range(len(excs)))]
        bad = msg("bad.", 3)[1]
        orig = app.handle_message

        def failing(sender, profile, cluster, src_ep, dst_ep, message):
            if len(message) == 3:
                raise exc
            orig(sender, profile, cluster, src_ep, dst_ep, message)

        app.handle_message = failing
    elif kind == "join":
        bad = frame_bytes(AREQ, ZDO, BY_NAME[(ZDO, "endDeviceAnnceInd")]["id"],
                          b"\x01\x00\x02\x00" + ctx.bytes("ieee", 8) + b"\x00")
        orig_join = app.handle_join

        def failing_join(nwk, ieee, parent):
            if not ann_ok[0]:
                raise ValueError("join")
            orig_join(nwk, ieee, parent)

        ann_ok = [True]
        app.handle_join = failing_join
    else:
        bad = bad_frame(ctx, kind, "x.", few=True)
    frames.insert(pos, bad)
    if kind == "join":
        for i, f in enumerate(frames):
            ann_ok[0] = i != pos
            w.tr.feed(f)
    else:
        deliver(ctx, w.tr, frames, how)
    ctx.loop.run_for(1000)
    ctx.check(not w.tr.escaped, "app-exception-escapes:" + kind)
    got = [m for m in log.messages if len(m[5]) == 2]
    ctx.check(len(got) == 2, "app-message-lost:" + kind)
    for m, vals in zip(got, (m1, m2)):
        ctx.check(m[0] is dev, "app-sender:" + kind)
        ctx.check(ctx.all([ctx.eq(m[2], vals["clusterid"]), ctx.eq(m[3], vals["srcendpoint"]),
                           ctx.eq(m[4], vals["dstendpoint"]), ctx.eq(m[5], vals["data"])]),
                  "app-message-changed:" + kind)
    ctx.check(len(log.joins) == 1, "app-join-lost:" + kind)
    ctx.check(ctx.all([ctx.eq(log.joins[0][0], ann["nwkaddr"]), ctx.eq(list(log.joins[0][1]), list(ann["ieeeaddr"]))]),
              "app-join-changed:" + kind)
    ctx.observe("join", log.joins[0][0])
    # the coordinator still answers requests
    c = Call(ctx, app._api.request(subsystem(SYS), "ping", {"capabilities": 1}))
    ctx.loop.run_for(1000000)
    ctx.check(c.kind == "ok", "app-later-request-lost:" + kind)
    ctx.cover("survived")


def cases(tier):
    out = []
    for k in KINDS + ["handler"]:
        for how in ("one-read", "per-frame", "cut"):
            out.append(Case("api-%s-%s" % (k, how), api_level, ["survived"], kinds=[k], how=how, nfaults=1))
        for n in (3, 40):
            for how in ("one-read", "per-frame"):
                out.append(Case("storm-%s-%d-%s" % (k, n, how), storm, ["survived"], kind=k, n=n, how=how))
    if tier == "thorough":
        for k in KINDS + ["handler"]:
            for k2 in ["checksum", "command", "truncated", "handler"]:
                out.append(Case("api2-%s-%s" % (k, k2), api_level, ["survived"], kinds=[k, k2], how="one-read",
                                nfaults=2))
    for k in KINDS + ["handler", "join"]:
        for how in ("one-read", "cut"):
            out.append(Case("app-%s-%s" % (k, how), app_level, ["survived"], kinds=[k], how=how))
    for k in KINDS + ["handler"]:
        out.append(Case("aged-api-%s" % k, aged(api_level), ["survived"], kinds=[k], how="one-read", nfaults=1))
    for k in ("checksum", "truncated", "handler", "join"):
        out.append(Case("aged-app-%s" % k, aged(app_level), ["survived"], kinds=[k], how="one-read"))
    return out

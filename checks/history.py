"""A long, eventful life before a scenario: what came before must make no difference.

aged(fn) runs the same harness after new_api / new_gateway / started_app took the object through
several hundred answered requests, failures, time-outs, cancellations, faulty frames, unanswered
device requests, joins and incoming messages (concrete values, virtual time)."""
from checks import env

MS = 1000
S = 1000 * MS


def aged(fn):
    def run(ctx, **kw):
        env.AGE[0] = True
        try:
            fn(ctx, **kw)
        finally:
            env.AGE[0] = False
    run.__name__ = "aged_" + fn.__name__
    run.__module__ = fn.__module__
    run.__doc__ = fn.__doc__
    return run


class Never(OSError):
    pass


def junk(tr, n=30):
    """Faulty frames of every kind, noise, and frames cut over reads."""
    for i in range(n):
        f = env.frame_bytes(2, 5, 0xC0, bytes([9, i]))
        tr.feed(f[:-1] + bytes([f[-1] ^ (1 + i)]))  # checksum
        b = bytes([1, (5 + i % 3) << 5 | 1, 7, 3])
        tr.feed(b"\xfe" + b + bytes([env.xor(b)]))  # type
        b = bytes([0, 0x40 | 28, i])
        tr.feed(b"\xfe" + b + bytes([env.xor(b)]))  # subsystem
        tr.feed(env.frame_bytes(2, 5, 0xFB, b"\x01"))  # command
        tr.feed(env.frame_bytes(2, 5, 0xC1, b"\x01"))  # truncated
        tr.feed(bytes([i, 0x33, 0]))
        g = env.frame_bytes(2, 5, 0xC0, b"\x05")
        tr.feed(g[:2])
        tr.feed(g[2:])
    big = env.frame_bytes(2, 28, 1, bytes(250))
    tr.feed(big * 4)


def age_gateway(tr, api):
    n = len(api.frames)
    junk(tr)
    env_ok = not tr.escaped
    del api.frames[:]
    tr.escaped = [] if env_ok else tr.escaped
    return n


def age_api(ctx, api, w, ad, seen):
    """`seen`: clears what the application recorder saw."""
    if ad is None:
        return
    tr = w.tr
    Call = env.Call
    ss = env.subsystem
    good = []
    ok = {"mode": "ok"}

    def reply(ct, data):
        m = ok["mode"]
        if m == "ok":
            return [(1, env.status_frame(env.SYS, "osalNvWrite", 0))]
        if m == "bad":
            return [(1, env.status_frame(env.SYS, "osalNvWrite", 9))]
        return None
    cid = env.BY_NAME[(env.SYS, "osalNvWrite")]["id"]
    saved = ad.handlers.get((env.SYS, cid)), ad.default
    ad.on(env.SYS, "osalNvWrite", reply)
    arg = {"id": 0xF00, "offset": 0, "len": 1, "value": b"\x01"}

    def one(mode, wait):
        ok["mode"] = mode
        c = Call(ctx, api.request(ss(env.SYS), "osalNvWrite", arg))
        ctx.loop.run_for(wait)
        return c
    vid = (env.SYS, env.BY_NAME[(env.SYS, "version")]["id"])
    had = vid in ad.handlers
    if not had:
        ad.on(env.SYS, "version", lambda ct, data: [(1, env.version_frame(1))])
    good.append(Call(ctx, api.version()))
    ctx.loop.run_for(10 * MS)
    if not had:
        del ad.handlers[vid]
    for name in ("resetReq", "resetReq"):
        c = Call(ctx, api.request(ss(env.SYS), name, {"type": 1}))
        ctx.loop.run_for(1)
        tr.feed(env.frame_bytes(env.AREQ, env.SYS, env.BY_NAME[(env.SYS, "resetInd")]["id"], bytes(6)))
        ctx.loop.run_for(1 * MS)
        good.append(c)
    for i in range(90):
        good.append(one("ok", 2))
    for i in range(12):
        good.append(Call(ctx, api.request(ss(env.SYS), "osalNvWrite", arg)))
    ctx.loop.run_for(1 * MS)
    for i in range(12):
        one("bad", 2)
    junk(tr, 8)
    for i in range(3):
        one("silent", 7 * S)
    c = one("silent", 1 * S)
    q = Call(ctx, api.request(ss(env.SYS), "osalNvWrite", arg))
    q.cancel()
    c.cancel()
    ctx.loop.run_for(10)
    api_fail = tr.fail
    tr.fail = Never("write failed")
    one("ok", 2)
    tr.fail = api_fail
    one("ok", 7 * S)
    for i in range(160):
        good.append(one("ok", 2))
    for i in range(40):  # unsolicited
        tr.feed(env.status_frame(env.SYS, "osalNvWrite", i & 1))
        tr.feed(env.mt_frame(env.AREQ, env.ZDO, "stateChangeInd", {"state": i & 7}))
    if saved[0] is None:
        ad.handlers.pop((env.SYS, cid), None)
    else:
        ad.handlers[(env.SYS, cid)] = saved[0]
    ctx.loop.run_for(70 * S)
    ctx.check(all([c.kind == "ok" for c in good]), "history:request-fails")
    ctx.check(not tr.escaped, "history:escaped")
    seen()
    clear(ad, w)


def clear(ad, w):
    ad.log.clear()
    ad.raw.clear()
    ad.malformed = 0
    w.tr.writes.clear()
    for n in ("changes", "trace"):
        if hasattr(ad, n):
            getattr(ad, n).clear()
    if hasattr(ad, "steps"):
        ad.steps = 0


def age_app(ctx, app, log, ad, w):
    def seen():
        log.messages.clear()
        log.joins.clear()
    age_api(ctx, app._api, w, ad, seen)
    tr = w.tr
    Call = env.Call
    old = list(app.devices.rows)
    devs = [env.add_device(ctx, app, [0xE0, i], 0xE000 + i) for i in range(4)]
    good = []
    n = 0
    for rnd in range(3):
        for d in devs:
            for k in ("nodeDescRsp", "activeEpRsp", "mgmtLqiRsp"):
                n += 1
                body = b"\x00" if k == "mgmtLqiRsp" else env.le(int(d.nwk), 2)
                good.append(Call(ctx, env.zdo_request(app, d, k, n & 255, body)))
            good.append(Call(ctx, app.request(d, 0x104, 6, 1, 1, n & 255, b"abc")))
        good.append(Call(ctx, app.mrequest(3, 0x104, 6, 1, n & 255, b"abc")))
        good.append(Call(ctx, app.broadcast(0x104, 6, 1, 1, 0, 5, n & 255, b"abc")))
        good.append(Call(ctx, app.permit_ncp(n)))
        ctx.loop.run_for(2 * S)
        for d in devs[:2]:  # the others never reply
            for st in (0, 0x81):
                tr.feed(env.mt_frame(env.AREQ, env.ZDO, "activeEpRsp", {
                    "srcaddr": int(d.nwk), "status": st, "nwkaddr": int(d.nwk), "activeepcount": 1, "activeeplist": [1]}))
        if rnd == 1:
            ctx.loop.run_for(60 * S)
    for i in range(12):
        tr.feed(env.mt_frame(env.AREQ, env.ZDO, "endDeviceAnnceInd", {
            "srcaddr": 0xE000 + i, "nwkaddr": 0xE000 + i, "ieeeaddr": bytes([0xE0, i % 5] + [0] * 6), "capabilities": 0x8E}))
        tr.feed(env.mt_frame(env.AREQ, env.AF, "incomingMsg", {
            "groupid": 0, "clusterid": 6, "srcaddr": 0xE000 + i % 6, "srcendpoint": 1, "dstendpoint": 1,
            "wasbroadcast": i & 1, "linkquality": i, "securityuse": 0, "timestamp": i, "transseqnumber": i,
            "len": 2, "data": b"xy"}))
        tr.feed(env.mt_frame(env.AREQ, env.AF, "dataConfirm", {"status": 0, "endpoint": 1, "transid": i}))
        tr.feed(env.mt_frame(env.AREQ, env.ZDO, "permitJoinInd", {"duration": i & 1}))
        ctx.loop.run_for(100 * MS)
    ctx.loop.run_for(70 * S)
    ctx.check(all([c.kind == "ok" for c in good]), "history:application-request-fails")
    ctx.check(not tr.escaped, "history:escaped")
    for k in [r[0] for r in app.devices.rows if r not in old]:
        del app.devices[k]
    seen()
    clear(ad, w)

"""Symbolic execution of start_znp / boot / registerEndpoints / addToGroup against a reference
adapter with symbolic device state, state changes, active endpoints and group status."""
from checks.env import AF, AREQ, BY_NAME, SRSP, ZDO, Call, frame_bytes, le, mt_frame, status_frame
from checks.nv import (ENDPOINTS, GREEN_POWER, SECONDS, configure, connected, network, register_payload, start, stored)
from sx.case import Case

BOUNDS = "every device state; up to 2 (thorough: 3) other state changes before the confirmation; the confirmation 0..70 s after the start command, in the same chunk as its response, before it or never; active endpoint lists of 0..2 (thorough: 3) arbitrary endpoints, all 13 required ones with one replaced by an arbitrary one, and the complete one, with any status of the answer; every status of the group query (with any group id and name in its answer) and of the start command; answers of other devices in between; adapter types 0, 1, 2"
ASSUMPTIONS = ["the adapter needs no initialisation (that case is part of C20)"]

EPS = list(ENDPOINTS)


def ready(ctx, product):
    app, log, ad, w = connected(ctx, product)
    net = {"channels": 0x800, "pan": 0x1234, "ext": bytes([1] * 8), "key": bytes(range(16))}
    configure(app, net)
    ad.nv = stored(net, product)
    return app, ad, w


def sent(ad, ss, name):
    return [bytes(d) for d in ad.sent(ss, name)]


def finished_state(ctx, ad, active, group):
    """After a completed start: exactly the missing endpoints were registered, and the group."""
    reg = ad.sent(AF, "register")
    want = []
    for ep in EPS:
        there = False
        for a in active:
            if a == ep:
                there = True
        if not there:
            want.append(ep)
    ctx.check(len(reg) == len(want), "number-of-registrations")
    for ep in want:
        mine = [r for r in reg if r[0] == ep]
        ctx.check(len(mine) == 1, "registered-not-once")
        ctx.check(ctx.eq(mine[0], register_payload(ep)), "registration-of-%d" % ep)
    find = ad.sent(ZDO, "extFindGroup")
    ctx.check(len(find) == 1 and ctx.eq(find[0], bytes([GREEN_POWER[0]]) + le(GREEN_POWER[1], 2)), "group-query")
    add = ad.sent(ZDO, "extAddGroup")
    if group == 0:
        ctx.check(not add, "added-again")
    else:
        ctx.check(len(add) == 1 and ctx.eq(add[0], bytes([GREEN_POWER[0]]) + le(GREEN_POWER[1], 2) + b"\x00"),
                  "not-added-to-the-group")


def endpoints(ctx, product, kind, how, foreign=False, status=False):
    app, ad, w = ready(ctx, product)
    if kind == "few":
        active = [ctx.byte("ep%d" % i) for i in range(how)]
    elif kind == "replaced":
        active = list(EPS)
        active[how] = ctx.byte("ep")
    else:
        active = list(EPS) + [200]
    ad.active = list(active)
    group = ctx.choose("group", [0, 1])
    ad.groups = [GREEN_POWER] if group == 0 else []
    if status:  # whatever the status, the list is what counts
        vals = {"srcaddr": 0, "status": ctx.byte("epstatus"), "nwkaddr": 0, "activeepcount": len(active)}
        ad.on(ZDO, "activeEpReq", ad.guarded(ZDO, "activeEpReq", lambda d: [
            status_frame(ZDO, "activeEpReq", 0), (500, mt_frame(AREQ, ZDO, "activeEpRsp", dict(vals, activeeplist=active)))]))
    if foreign:
        src = ctx.int("src", 1, 0xFFFF)
        lst = ctx.bytes("foreign", 2)
        fr = mt_frame(AREQ, ZDO, "activeEpRsp", {"srcaddr": src, "status": 0, "nwkaddr": src, "activeepcount": 2,
                                                 "activeeplist": list(lst)})

        def with_foreign(d):
            return [(500, fr)] + ad.active_ep(d)
        ad.on(ZDO, "activeEpReq", ad.guarded(ZDO, "activeEpReq", with_foreign))
    call = Call(ctx, app.form_network() if kind == "all" else start(app))
    ctx.loop.run_for(60 * SECONDS)
    ctx.check(call.kind == "ok", "start-fails")
    ctx.check(not ad.changes, "adapter-changed")
    finished_state(ctx, ad, active, group)
    ctx.check(not w.tr.escaped and ad.malformed == 0, "escaped")
    ctx.cover("completed")
    ctx.observe("registered", sent(ad, AF, "register"))


def group_status(ctx, product):
    app, ad, w = ready(ctx, product)
    st = ctx.byte("status")
    name = ctx.bytes("name", ctx.choose("namelen", [0, 1, 16]))
    gid = ctx.u16("groupid")
    ad.on(ZDO, "extFindGroup", lambda ct, d: [mt_frame(SRSP, ZDO, "extFindGroup", {
        "status": st, "groupid": gid, "namelen": len(name), "groupname": name})])
    fail_add = ctx.choose("addstatus", [0, 0xC7])
    ad.on(ZDO, "extAddGroup", lambda ct, d: [status_frame(ZDO, "extAddGroup", fail_add)])
    call = Call(ctx, start(app))
    ctx.loop.run_for(60 * SECONDS)
    if st == 0:
        ctx.check(call.kind == "ok", "start-fails")
        ctx.check(not ad.sent(ZDO, "extAddGroup"), "added-again")
        ctx.cover("member")
    elif st == 1:
        ctx.check(len(ad.sent(ZDO, "extAddGroup")) == 1, "not-added")
        ctx.check(call.kind == ("ok" if fail_add == 0 else "exc"), "outcome")
        ctx.cover("added")
    else:
        ctx.check(call.kind == "exc", "failure-ignored")
        ctx.cover("failed")


def boot(ctx, product, others, when):
    app, ad, w = ready(ctx, product)
    state = ctx.byte("state")
    ad.state = state
    ad.active = list(EPS)
    st = ctx.byte("status")
    rest = [ctx.byte("s%d" % i) for i in range(others)]
    for x in rest:
        ctx.assume(x != 9)
    d = ctx.int("delay", 0, 70 * SECONDS) if when == "later" else 0
    t = {}

    def ind(x):
        return mt_frame(AREQ, ZDO, "stateChangeInd", {"state": x})

    def frames():
        t["start"] = ctx.loop.now
        rsp = status_frame(ZDO, "startupFromApp", st)
        if when == "same-chunk":
            return [rsp + b"".join([ind(x) for x in rest]) + ind(9)]
        if when == "before":
            return [(1000, ind(x)) for x in rest] + [(1000, ind(9)), (2000, rsp)]
        out = [(1000, rsp)] + [(2000, ind(x)) for x in rest]
        if when == "later":
            out.append((3000 + d, ind(9)))
        return out
    ad.boot_frames = frames
    call = Call(ctx, start(app))
    ctx.loop.run_for(150 * SECONDS)
    n = len(ad.sent(ZDO, "startupFromApp"))
    ctx.check(call.done, "never-ends")
    if state == 9:
        ctx.check(n == 0 and call.kind == "ok", "running-coordinator-started-again")
        ctx.cover("running")
        ctx.stop()
    ctx.check(n == 1, "not-started-once")
    if not ctx.any([st == 0, st == 1]):
        ctx.check(call.kind == "exc", "failed-start-ignored")
        ctx.cover("refused")
    elif when == "never":
        ctx.check(call.kind == "exc", "completed-without-confirmation")
        ctx.check(not ad.sent(AF, "register"), "continued-without-confirmation")
        ctx.cover("refused")
    elif when == "later" and d > 59 * SECONDS:
        if d > 61 * SECONDS:
            ctx.check(call.kind == "exc", "completed-without-confirmation")
            ctx.cover("late")
    else:
        ctx.check(call.kind == "ok", "start-fails")
        ctx.check(call.done_at >= t["start"] + (3000 + d if when == "later" else 0), "completed-before-confirmation")
        ctx.check(len(ad.sent(ZDO, "extFindGroup")) == 1, "endpoints-or-group-missing")
        ctx.cover("started")


def unanswered(ctx, product, mode):
    """The query for active endpoints, a registration or the group command fails: so does the start."""
    app, ad, w = ready(ctx, product)
    ad.active = [e for e in EPS if e != 11]
    ad.groups = []
    cmd = ctx.choose("command", ["getDeviceInfo", "activeEpReq", "register", "extFindGroup", "extAddGroup"])
    status = ctx.int("status", 2, 255)

    def fault(step, name):
        if name == cmd:
            return "silent" if mode == "silent" else ("status", status)
    ad.fault = fault
    call = Call(ctx, start(app))
    ctx.loop.run_for(150 * SECONDS)
    ctx.check(call.kind == "exc", "failure-ignored")
    ctx.cover("failed")


def cases(tier):
    q = tier == "quick"
    out = []
    for p in (0, 1, 2):
        for n in range(3 if q else 4):
            out.append(Case("few-%d-%d" % (p, n), endpoints, ["completed"], product=p, kind="few", how=n))
        for i in range(len(EPS)) if p == 0 or not q else [5]:
            out.append(Case("replaced-%d-%d" % (p, i), endpoints, ["completed"], product=p, kind="replaced", how=i))
        out.append(Case("all-%d" % p, endpoints, ["completed"], product=p, kind="all", how=0))
        out.append(Case("foreign-%d" % p, endpoints, ["completed"], product=p, kind="replaced", how=3, foreign=True))
        out.append(Case("query-status-%d" % p, endpoints, ["completed"], product=p, kind="few", how=1, status=True))
        out.append(Case("group-status-%d" % p, group_status, ["member", "added", "failed"], product=p))
        for when, covers in (("later", ["running", "refused", "late", "started"]), ("never", ["running", "refused"]),
                             ("same-chunk", ["running", "refused", "started"]),
                             ("before", ["running", "refused", "started"])):
            for o in range(3 if q else 4):
                out.append(Case("boot-%d-%s-%d" % (p, when, o), boot, covers, product=p, others=o, when=when))
        for m in ("silent", "status"):
            out.append(Case("unanswered-%d-%s" % (p, m), unanswered, ["failed"], product=p, mode=m))
    return out

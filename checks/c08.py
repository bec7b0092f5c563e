"""Symbolic execution of API.request / API.data_received: between a synchronous request and
its response any other message of the protocol table arrives (symbolic content)."""
from checks.c06 import messages
from checks.env import (AF, AREQ, BY_NAME, SRSP, SYS, UTIL, ZDO, Adapter, AppRecorder, Call, enc_fields,
                        frame_bytes, is_variable, mt_frame, new_api, same_fields, subsystem, sym_values)
from checks.history import aged
from sx.case import Case

BOUNDS = "9 requests (with and without status, every subsystem the driver uses) x every other message of the protocol table with symbolic content before the response, every pair of messages from a set of 10 close relatives (quick) / 24 (thorough), and the own response before the request; up to 40 (thorough: 80) other waits pending and 300 (600) requests made meanwhile; response fields symbolic, with status 0 and, in cases of their own, any status"
ASSUMPTIONS = ["the response arrives within the request's timeout"]

REQS = [(SYS, "version", {}), (SYS, "ping", {}), (SYS, "osalNvRead", {"id": 3, "offset": 0}),
        (UTIL, "getDeviceInfo", {}), (ZDO, "activeEpReq", {"dstaddr": 0, "nwkaddrofinterest": 0}),
        (ZDO, "extFindGroup", {"endpoint": 242, "groupid": 0x0B84}),
        (AF, "dataRequest", {"dstaddr": 1, "destendpoint": 1, "srcendpoint": 1, "clusterid": 6, "transid": 9,
                             "options": 0, "radius": 30, "len": 1, "data": b"\x01"}),
        (6, "readConfiguration", {"configid": 98}), (15, "bdbSetChannel", {"isPrimary": 1, "channel": 2048})]


def response(ctx, c, prefix="", status=0):
    vals = sym_values(ctx, c["response"], 2, prefix=prefix)
    if "status" in vals:
        vals["status"] = status
    return vals, frame_bytes(SRSP, c["ss"], c["id"], enc_fields(c["response"], vals))


def all_messages():
    """Every decodable message: responses and notifications, and requests seen as notifications."""
    from checks.env import MT, decodable
    out = messages()
    for c in MT:
        if c["type"] != AREQ and decodable(c["request"]):
            out.append((AREQ, c["ss"], c["name"], c["id"], c["request"]))
    return out


def scenario(ctx, req, foreign, before, any_status=False):
    ss, name, args = ctx.choose("request", req)
    c = BY_NAME[(ss, name)]
    msgs = []
    for i, fs in enumerate(foreign):
        m = ctx.choose("message%d" % i, fs)
        if (m[0], m[1], m[2]) == (SRSP, ss, name):
            ctx.stop()
        vals = sym_values(ctx, m[4], 1, prefix="m%d." % i)
        msgs.append((m, vals, frame_bytes(m[0], m[1], m[3], enc_fields(m[4], vals))))
    app = AppRecorder()
    ad = Adapter(ctx)
    ad.default = False
    api, w = new_api(ctx, ad, app)
    w.tr.writes.clear()
    label = "%d.%s" % (ss, name)
    if before:
        w.tr.feed(response(ctx, c, "early.")[1])
        ctx.loop.run_for(1000)
        ctx.check(len(app.objs) == 1, "early-not-passed:" + label)
        app.objs.clear()
    call = Call(ctx, api.request(subsystem(ss), name, dict(args)))
    ctx.loop.settle()
    ctx.check(len(w.tr.written()) > 0, "not-sent:" + label)
    ctx.check(not call.done, "completed-without-response:" + label)
    from zigpy_cc.types import CommandType
    side = None
    for m, vals, frame in msgs:
        ml = "%d.%d.%s" % (m[0], m[1], m[2])
        wait = Call(ctx, api.wait_for(CommandType(m[0]), subsystem(m[1]), m[2]).wait())
        ctx.loop.settle()
        n = len(app.objs)
        w.tr.feed(frame)
        ctx.loop.run_for(1000)
        ctx.check(not call.done, "completed-by:%s:%s" % (ml, label))
        ctx.check(len(app.objs) == n + 1, "not-passed-to-application:" + ml)
        ctx.check(same_fields(ctx, m[4], app.objs[-1].payload, vals), "passed-on-changed:" + ml)
        ctx.check(wait.kind == "ok" and same_fields(ctx, m[4], wait.value.payload, vals),
                  "other-wait-not-served:" + ml)
    vals, frame = response(ctx, c, status=ctx.byte("status") if any_status else 0)
    w.tr.feed(frame)
    ctx.loop.run_for(1000)
    if any_status and call.kind == "exc":
        from zigpy_cc.exception import CommandError
        ctx.check(isinstance(call.value, CommandError), "failed-otherwise:" + label)
        ctx.check(ctx.eq(call.value.status, vals["status"]), "status-of-another:" + label)
        ctx.check(vals["status"] != 0, "refused:" + label)
        ctx.cover("refused")
        return
    ctx.check(call.kind == "ok", "not-completed:" + label)
    o = call.value
    ctx.observe("payload", o.payload)
    ctx.check(o.command == name and o.subsystem == ss and o.command_type == SRSP, "wrong-response:" + label)
    ctx.check(same_fields(ctx, c["response"], o.payload, vals), "content:" + label)
    ctx.check(not w.tr.escaped, "escaped:" + label)
    ctx.cover("completed")


def crowd(ctx, waits, requests):
    """A wait and a request among many pending waits, with many requests made meanwhile."""
    from zigpy_cc.types import CommandType
    app = AppRecorder()
    ad = Adapter(ctx)
    api, w = new_api(ctx, ad, app)
    ad.on(SYS, "osalNvRead", lambda ct, d: [])
    first = Call(ctx, api.wait_for(CommandType.AREQ, subsystem(ZDO), "stateChangeInd").wait())
    pend = [Call(ctx, api.wait_for(CommandType.AREQ, subsystem(ZDO), "leaveInd", {"srcaddr": i}).wait()) for i in range(waits)]
    ctx.loop.settle()
    for i in range(requests):
        Call(ctx, api.request(subsystem(SYS), "ping", {"capabilities": 1}))
        ctx.loop.run_for(1100)
    req = Call(ctx, api.request(subsystem(SYS), "osalNvRead", {"id": 3, "offset": 0}))
    ctx.loop.run_for(1100)
    vals, frame = response(ctx, BY_NAME[(SYS, "osalNvRead")])
    st = {"state": ctx.byte("state")}
    k = ctx.int("which", 0, waits - 1) if waits else 0
    lv = sym_values(ctx, BY_NAME[(ZDO, "leaveInd")]["request"], 1, prefix="leave.")
    lv["srcaddr"] = k
    ind = mt_frame(AREQ, ZDO, "leaveInd", lv)
    for x in ctx.choose("order", [(0, 1, 2), (2, 1, 0), (1, 2, 0)]):
        w.tr.feed([mt_frame(AREQ, ZDO, "stateChangeInd", st), frame, ind][x])
        ctx.loop.run_for(100)
    ctx.check(first.kind == "ok" and ctx.eq(first.value.payload["state"], st["state"]), "first-wait-lost-in-a-crowd")
    ctx.check(req.kind == "ok" and same_fields(ctx, BY_NAME[(SYS, "osalNvRead")]["response"], req.value.payload, vals),
              "request-lost-in-a-crowd")
    for i in range(waits):
        ctx.check(ctx.eq(pend[i].kind == "ok", k == i), "wait-in-a-crowd")
    ctx.cover("completed")


def relatives(r, msgs, n):
    ss, name, _ = r
    cid = BY_NAME[(ss, name)]["id"]
    rel = [m for m in msgs if (m[3] == cid or m[2] == name or m[1] == ss) and (m[0], m[1], m[2]) != (SRSP, ss, name)]
    rel.sort(key=lambda m: ((m[2] != name), (m[3] != cid), m[1] != ss, m[0], m[3]))
    return rel[:n]


def cases(tier):
    q = tier == "quick"
    msgs = all_messages()
    out = [Case("crowd-%d-%d" % (a, b), crowd, ["completed"], waits=a, requests=b)
           for a, b in ([(40, 0), (3, 300)] if q else [(40, 0), (3, 300), (80, 600)])]
    for r in REQS:
        for k in range(3):
            out.append(Case("%s-any-%d" % (r[1], k), scenario, ["completed"], req=[r], foreign=[msgs[k::3]],
                            before=False))
        rel = relatives(r, msgs, 10 if q else 24)
        out.append(Case("%s-pairs" % r[1], scenario, ["completed"], req=[r], foreign=[rel, rel], before=False))
        st = any(n == "status" for n, t in BY_NAME[(r[0], r[1])]["response"])
        out.append(Case("%s-any-status" % r[1], scenario, ["completed"] + ["refused"] * st, req=[r],
                        foreign=[relatives(r, msgs, 4)], before=False, any_status=True))
        out.append(Case("aged-%s" % r[1], aged(scenario), ["completed"], req=[r], foreign=[relatives(r, msgs, 3)], before=False))
        out.append(Case("%s-early-response" % r[1], scenario, ["completed"], req=[r],
                        foreign=[relatives(r, msgs, 4)], before=True))
    return out

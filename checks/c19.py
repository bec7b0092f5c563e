"""Symbolic execution of start_znp / needsToBeInitialised / validate_item / Items against a
reference adapter whose stored items and the network configuration are all symbolic."""
from checks.env import Call, le, mt_frame, SRSP, SYS, SAPI
from checks.nv import (CHANLIST, EXT_PAN, KEYS_ENABLE, MARK, OTHER_ITEM, OTHER_VALUE, PANID, PRECFGKEY, SECONDS,
                       configure, connected, forget, fresh, network, start, stored)
from sx.case import Case

BOUNDS = "every value of the stored channel list, key-distribution flag, network key, PAN id, extended PAN id and configured-marker (also missing), every network configuration, adapter types 0, 1, 2; one start-up, through the start procedure and through the application; also stored items of a wrong length, and a failing or missing answer to each of the reads"
ASSUMPTIONS = ["the configured channel list is not empty",
               "standard items exist on the adapter (only the configured-marker may be missing)"]


def decide(ctx, product, how, marker, exact):
    """Stored items arbitrary (`exact`: each item is either right or arbitrary)."""
    app, log, ad, w = connected(ctx, product)
    net = network(ctx)
    configure(app, net)
    nv = stored(net, product)
    cur = {CHANLIST: 4, KEYS_ENABLE: 1, PRECFGKEY: 16, PANID: 2, EXT_PAN: 8}
    for i in cur:
        if exact is not None and exact != i:
            continue
        nv[i] = ctx.bytes("nv%d" % i, cur[i])
    if marker == "missing":
        del nv[MARK[product]]
    elif marker == "any":
        nv[MARK[product]] = ctx.bytes("marker", 1)
    ad.nv = dict(nv)
    call = Call(ctx, start(app) if how == "procedure" else app.form_network())
    ctx.loop.run_for(120 * SECONDS)
    ctx.check(call.kind == "ok", "start-fails")
    want = stored(net, product)
    configured = marker != "missing" and ctx.eq(nv[MARK[product]], b"\x55")
    same = ctx.all([ctx.eq(nv[i], want[i]) for i in (CHANLIST, KEYS_ENABLE, PRECFGKEY)])
    pans = ctx.all([ctx.eq(nv[PANID], want[PANID]), ctx.eq(nv[EXT_PAN], want[EXT_PAN])])
    if product != 0:
        pans = ctx.any([pans, ctx.eq(nv[PANID], b"\xff\xff")])
    resume = ctx.all([configured, same, pans])
    changed = len(ad.changes) > 0
    if changed:
        ctx.check(ctx.neg(resume), "matching-adapter-rewritten")
        ctx.check(any([c[0] == "reset" for c in ad.changes]), "not-reset")
        for i in (CHANLIST, KEYS_ENABLE, PRECFGKEY, PANID, EXT_PAN):
            ctx.check(ctx.eq(ad.nv[i], want[i]), "not-reinitialised")
        ctx.check(ctx.eq(ad.nv[MARK[product]], b"\x55"), "not-marked-configured")
        ctx.cover("reinitialised")
    else:
        ctx.check(resume, "different-adapter-resumed")
        ctx.check(set(ad.nv) == set(nv), "stored-items")
        for i in nv:
            ctx.check(ctx.eq(ad.nv[i], nv[i]), "stored-item-changed")
        ctx.check(not [t for t in ad.trace if t in (
            "osalNvWrite", "osalNvItemInit", "writeConfiguration", "resetReq", "bdbSetChannel",
            "bdbStartCommissioning", "startupFromApp")], "changing-command")
        ctx.cover("resumed")
    ctx.check(ctx.eq(ad.nv[OTHER_ITEM], OTHER_VALUE), "other-item-changed")
    ctx.check(ad.malformed == 0 and not w.tr.escaped, "escaped")
    if how == "procedure":
        if not changed:
            exp = "resumed"
        elif product == 0:
            if configured:
                exp = "reset"
            else:
                exp = "restored"
        else:
            exp = "reset"
        ctx.check(ctx.eq(call.value, exp), "outcome-reported")
        ctx.observe("outcome", call.value)


def wrong_length(ctx, product):
    """A stored item of another length is a difference."""
    app, log, ad, w = connected(ctx, product)
    net = network(ctx)
    configure(app, net)
    ad.nv = stored(net, product)
    i = ctx.choose("item", [CHANLIST, KEYS_ENABLE, PRECFGKEY, PANID, EXT_PAN])
    v = ad.nv[i]
    short = ctx.choose("short", [True, False])
    served = v[:-1] if short else v + ctx.bytes("more", 1)
    if product != 0:
        ctx.assume(net["pan"] != 0xFFFF)  # would count as never set
    orig_read = ad.nv_read

    def fault_value(d):
        if int(d[0] | d[1] << 8) == i:
            return [mt_frame(SRSP, SYS, "osalNvRead", {"status": 0, "len": len(served), "value": served})]
        return orig_read(d)

    def fault_conf(d):
        return [mt_frame(SRSP, SAPI, "readConfiguration", {"status": 0, "configid": d[0], "len": len(served),
                                                           "value": served})]
    ad.on(SYS, "osalNvRead", ad.guarded(SYS, "osalNvRead", fault_value))
    if i == PRECFGKEY:
        ad.on(SAPI, "readConfiguration", ad.guarded(SAPI, "readConfiguration", fault_conf))
    call = Call(ctx, start(app))
    ctx.loop.run_for(120 * SECONDS)
    ctx.check(call.kind == "ok", "start-fails")
    ctx.check(any([c[0] == "reset" for c in ad.changes]), "different-adapter-resumed")
    ctx.cover("reinitialised")


def unreadable(ctx, product, mode):
    """The k-th command fails while the adapter is being examined: nothing is changed."""
    app, log, ad, w = connected(ctx, product)
    net = network(ctx)
    configure(app, net)
    ad.nv = stored(net, product)
    before = dict(ad.nv)
    k = ctx.choose("step", range(1, 8))
    status = ctx.int("status", 1, 255)
    if k <= 2:
        ctx.assume(status != 2)  # 2: the marker does not exist

    def fault(step, name):
        if step != k:
            return None
        return "silent" if mode == "silent" else ("status", status)
    ad.fault = fault
    call = Call(ctx, start(app))
    ctx.loop.run_for(120 * SECONDS)
    ctx.check(call.done, "never-ends")
    if k > 1 or mode == "silent":
        ctx.check(call.kind == "exc", "failure-ignored")
    ctx.check(not ad.changes, "unreadable-adapter-rewritten")
    for i in before:
        ctx.check(ctx.eq(ad.nv[i], before[i]), "stored-item-changed")
    ctx.cover("failed")


def cases(tier):
    out = []
    for p in (0, 1, 2):
        for how in ("procedure", "application"):
            for marker in ("missing", "any", "set"):
                covers = ["reinitialised"] if marker == "missing" else ["reinitialised", "resumed"]
                out.append(Case("all-%d-%s-%s" % (p, how, marker), decide, covers, product=p, how=how, marker=marker,
                                exact=None))
            for i in (CHANLIST, KEYS_ENABLE, PRECFGKEY, PANID, EXT_PAN):
                out.append(Case("one-%d-%s-%d" % (p, how, i), decide, ["reinitialised", "resumed"], product=p, how=how,
                                marker="any", exact=i))
        out.append(Case("wrong-length-%d" % p, wrong_length, ["reinitialised"], product=p))
        for m in ("silent", "status"):
            out.append(Case("unreadable-%d-%s" % (p, m), unreadable, ["failed"], product=p, mode=m))
    return out

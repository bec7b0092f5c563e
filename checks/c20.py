"""Symbolic execution of start_znp / initialise / Items against a reference adapter with
persistent memory: every configuration symbolic, and a failure, a lost answer or an abort at
every command of the start, followed by another start."""
from checks.env import AREQ, ZDO, Call, World, le, mt_frame, new_app
from checks.nv import (CHANLIST, EXT_PAN, KEYS_ENABLE, LOGICAL_TYPE, MARK, NvAdapter, OTHER_ITEM, OTHER_VALUE, PANID,
                       PRECFGKEY, SECONDS, STARTUP_OPTION, TC_LINK_KEY, TCLK, ZDO_DIRECT_CB, configure, connected,
                       forget, fresh, network, start, stored)
from sx.case import Case

BOUNDS = "every network configuration; adapter types 0, 1, 2; adapters never configured or configured for another (arbitrary) network; at each of the first 45 commands: any failing status, no answer, lost answer, or abort before or after the command, and a network formation that is accepted but never confirmed, confirmed with another state, or only after 62..80 s; then two further starts"
ASSUMPTIONS = ["the configured channel list is not empty",
               "a start is repeated with the same configuration"]


def contents(ctx, ad, net, product, lab):
    want = {CHANLIST: le(net["channels"], 4), PANID: le(net["pan"], 2), EXT_PAN: net["ext"], PRECFGKEY: net["key"],
            KEYS_ENABLE: b"\x00", LOGICAL_TYPE: b"\x00", ZDO_DIRECT_CB: b"\x01", OTHER_ITEM: OTHER_VALUE}
    if product == 0:
        want[TCLK] = TC_LINK_KEY
    for i in want:
        ctx.check(len(ad.nv[i]) == len(want[i]) and ctx.eq(ad.nv[i], want[i]), "stored-item-%d:%s" % (i, lab))


def complete(ctx, ad, net, product, lab):
    """The commands of one successful initialisation."""
    ch = ad.changes
    contents(ctx, ad, net, product, lab)
    ctx.check(ctx.eq(ad.nv[MARK[product]], b"\x55"), "not-marked-configured:" + lab)
    ctx.check(any([c[0] == "reset" and int(c[1][0]) & 2 for c in ch]), "network-state-not-cleared:" + lab)
    if product == 0:
        ctx.check(not any([c[0] in ("channel", "commission") for c in ch]), "commissioned:" + lab)
    else:
        chans = [c for c in ch if c[0] == "channel"]
        ctx.check(len(chans) == 2 and chans[0][1] == 1 and chans[1][1] == 0, "channels-set:" + lab)
        ctx.check(ctx.eq(chans[0][2], le(net["channels"], 4)), "primary-channels:" + lab)
        ctx.check(ctx.eq(chans[1][2], bytes(4)), "secondary-channels:" + lab)
        ctx.check([c[1] for c in ch if c[0] == "commission"] == [4, 2], "commissioning:" + lab)
        ctx.check(ctx.eq(ad.network, [ad.nv[CHANLIST], ad.nv[PANID], ad.nv[EXT_PAN], ad.nv[PRECFGKEY]]),
                  "formed-another-network:" + lab)
    marks = [k for k, c in enumerate(ch) if c[0] == "write" and c[1] == MARK[product] and c[2] == b"\x55"]
    ctx.check(len(marks) == 1, "marked-not-once:" + lab)
    for c in ch[marks[0] + 1:]:
        ctx.check(product == 0 and c[0] == "write" and c[1] == CHANLIST and ctx.eq(c[2], le(net["channels"], 4)),
                  "changed-after-marking:" + lab)


def prepare(ctx, product, prior):
    ad = NvAdapter(ctx, product)
    net = network(ctx)
    if prior == "fresh":
        ad.nv = fresh(product)
    elif prior == "unmarked":
        ad.nv = fresh(product, ctx.bytes("oldmark", 1))
        ctx.assume(ctx.neg(ctx.eq(ad.nv[MARK[product]], b"\x55")))
    else:
        old = network(ctx, "old.")
        ad.nv = stored(old, product, ctx.choose("olddist", [0, 1]))
        differ = [ctx.eq(old[k], net[k]) for k in ("channels", "key", "pan", "ext")]
        ctx.assume(ctx.neg(ctx.all(differ)))
        if product != 0:
            ctx.assume(old["pan"] != 0xFFFF)
    marked_ok(ctx, ad, net, product)
    return ad, net


def marked_ok(ctx, ad, net, product):
    """Whenever the adapter is marked configured, it holds the configuration."""
    def on_store(i, value):
        if i == MARK[product] and ctx.eq(value, b"\x55"):
            contents(ctx, ad, net, product, "when-marked")
            if product != 0:
                ctx.check([c[1] for c in ad.changes if c[0] == "commission"][-2:] == [4, 2],
                          "marked-before-commissioned")
    ad.on_store = on_store


def fresh_app(ctx, ad, net):
    w = World(ctx, ad)
    app, log = new_app(ctx)
    configure(app, net)
    ctx.run(app.startup(False))
    forget(ad, w)
    return app, w


def initialise(ctx, product, prior, how):
    ad, net = prepare(ctx, product, prior)
    app, w = fresh_app(ctx, ad, net)
    call = Call(ctx, start(app) if how == "procedure" else app.form_network())
    ctx.loop.run_for(120 * SECONDS)
    ctx.check(call.kind == "ok", "start-fails")
    complete(ctx, ad, net, product, "first")
    ctx.check(ad.malformed == 0 and not w.tr.escaped, "escaped")
    ctx.observe("items", [ad.nv[i] for i in sorted(ad.nv)])
    ctx.cover("initialised")
    app, w = fresh_app(ctx, ad, net)
    call = Call(ctx, start(app))
    ctx.loop.run_for(120 * SECONDS)
    ctx.check(call.kind == "ok" and call.value == "resumed" and not ad.changes, "not-resumed")
    ctx.cover("resumed")


def interrupted(ctx, product, prior, mode, steps):
    ad, net = prepare(ctx, product, prior)
    app, w = fresh_app(ctx, ad, net)
    k = ctx.choose("step", steps)
    status = ctx.int("status", 1, 255)
    st = {"hit": False}

    def fault(step, name):
        if step != k:
            return None
        st["hit"] = True
        if mode == "status":
            return None if name == "resetReq" else ("status", status)
        if mode.startswith("abort"):
            ctx.loop.call_soon(call.cancel)
            return "silent" if mode == "abort-before" else "lost"
        return mode
    ad.fault = fault
    call = Call(ctx, app.form_network())
    ctx.loop.run_for(200 * SECONDS)
    ctx.check(call.done, "never-ends")
    if not st["hit"]:
        ctx.cover("not-reached")
        ctx.stop()
    marked = [c for c in ad.changes if c[0] == "write" and c[1] == MARK[product] and c[2] == b"\x55"]
    ad.fault = None
    if call.kind == "ok":
        ctx.check(mode == "status", "failure-ignored")
        complete(ctx, ad, net, product, "tolerated")
    # the next start
    app, w = fresh_app(ctx, ad, net)
    call2 = Call(ctx, start(app))
    ctx.loop.run_for(200 * SECONDS)
    ctx.check(call2.kind == "ok", "next-start-fails")
    if marked:
        ctx.check(call2.value == "resumed" or ad.changes, "?")
        ctx.check(not ad.changes, "complete-adapter-rewritten")
        ctx.cover("complete")
    else:
        ctx.check(call2.value != "resumed" and ad.changes, "half-initialised-adapter-resumed")
        complete(ctx, ad, net, product, "again")
        ctx.cover("again")
    contents(ctx, ad, net, product, "at-the-end")
    app, w = fresh_app(ctx, ad, net)
    call3 = Call(ctx, start(app))
    ctx.loop.run_for(200 * SECONDS)
    ctx.check(call3.kind == "ok" and call3.value == "resumed" and not ad.changes, "not-resumed")


def unconfirmed(ctx, product, prior, how):
    """The adapter accepts the commissioning but never reports (or reports too late, or with
    another state) that it runs as a coordinator."""
    ad, net = prepare(ctx, product, prior)
    app, w = fresh_app(ctx, ad, net)
    started = ad.started
    if how == "never":
        ad.started = lambda: []
    elif how == "other":
        ad.started = lambda: [mt_frame(AREQ, ZDO, "stateChangeInd", {"state": s})
                              for s in [ctx.int("state%d" % i, 0, 255) for i in range(2)] if not s == 9]
    else:
        ad.started = lambda: [(ctx.int("late", 62000000, 80000000), mt_frame(AREQ, ZDO, "stateChangeInd", {"state": 9}))]
    call = Call(ctx, app.form_network())
    ctx.loop.run_for(200 * SECONDS)
    ctx.check(call.done, "never-ends")
    ctx.check(call.kind == "exc", "success-without-a-network")
    ctx.check(not any([c[0] == "write" and c[1] == MARK[product] and c[2] == b"\x55" for c in ad.changes]),
              "marked-without-a-network")
    ad.started = started
    app, w = fresh_app(ctx, ad, net)
    call2 = Call(ctx, start(app))
    ctx.loop.run_for(200 * SECONDS)
    ctx.check(call2.kind == "ok" and call2.value != "resumed" and ad.changes, "next-start")
    complete(ctx, ad, net, product, "again")
    ctx.cover("again")


def cases(tier):
    q = tier == "quick"
    out = []
    for p in (0, 1, 2):
        for prior in ("fresh", "unmarked", "other"):
            for how in ("procedure", "application"):
                out.append(Case("initialise-%d-%s-%s" % (p, prior, how), initialise, ["initialised", "resumed"],
                                product=p, prior=prior, how=how))
        for prior in ("fresh", "other"):
            for how in ("never", "other", "late") if p else ():
                out.append(Case("unconfirmed-%d-%s-%s" % (p, prior, how), unconfirmed, ["again"], product=p,
                                prior=prior, how=how))
            for mode in ("status", "silent", "lost", "abort-before", "abort-after"):
                for part in range(3):
                    steps = list(range(1 + part, 46, 3))
                    out.append(Case("interrupted-%d-%s-%s-%d" % (p, prior, mode, part), interrupted, ["again"],
                                    product=p, prior=prior, mode=mode, steps=steps))
    return out

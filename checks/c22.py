"""Symbolic execution of ControllerApplication.startup / API.version against a reference adapter
with symbolic identity and version, and a failure or missing answer at every step."""
import serial

from checks.env import (AF, AREQ, BY_NAME, SREQ, SRSP, SYS, UTIL, ZDO, Call, World, add_device, frame_bytes, mt_frame,
                        new_app, version_frame)
from checks.nv import SECONDS, NvAdapter, configure, fresh, network, stored
from sx.case import Case

BOUNDS = "every 64-bit and network address, every version content (all 256 adapter types), every device state; start-up with and without forming the network, repeated up to 2 times, with another adapter of another type up to 3 times; at each of the first 30 commands: no answer, or a failing status where it has one; port that cannot be opened; a device already known under the adapter's address"
ASSUMPTIONS = ["what remains registered of an adapter that is there no more is not judged"]

VERSION = ("transportrev", "majorrel", "minorrel", "maintrel")


class PortError(serial.SerialException):
    pass


def setup(ctx, product, tag="", form=True):
    ad = NvAdapter(ctx, product)
    ad.ieee = ctx.bytes(tag + "ieee", 8)
    ad.nwk = ctx.u16(tag + "nwk")
    vers = {n: ctx.byte(tag + n) for n in VERSION}
    vers["revision"] = ctx.int(tag + "revision", 0, 0xFFFFFFFF)
    ad.on(SYS, "version", ad.guarded(SYS, "version", lambda d: [version_frame(product, **vers)]))
    w = World(ctx, ad)
    app, log = new_app(ctx)
    net = {"channels": 0x800, "pan": 0x1234, "ext": bytes([1] * 8), "key": bytes(range(16))}
    configure(app, net)
    if form:
        ad.nv = stored(net, 0 if product not in (0, 1, 2) else product)
    return app, log, ad, w, vers


def reflects(ctx, app, ad, lab):
    from zigpy_cc.zigbee.application import Coordinator
    ctx.check(ctx.eq(list(app.ieee), list(ad.ieee)), "own-ieee:" + lab)
    ctx.check(ctx.eq(app.nwk, ad.nwk), "own-nwk:" + lab)
    mine = [r for r in app.devices.rows if ctx.eq(list(r[0]), list(ad.ieee))]
    ctx.check(len(mine) == 1, "coordinator-entries:" + lab)
    dev = mine[0][1]
    ctx.check(isinstance(dev, Coordinator), "not-a-coordinator:" + lab)
    ctx.check(ctx.eq(list(dev.ieee), list(ad.ieee)) and ctx.eq(dev.nwk, ad.nwk), "coordinator-address:" + lab)
    ctx.check(len([d for d in app.devices.values() if isinstance(d, Coordinator)]) == 1, "coordinators:" + lab)


def success(ctx, form, times, known):
    product = ctx.choose("product", [0, 1, 2])
    app, log, ad, w, vers = setup(ctx, product)
    if known:
        from zigpy.types import EUI64, NWK
        dev = app.add_device(EUI64(list(ad.ieee)), NWK(0))
    add_device(ctx, app, [9, 9], 0x7777)
    ctx.assume(ctx.neg(ctx.eq(ad.ieee, bytes([9, 9, 0, 0, 0, 0, 0, 0]))))
    ad.state = ctx.byte("state") if form else 9
    for i in range(times):
        ad.log.clear()
        call = Call(ctx, app.startup(form))
        ctx.loop.run_for(60 * SECONDS)
        ctx.check(call.kind == "ok", "start-up-fails")
        reflects(ctx, app, ad, "start%d" % i)
        for n in vers:
            ctx.check(ctx.eq(app.version[n], vers[n]), "version-" + n)
        ctx.check(ctx.eq(app.version["product"], product), "version-product")
        first = [(x[2], x[3]) for x in ad.log[:2]]
        ctx.check(first == [(SYS, BY_NAME[(SYS, "ping")]["id"]), (SYS, BY_NAME[(SYS, "version")]["id"])],
                  "ping-and-version-first")
        ctx.check((len(ad.sent(AF, "register")) + len(ad.sent(ZDO, "activeEpReq")) > 0) == form, "forming")
        ctx.check(len(w.transports) == i + 1, "ports-opened")
        led = ad.sent(UTIL, "ledControl")
        ctx.check(len(led) == (1 if form and product != 1 else 0), "led")
        ctx.check(app._api is not None and not w.tr.escaped, "escaped")
    ctx.check(len(app.devices) == 2, "devices")
    # the limit in force: that many broadcasts are transmitted before one of them has settled
    ad.log.clear()
    probes = [Call(ctx, app.broadcast(0x104, 6, 1, 1, 0, 30, i, b"x")) for i in range(18)]
    ctx.loop.run_for(150000)
    limit = 16 if product == 1 else 2
    ctx.check(len(ad.sent(AF, "dataRequestExt")) == limit, "concurrency")
    ctx.loop.run_for(10 * SECONDS)
    ctx.check(all([p.kind == "ok" for p in probes]) and len(ad.sent(AF, "dataRequestExt")) == 18, "probe")
    ctx.observe("own", [list(app.ieee), app.nwk])
    ctx.cover("started")


def exchanged(ctx, form, types):
    """Another adapter, of another type, is there at the next start-up."""
    app, log, ad, w, vers = setup(ctx, types[0])
    for i, p in enumerate(types):
        ad.product = p
        ad.log.clear()
        if i:
            ad.ieee, ad.nwk = ctx.bytes("ieee%d" % i, 8), ctx.u16("nwk%d" % i)
            v = {n: ctx.byte("%s%d" % (n, i)) for n in VERSION}
            vers = dict(v, revision=ctx.int("revision%d" % i, 0, 0xFFFFFFFF))
            ad.nv = stored({"channels": 0x800, "pan": 0x1234, "ext": bytes([1] * 8), "key": bytes(range(16))}, p)
        ad.on(SYS, "version", ad.guarded(SYS, "version", lambda d, p=p, v=vers: [version_frame(p, **v)]))
        call = Call(ctx, app.startup(form))
        ctx.loop.run_for(60 * SECONDS)
        lab = "exchange%d" % i
        ctx.check(call.kind == "ok", "start-up-fails:" + lab)
        ctx.check(ctx.eq(list(app.ieee), list(ad.ieee)), "own-ieee:" + lab)
        ctx.check(ctx.eq(app.nwk, ad.nwk), "own-nwk:" + lab)
        mine = [r for r in app.devices.rows if ctx.eq(list(r[0]), list(ad.ieee))]
        ctx.check(len(mine) == 1, "coordinator-entries:" + lab)
        dev = mine[0][1]
        ctx.check(ctx.eq(list(dev.ieee), list(ad.ieee)) and ctx.eq(dev.nwk, ad.nwk), "coordinator-address:" + lab)
        for n in vers:
            ctx.check(ctx.eq(app.version[n], vers[n]), "version-" + n)
        ctx.check(len(ad.sent(UTIL, "ledControl")) == (1 if form and p != 1 else 0), "led:" + lab)
        ad.log.clear()
        probes = [Call(ctx, app.broadcast(0x104, 6, 1, 1, 0, 30, k, b"x")) for k in range(18)]
        ctx.loop.run_for(150000)
        ctx.check(len(ad.sent(AF, "dataRequestExt")) == (16 if p == 1 else 2), "concurrency:" + lab)
        ctx.loop.run_for(10 * SECONDS)
        ctx.check(all([c.kind == "ok" for c in probes]), "probe:" + lab)
    ctx.cover("started")


def unknown_type(ctx, form):
    product = ctx.byte("product")
    app, log, ad, w, vers = setup(ctx, product)
    call = Call(ctx, app.startup(form))
    ctx.loop.run_for(60 * SECONDS)
    ctx.check(call.done, "never-ends")
    if product <= 2:
        ctx.cover("known")
    else:
        ctx.check(call.kind == "exc", "unknown-type-accepted")
        ctx.check(not ad.changes and len(app.devices) == 0, "unknown-adapter-touched")
        ctx.cover("refused")


def failing(ctx, product, form, mode, steps):
    app, log, ad, w, vers = setup(ctx, product)
    ad.state = 0
    ad.active = []
    ad.groups = []
    k = ctx.choose("step", steps)
    status = ctx.int("status", 10, 255)
    hit = []
    first_read = []

    def fault(step, name):
        if step != k:
            return None
        if mode == "status" and not has_status(name):
            return None
        hit.append(name)
        first_read.append(ad.trace.count("osalNvRead") == 1 and name == "osalNvRead")
        return "silent" if mode == "silent" else ("status", status)
    ad.fault = fault
    call = Call(ctx, app.startup(form))
    ctx.loop.run_for(150 * SECONDS)
    ctx.check(call.done, "never-ends")
    if not hit:
        ctx.cover("not-reached")
        ctx.check(call.kind == "ok", "start-up-fails")
        reflects(ctx, app, ad, "unharmed")
        ctx.stop()
    if mode == "status" and first_read[0] and call.kind == "ok":
        # the configured mark cannot be read: the adapter may be taken for one that has none
        ctx.cover("mark-unreadable")
        reflects(ctx, app, ad, "mark-unreadable")
        ctx.stop()
    ctx.check(call.kind == "exc", "failure-ignored:" + hit[0])
    ctx.cover("failed")
    # it is not the end: a further start-up works
    ad.fault = None
    app.devices.clear()
    call = Call(ctx, app.startup(form))
    ctx.loop.run_for(150 * SECONDS)
    ctx.check(call.kind == "ok", "next-start-up-fails:" + hit[0])
    reflects(ctx, app, ad, "after-failure")


def has_status(name):
    for ss in (SYS, UTIL, ZDO, AF, 6, 15):
        c = BY_NAME.get((ss, name))
        if c is not None and c["response"] is not None:
            return "status" in [n for n, t in c["response"]]
    return False


def garbage(ctx, what):
    """Answers that cannot be decoded, or of other commands, do not make start-up complete."""
    app, log, ad, w, vers = setup(ctx, 0)
    cid = BY_NAME[(UTIL, "getDeviceInfo")]["id"]
    junk = ctx.bytes("junk", 6)
    fr = {"truncated": frame_bytes(SRSP, UTIL, cid, junk), "notification": frame_bytes(AREQ, UTIL, cid, b"\x00" + bytes(13)),
          "other": mt_frame(SRSP, SYS, "ping", {"capabilities": 1})}[what]
    ad.on(UTIL, "getDeviceInfo", lambda ct, d: [fr])
    call = Call(ctx, app.startup(False))
    ctx.loop.run_for(60 * SECONDS)
    ctx.check(call.kind == "exc", "completed-without-answer")
    ctx.cover("failed")


def no_port(ctx):
    app, log, ad, w, vers = setup(ctx, 0)
    exc = ctx.choose("error", [PortError("x"), OSError("y"), RuntimeError("z")])
    w.open_hook = lambda n: exc if n == 1 else None
    call = Call(ctx, app.startup(ctx.choose("form", [False, True])))
    ctx.loop.run_for(60 * SECONDS)
    ctx.check(call.kind == "exc", "completed-without-port")
    call = Call(ctx, app.startup(False))
    ctx.loop.run_for(60 * SECONDS)
    ctx.check(call.kind == "ok", "next-start-up-fails")
    reflects(ctx, app, ad, "after-failure")
    ctx.cover("failed")


def cases(tier):
    out = []
    for form in (False, True):
        f = "form" if form else "plain"
        for known in (False, True):
            for times in (1, 2):
                out.append(Case("success-%s-%d-%s" % (f, times, known), success, ["started"], form=form, times=times,
                                known=known))
        for types in ([0, 1], [1, 0], [2, 1], [1, 2], [0, 1, 0]):
            out.append(Case("exchanged-%s-%s" % (f, "-".join(map(str, types))), exchanged, ["started"], form=form, types=types))
        out.append(Case("unknown-type-" + f, unknown_type, ["known", "refused"], form=form))
        for p in (0, 1, 2):
            for m in ("silent", "status"):
                if form:
                    for part in range(2):
                        out.append(Case("failing-%d-%s-%s-%d" % (p, f, m, part), failing, ["failed"], product=p, form=form,
                                        mode=m, steps=list(range(1 + part, 31, 2))))
                else:
                    out.append(Case("failing-%d-%s-%s" % (p, f, m), failing, ["failed"], product=p, form=form, mode=m,
                                    steps=[1, 2, 3, 4]))
    for x in ("truncated", "notification", "other"):
        out.append(Case("garbage-" + x, garbage, ["failed"], what=x))
    out.append(Case("no-port", no_port, ["failed"]))
    return out

"""Symbolic execution of a whole start (with NetworkOptions) on an unconfigured adapter, with
every combination of given and absent settings."""
from checks.env import World, le, new_app
from checks.nv import CHANLIST, EXT_PAN, KEYS_ENABLE, PANID, PRECFGKEY, SECONDS, NvAdapter, fresh, start
from checks.env import Call, SAPI, SYS, BY_NAME
from sx.case import Case

BOUNDS = "every value of every given setting (PAN id 0..0xFFFF, 64-bit extended PAN id, 128-bit key, 32-bit channel mask), all 16 combinations of given and absent settings, 3 adapter types, an adapter never configured; settings given in every notation the configuration accepts (fixed samples)"
ASSUMPTIONS = ["a configured channel mask is not empty",
               "a setting left out of the configuration arrives as None, except channels, which zigpy's own schema fills with its default (15, 20, 25)"]

NAMES = ("channels", "pan_id", "extended_pan_id", "key")
DEFAULT = {"channels": 0x800, "pan_id": 0x1A62, "extended_pan_id": bytes([0xDD] * 8),
           "key": bytes([1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13])}


def settings(ctx, given):
    """(values for the configuration, expected settings)"""
    from zigpy.types import Channels, ExtendedPanId, KeyData, PanId
    vals = {"channels": ctx.int("channels", 1, 0xFFFFFFFF), "pan_id": ctx.u16("pan"),
            "extended_pan_id": ctx.bytes("ext", 8), "key": ctx.bytes("key", 16)}
    make = {"channels": Channels, "pan_id": PanId, "extended_pan_id": lambda b: ExtendedPanId(list(b)),
            "key": lambda b: KeyData(list(b))}
    conf = {n: make[n](vals[n]) if n in given else None for n in NAMES}
    return conf, {n: vals[n] if n in given else DEFAULT[n] for n in NAMES}


def written(ctx, ad, want, lab):
    for item, v in ((CHANLIST, le(want["channels"], 4)), (PANID, le(want["pan_id"], 2)),
                    (EXT_PAN, want["extended_pan_id"]), (PRECFGKEY, want["key"]), (KEYS_ENABLE, b"\x00")):
        got = ad.nv[item]
        ctx.check(len(got) == len(v) and ctx.eq(got, v), "item-%d:%s" % (item, lab))
    # not even in passing, and the key nowhere but where keys are stored
    for c in ad.changes:
        if c[0] == "write" and c[1] == KEYS_ENABLE:
            ctx.check(ctx.eq(c[2], b"\x00"), "key-distributed:" + lab)


def through_start(ctx, product, given, none=False):
    ad = NvAdapter(ctx, product)
    ad.nv = fresh(product)
    World(ctx, ad)
    app, log = new_app(ctx)
    conf, want = settings(ctx, given)
    for n in NAMES:
        if n in given or none:
            app.config["network"][n] = conf[n]
        elif n == "channels":
            want = dict(want, channels=0x02108000)  # zigpy's own default
    lab = ",".join(given)
    call = Call(ctx, app.startup(True))
    ctx.loop.run_for(60 * SECONDS)
    ctx.check(call.kind == "ok", "start-up-fails:" + lab)
    written(ctx, ad, want, lab)
    if product != 0:
        ctx.check(ctx.eq(ad.network, [le(want["channels"], 4), le(want["pan_id"], 2), want["extended_pan_id"], want["key"]]),
                  "network-formed:" + lab)
    # the same configuration is found again
    ad.changes.clear()
    again = Call(ctx, app.startup(True))
    ctx.loop.run_for(60 * SECONDS)
    ctx.check(again.kind == "ok" and not ad.initialised(), "not-found-again:" + lab)
    ctx.cover("done")


NOTATIONS = [  # configuration as a user writes it -> settings
    ({"pan_id": 0, "channels": [11]}, {"pan_id": 0, "channels": 0x800}),
    ({"pan_id": "0x0000"}, {"pan_id": 0}),
    ({"pan_id": 0xFFFE, "channels": [26, 11, 15]}, {"pan_id": 0xFFFE, "channels": 0x04008800}),
    ({"extended_pan_id": "00:00:00:00:00:00:00:00"}, {"extended_pan_id": bytes(8)}),
    ({"extended_pan_id": "01:02:03:04:05:06:07:08"}, {"extended_pan_id": bytes([8, 7, 6, 5, 4, 3, 2, 1])}),
    ({"key": [0] * 16}, {"key": bytes(16)}),
    ({"key": list(range(1, 17)), "pan_id": "0x1A63"}, {"key": bytes(range(1, 17)), "pan_id": 0x1A63}),
    ({}, {}),
]


def notation(ctx, product, k):
    given, want = NOTATIONS[k]
    full = dict(DEFAULT, channels=0x02108000)
    full.update(want)
    ad = NvAdapter(ctx, product)
    ad.nv = fresh(product)
    # what an earlier network left behind must not show
    ad.nv[PANID] = ctx.bytes("oldpan", 2)
    ad.nv[EXT_PAN] = ctx.bytes("oldext", 8)
    ad.nv[PRECFGKEY] = ctx.bytes("oldkey", 16)
    ad.nv[CHANLIST] = ctx.bytes("oldchannels", 4)
    ad.nv[KEYS_ENABLE] = ctx.bytes("olddist", 1)
    World(ctx, ad)
    app, log = new_app(ctx, {"network": given})
    ctx.run(app.startup(True))
    written(ctx, ad, full, str(k))
    ctx.cover("done")


def cases(tier):
    out = []
    for m in range(16):
        given = [n for i, n in enumerate(NAMES) if m >> i & 1]
        for p in (0, 1, 2):
            out.append(Case("start-%d-%s" % (p, ",".join(given)), through_start, ["done"], product=p, given=given))
            if "channels" not in given:
                out.append(Case("start-none-%d-%s" % (p, ",".join(given)), through_start, ["done"], product=p,
                                given=given, none=True))
    for k in range(len(NOTATIONS)):
        for p in (0, 1, 2):
            out.append(Case("notation-%d-%d" % (k, p), notation, ["done"], product=p, k=k))
    return out

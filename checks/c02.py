"""Symbolic execution of Gateway.data_received / Parser.write / UnpiFrame.from_buffer on
arbitrary byte streams, compared byte by byte with a reference receiver."""
from checks.env import AREQ, RefReceiver, SOF, SYS, frame_bytes, frame_tuple, new_gateway
from checks.history import aged
from sx.case import Case

BOUNDS = "one frame of every length byte 0..255 with all other bytes symbolic (then a second frame); all streams of up to 8 (quick) / 10 (thorough) arbitrary bytes; 2-frame (thorough: 3-frame) streams with each frame good, checksum-broken or of unknown type/subsystem, 0..2 noise bytes before each"
ASSUMPTIONS = ["the receiver starts idle (nothing received yet)"]


def compare(ctx, api, expected, label):
    ctx.check(len(api.frames) == len(expected), label + ":count")
    ctx.check(ctx.eq([frame_tuple(f) for f in api.frames], [list(e) for e in expected]),
              label + ":content")


def feed(ctx, tr, api, ref, data, exp, label):
    for i in range(len(data)):
        tr.feed(data[i:i + 1])
        e = ref.feed(data[i])
        if e is not None:
            exp.append(e)
        ctx.check(len(api.frames) == len(exp), label + ":delivery-time")
    ctx.check(not tr.escaped, label + ":exception")


def single(ctx, lengths):
    """Every frame of a given length byte, then a second frame."""
    n = ctx.choose("length", lengths)
    gw, tr, api = new_gateway()
    ref = RefReceiver()
    exp = []
    first = bytes([SOF, n]) + ctx.bytes("b", n + 3)
    # the body is fed in one go except for the last bytes, which are fed one by one
    tr.feed(first[:-2])
    for b in first[:-2]:
        if ref.feed(b) is not None:
            ctx.fail("reference delivers early")
    ctx.check(len(api.frames) == 0, "early-delivery")
    feed(ctx, tr, api, ref, first[-2:], exp, "first")
    if exp:
        ctx.cover("good")
    else:
        ctx.cover("bad")
    second = frame_bytes(AREQ, SYS, ctx.byte("id2"), ctx.bytes("d2", 2))
    feed(ctx, tr, api, ref, second, exp, "second")
    compare(ctx, api, exp, "all")
    ctx.observe("frames", [frame_tuple(f) for f in api.frames])


def stream(ctx, n):
    """Arbitrary bytes; afterwards flush the pending frame and send a good one."""
    gw, tr, api = new_gateway()
    ref = RefReceiver()
    exp = []
    data = ctx.bytes("b", n)
    feed(ctx, tr, api, ref, data, exp, "stream")
    compare(ctx, api, exp, "stream")
    if exp:
        ctx.cover("delivered")
    if not ref.buf:
        ctx.cover("idle")
        feed(ctx, tr, api, ref, frame_bytes(AREQ, SYS, 7, b"\x01"), exp, "after")
        compare(ctx, api, exp, "after")
    ctx.observe("frames", [frame_tuple(f) for f in api.frames])


def mixed(ctx, lens):
    """Noise, then frames (good / corrupted / unknown type) with noise between them."""
    gw, tr, api = new_gateway()
    ref = RefReceiver()
    exp = []
    for i, n in enumerate(lens):
        for k in range(ctx.choose("noise%d" % i, [0, 1, 2])):
            b = ctx.byte("n%d_%d" % (i, k))
            ctx.assume(b != SOF)
            feed(ctx, tr, api, ref, bytes([b]), exp, "noise")
        cmd0 = ctx.choose("cmd0_%d" % i, [0x41, 0x65, 0xE1, 0x4A])
        f = bytes([SOF, n, cmd0]) + ctx.bytes("f%d" % i, n + 2)
        feed(ctx, tr, api, ref, f, exp, "frame%d" % i)
        compare(ctx, api, exp, "frame%d" % i)
    if len(exp) == len(lens):
        ctx.cover("all-good")
    if not exp:
        ctx.cover("none-good")
    ctx.observe("frames", [frame_tuple(f) for f in api.frames])


def cases(tier):
    out = []
    q = tier == "quick"
    k = 64 if q else 256
    for i in range(k):
        ls = [n for n in range(256) if n % k == i]
        out.append(Case("single-mod%d-%d" % (k, i), single, ["good", "bad"], lengths=ls))
    for n in range(1, 9 if q else 11):
        out.append(Case("stream-%d" % n, stream, ["idle"] + (["delivered"] if n >= 5 else []), n=n))
    for lens in ([(0, 0), (0, 1), (1, 0), (2, 3)] + ([] if q else [(0, 0, 0), (1, 0, 2)])):
        out.append(Case("mixed-%s" % "-".join(map(str, lens)), mixed, ["all-good", "none-good"], lens=lens))
    for lens in ((0, 1), (2, 3)):
        out.append(Case("aged-mixed-%s" % "-".join(map(str, lens)), aged(mixed), ["all-good", "none-good"], lens=lens))
    for n in (5, 6):
        out.append(Case("aged-stream-%d" % n, aged(stream), ["idle", "delivered"], n=n))
    return out

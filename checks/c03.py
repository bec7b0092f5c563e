"""Symbolic execution of Gateway.data_received on symbolic streams cut into reads at
solver-chosen positions; the deliveries must equal those of the unsegmented stream
(and of the reference receiver)."""
from checks.env import AREQ, RefReceiver, SOF, SUBSYSTEMS, SYS, frame_bytes, frame_tuple, new_gateway
from checks.history import aged
from sx.case import Case

BOUNDS = "arbitrary streams of up to 6 (quick) / 8 (thorough) bytes with every segmentation; streams of 3 structured frames (payload 0..3, noise bytes between) with every pair of cut positions; one frame of 20 / 250 payload bytes with every single cut (250: every 8th / every position); reads of up to 4600 bytes holding up to 240 frames (symbolic ids and leading payload bytes), whole or cut at 1024 and 4096; up to 2 frames cut anywhere once or twice (or at every byte) with any pause of 0 to 24 h at each cut"
ASSUMPTIONS = ["reads are handed over in order, as bytes"]


def reference(data):
    r = RefReceiver()
    out = []
    for i in range(len(data)):
        e = r.feed(data[i])
        if e is not None:
            out.append(list(e))
    return out


def run_cut(ctx, data, cuts):
    gw, tr, api = new_gateway()
    pos = 0
    for c in list(cuts) + [len(data)]:
        tr.feed(data[pos:c])
        pos = c
    ctx.check(not tr.escaped, "exception")
    return [frame_tuple(f) for f in api.frames]


def finish(ctx, got, exp):
    ctx.check(len(got) == len(exp), "count")
    ctx.check(ctx.eq(got, exp), "content")
    ctx.observe("frames", got)
    ctx.cover("delivered" if exp else "nothing")


def arbitrary(ctx, n):
    data = ctx.bytes("b", n)
    cuts = [i for i in range(1, n) if ctx.choose("cut%d" % i, [0, 1])]
    finish(ctx, run_cut(ctx, data, cuts), reference(data))


def masked(ctx, n, mask):
    data = ctx.bytes("b", n)
    finish(ctx, run_cut(ctx, data, [i for i in range(1, n) if mask >> (i - 1) & 1]), reference(data))


def structured(ctx, lens, ncuts, part):
    data = b""
    for i, n in enumerate(lens):
        noise = ctx.byte("noise%d" % i)
        ctx.assume(noise != SOF)
        cmd0 = ctx.choose("cmd0_%d" % i, [0x41, 0x65])
        f = bytes([n, cmd0, ctx.byte("id%d" % i)]) + ctx.bytes("d%d" % i, n)
        c = 0
        for x in f:
            c = c ^ x
        data = data + bytes([noise, SOF]) + f + bytes([c ^ ctx.choose("bad%d" % i, [0, 0x55])])
    total = len(data)
    cuts = []
    prev = 0
    for k in range(ncuts):
        opts = list(range(prev, total + 1))
        if k == 0:
            opts = [o for o in opts if o % part[1] == part[0]]
        prev = ctx.choose("cut%d" % k, opts)
        cuts.append(prev)
    finish(ctx, run_cut(ctx, data, cuts), reference(data))


def long(ctx, n, part):
    f = frame_bytes(AREQ, SYS, ctx.byte("id"), ctx.bytes("d", n))
    data = f + frame_bytes(AREQ, SYS, 1, b"")
    cut = ctx.choose("cut", [o for o in range(1, len(data)) if o % part[1] == part[0]])
    finish(ctx, run_cut(ctx, data, [cut]), reference(data))


def bulk(ctx, sizes, cuts):
    """Many frames in a read of several thousand bytes."""
    data = b""
    for i, n in enumerate(sizes):
        data = data + frame_bytes(AREQ, SYS, ctx.byte("id%d" % i), ctx.bytes("d%d" % i, min(n, 2)) + bytes([i & 255]) * (n - min(n, 2)))
        if i % 3 == 2:
            data = data + bytes([0x55, 0])
    finish(ctx, run_cut(ctx, data, [c for c in cuts if c < len(data)]), reference(data))


def paused(ctx, lens, gaps):
    """Time passes between the reads: any amount of it, anywhere."""
    data = b""
    for i, n in enumerate(lens):
        data = data + bytes([0x55]) + frame_bytes(AREQ, SYS, ctx.byte("id%d" % i), ctx.bytes("d%d" % i, n))
    gw, tr, api = new_gateway()
    last = 0
    for k in range(gaps):
        cut = ctx.choose("cut%d" % k, range(last, len(data) + 1))
        tr.feed(data[last:cut])
        ctx.loop.run_for(ctx.int("gap%d" % k, 0, 86400 * 1000000))
        last = cut
    tr.feed(data[last:])
    ctx.check(not tr.escaped, "exception")
    finish(ctx, [frame_tuple(f) for f in api.frames], reference(data))


def slow(ctx, n):
    """One byte at a time with symbolic pauses."""
    data = frame_bytes(AREQ, SYS, ctx.byte("id"), ctx.bytes("d", n)) * 2
    gw, tr, api = new_gateway()
    gap = ctx.int("gap", 0, 86400 * 1000000)
    for i in range(len(data)):
        tr.feed(data[i:i + 1])
        ctx.loop.run_for(gap)
    ctx.check(not tr.escaped, "exception")
    finish(ctx, [frame_tuple(f) for f in api.frames], reference(data))


def cases(tier):
    q = tier == "quick"
    out = []
    for k in range(4):
        out.append(Case("long-250-part%d" % k, long, ["delivered"], n=250, part=(k, 32 if q else 4)))
    for n in range(1, 7):
        out.append(Case("arbitrary-%d" % n, arbitrary,
                        ["nothing"] + (["delivered"] if n >= 5 else []), n=n))
    for n in [] if q else [7, 8]:
        for k in range(1 << (n - 1)):
            out.append(Case("arbitrary-%d-cuts-%x" % (n, k), masked, ["nothing", "delivered"], n=n, mask=k))
    for lens in [(0, 0, 2), (1, 0, 0), (3, 1)]:
        for k in range(8):
            out.append(Case("frames-%s-part%d" % ("-".join(map(str, lens)), k), structured,
                            ["delivered"], lens=lens, ncuts=2, part=(k, 8)))
    out.append(Case("long-20", long, ["delivered"], n=20, part=(0, 1)))
    for name, sizes in (("large", [250] * 18), ("small", [0, 1, 2, 3] * 60), ("mixed", [3, 250, 0, 100, 250, 7] * 4)):
        for cuts in ([], [1024], [100, 4096]) if q else ([], [1024], [100, 4096], [512, 1024, 2048, 4096], [255, 256, 257, 1023]):
            out.append(Case("bulk-%s-%s" % (name, "-".join(map(str, cuts))), bulk, ["delivered"], sizes=sizes, cuts=cuts))
    for lens, gaps in [((0, 2), 2), ((3,), 2)] + ([] if q else [((0, 0, 1), 3), ((5, 1), 2)]):
        out.append(Case("paused-%s-%d" % ("-".join(map(str, lens)), gaps), paused, ["delivered"], lens=lens, gaps=gaps))
    for n in (0, 3) if q else (0, 3, 40):
        out.append(Case("slow-%d" % n, slow, ["delivered"], n=n))
    for lens in [(0, 0, 2), (3, 1)]:
        out.append(Case("aged-frames-%s" % "-".join(map(str, lens)), aged(structured), ["delivered"], lens=lens, ncuts=1,
                        part=(0, 1)))
    return out

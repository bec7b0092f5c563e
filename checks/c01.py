"""Symbolic execution of UnpiFrame construction, Gateway.send and the receiver: for
each payload length the payload bytes, command id, command type and subsystem are
symbolic; the bytes written must equal the reference encoding, and feeding them to a
fresh receiver must deliver exactly the same frame."""
from checks.env import SUBSYSTEMS, frame_bytes, frame_tuple, new_gateway
from sx.case import Case

BOUNDS = "every payload length 0..250; all 4 types x 12 subsystems for lengths 0..24 (quick) / 0..250 (thorough), 4 type/subsystem pairs otherwise; ids and payload bytes fully symbolic; up to 3 frames (equal or not) in a row, also after 300 others"
ASSUMPTIONS = ["frames are handed over as frame objects with a bytes payload of at most 250 bytes",
               "serial transport accepts every write"]


def roundtrip(ctx, lengths, full):
    from zigpy_cc.uart import UnpiFrame

    n = ctx.choose("length", lengths)
    if full:
        ct = ctx.int("type", 0, 3)
        ss = ctx.choose("subsystem", SUBSYSTEMS)
    else:
        ct, ss = ctx.choose("type_subsystem", [(1, 5), (2, 21), (3, 1), (0, 15)])
    cid = ctx.byte("id")
    data = ctx.bytes("payload", n)
    gw, tr, _ = new_gateway()
    gw.send(UnpiFrame(ct, ss, cid, data))
    out = tr.written()
    ctx.observe("out", out)
    ctx.check(ctx.eq(out, frame_bytes(ct, ss, cid, data)), "encoding")
    rx, tr2, api = new_gateway()
    tr2.feed(out)
    ctx.check(not tr2.escaped, "receiver-exception")
    ctx.check(len(api.frames) == 1, "not-delivered-once")
    got = frame_tuple(api.frames[0])
    ctx.observe("got", got)
    ctx.check(ctx.eq(got, [ct, ss, cid, data]), "round-trip")
    ctx.cover("delivered")


def several(ctx, lens, before):
    """Frames sent one after another on one gateway, possibly equal ones, after many others."""
    from zigpy_cc.uart import UnpiFrame

    gw, tr, _ = new_gateway()
    for i in range(before):
        gw.send(UnpiFrame(2, 5, i & 255, bytes([i & 7]) * (i % 9)))
    del tr.writes[:]
    rx, tr2, api = new_gateway()
    exp = b""
    frames = []
    for i in range(len(lens)):
        ct, ss = ctx.choose("type_subsystem%d" % i, [(1, 5), (2, 5)])
        f = [ct, ss, ctx.byte("id%d" % i), ctx.bytes("payload%d" % i, lens[i])]
        frames.append(f)
        gw.send(UnpiFrame(f[0], f[1], f[2], f[3]))
        exp = exp + frame_bytes(*f)
    out = tr.written()
    ctx.observe("out", out)
    ctx.check(len(out) == len(exp), "several-length")
    ctx.check(ctx.eq(out, exp), "several-encoding")
    tr2.feed(out)
    ctx.check(ctx.eq([frame_tuple(f) for f in api.frames], frames), "several-round-trip")
    ctx.cover("delivered")


def cases(tier):
    out = []
    full = list(range(0, 25)) if tier == "quick" else list(range(0, 251))
    for n in full:
        out.append(Case("full-len-%d" % n, roundtrip, ["delivered"], lengths=[n], full=True))
    if tier == "quick":
        rest = list(range(25, 251))
        rest.sort(key=lambda n: n % 12)
        for i in range(12):
            ls = [n for n in rest if n % 12 == i]
            out.insert(0, Case("some-len-mod12-%d" % i, roundtrip, ["delivered"], lengths=ls, full=False))
    for lens in [(0, 0), (1, 1), (3, 3, 3), (2, 0, 2)]:
        for before in (0, 300):
            out.append(Case("several-%s-%d" % ("-".join(map(str, lens)), before), several, ["delivered"], lens=lens,
                            before=before))
    return out

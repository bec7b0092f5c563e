"""Symbolic execution of decoding followed by encoding (and the reverse) for every message
of the protocol table whose fields the codec supports in both directions."""
from checks.c06 import deliver, largest
from checks.env import (AREQ, BY_NAME, MT, SRSP, SREQ, SUPPORTED_WRITE, AppRecorder, decodable, enc_fields,
                        frame_bytes, is_variable, new_gateway, same_fields, subsystem, sym_values)
from sx.case import Case

BOUNDS = "all table entries supported in both directions, requests, responses and notifications; all field values; buffers and lists of 0, 1, 2, 3 elements (quick) / also 4..6 and the largest that fits (thorough), for NV, AF and neighbour-table messages also the largest (quick)"
ASSUMPTIONS = ["address-mode fields hold a documented mode", "reserved bits of neighbour-table entries are zero",
               "length fields hold the real lengths"]


def messages():
    out = []
    for c in MT:
        for role, key in ((c["type"], "request"), (SRSP, "response")):
            p = c[key]
            if p is None or not decodable(p) or not all(t in SUPPORTED_WRITE for n, t in p):
                continue
            out.append((role, c["ss"], c["name"], c["id"], p))
    return out


def pick(ctx, msgs, sizes):
    role, ss, name, cid, params = ctx.choose("message", msgs)
    size = 0
    if any(is_variable(t) for n, t in params):
        size = ctx.choose("size", sorted({min(s, largest(params)) for s in sizes}))
    return role, ss, name, cid, params, sym_values(ctx, params, size), "%d.%s" % (ss, name)


def redecode(ctx, msgs, sizes):
    role, ss, name, cid, params, vals, label = pick(ctx, msgs, sizes)
    frame = frame_bytes(role, ss, cid, enc_fields(params, vals))
    app, w = deliver(ctx, frame)
    ctx.check(len(app.objs) == 1, "not-delivered:" + label)
    out = app.objs[0].to_unpi_frame().to_buffer()
    ctx.observe("out", out)
    ctx.check(ctx.eq(out, frame), "decode-encode:" + label)
    ctx.cover("round-trip")


def reencode(ctx, msgs, sizes):
    from zigpy.types import EUI64
    from zigpy_cc.zpi_object import ZpiObject

    role, ss, name, cid, params, vals, label = pick(ctx, msgs, sizes)
    args = {n: EUI64(vals[n]) if t == "IEEEADDR" else vals[n] for n, t in params}
    out = ZpiObject.from_command(subsystem(ss), name, args).to_unpi_frame().to_buffer()
    app, w = deliver(ctx, out)
    ctx.check(len(app.objs) == 1, "not-delivered:" + label)
    o = app.objs[0]
    ctx.observe("payload", o.payload)
    ctx.check(o.command == name and o.subsystem == ss and o.command_type == role, "message:" + label)
    ctx.check(same_fields(ctx, params, o.payload, vals), "encode-decode:" + label)
    ctx.cover("round-trip")


def cases(tier):
    out = []
    q = tier == "quick"
    ms = messages()
    k = 16
    sizes = [0, 1, 2, 3] if q else [0, 1, 2, 3, 4, 5, 6, 999]
    for i in range(k):
        out.append(Case("decode-encode-part%d" % i, redecode, ["round-trip"], msgs=ms[i::k], sizes=sizes))
        out.append(Case("encode-decode-part%d" % i, reencode, ["round-trip"],
                        msgs=[m for m in ms if m[0] != SRSP][i::k], sizes=sizes))
    big = [m for m in ms if m[2] in ("incomingMsg", "incomingMsgExt", "osalNvRead", "mgmtLqiRsp",
                                     "osalNvWrite", "dataRequest", "dataRequestExt", "srcRtgInd")]
    out.append(Case("largest", redecode, ["round-trip"], msgs=big, sizes=[999]))
    return out

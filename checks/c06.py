"""Symbolic execution of Gateway.data_received -> API.data_received -> ZpiObject ->
Buffalo for every response and notification of the protocol table: frames with symbolic
field values must reach the application with exactly those fields; frames cut short
must not be delivered at all."""
from checks.env import (AREQ, BY_NAME, INT_SIZES, MT, SRSP, SYS, Adapter, AppRecorder, FIXED_BUF, decodable,
                        enc_fields, frame_bytes, is_variable, length_field, mt_frame, new_api,
                        same_fields, sym_values)
from sx.case import Case

BOUNDS = "all 235 table entries in the receiving role (responses of synchronous commands, notifications) whose variable-length fields follow their length field; all field values; buffers and lists of 0, 1, 2 and 3 elements (quick) / also 4..6 and the largest that fits (thorough), for AF messages and NV values also 60 and the largest (quick); every truncation of the payload"
ASSUMPTIONS = ["address-mode fields hold a documented mode (0, 1, 2, 3, 15)",
               "excluded: association, routing, binding and network lists (documented as not implemented), msgCbIncoming and testLoopback (no length field)"]

TICK = mt_frame(AREQ, 5, "permitJoinInd", {"duration": 60})


def messages():
    out = []
    for c in MT:
        for role, key in ((AREQ, "request"), (SRSP, "response")):
            p = c[key]
            if p is None or (role == AREQ and c["type"] != AREQ) or not decodable(p):
                continue
            out.append((role, c["ss"], c["name"], c["id"], p))
    return out


def fixed_size(params):
    n = 0
    for _, t in params:
        n += INT_SIZES.get(t) or FIXED_BUF.get(t) or (8 if t == "IEEEADDR" else 0)
    return n


def elem(t):
    return {"BUFFER": 1, "LIST_UINT8": 1, "LIST_UINT16": 2, "LIST_NEIGHBOR_LQI": 22}[t]


def largest(params):
    per = sum(elem(t) for _, t in params if is_variable(t))
    return (250 - fixed_size(params)) // per


def deliver(ctx, data):
    app = AppRecorder()
    ad = Adapter(ctx)
    api, w = new_api(ctx, ad, app)
    w.tr.feed(data)
    ctx.loop.settle()
    return app, w


def decode(ctx, msgs, sizes):
    role, ss, name, cid, params = ctx.choose("message", msgs)
    var = [t for n, t in params if is_variable(t)]
    size = 0
    if var:
        top = largest(params)
        size = ctx.choose("size", sorted({min(s, top) for s in sizes}))
    vals = sym_values(ctx, params, size)
    app, w = deliver(ctx, frame_bytes(role, ss, cid, enc_fields(params, vals)))
    label = "%d.%s" % (ss, name)
    ctx.check(not w.tr.escaped, "escaped:" + label)
    ctx.check(len(app.objs) == 1, "not-delivered-once:" + label)
    o = app.objs[0]
    ctx.observe("payload", o.payload)
    ctx.check(o.command == name and o.subsystem == ss and o.command_type == role
              and o.command_id == cid, "wrong-message:" + label)
    ctx.check(same_fields(ctx, params, o.payload, vals), "fields:" + label)
    ctx.cover("decoded")


def truncated(ctx, msgs, size):
    """Payload one or more bytes too short (length fields promise `size` elements)."""
    role, ss, name, cid, params = ctx.choose("message", msgs)
    vals = sym_values(ctx, params, size)
    full = enc_fields(params, vals)
    if not full:
        ctx.cover("rejected")
        return
    keep = ctx.choose("keep", list(range(len(full))) if len(full) <= 70 else
                      list(range(0, len(full), 7)) + [len(full) - 1])
    app, w = deliver(ctx, frame_bytes(role, ss, cid, full[:keep]) + TICK)
    label = "%d.%s" % (ss, name)
    names = [o.command for o in app.objs]
    ctx.observe("delivered", names)
    ctx.check(len(names) == 1 and names[0] == "permitJoinInd", "short-payload-accepted:" + label)
    ctx.cover("rejected")


def promised(ctx, msgs, have):
    """The length field is arbitrary: more than transmitted is rejected, else decoded."""
    role, ss, name, cid, params = ctx.choose("message", msgs)
    k = [i for i, (n, t) in enumerate(params) if is_variable(t)][0]
    vals = sym_values(ctx, params, have)
    for i, (n, t) in enumerate(params[k + 1:]):
        if is_variable(t):
            vals[n] = vals[n][:0]
            vals[length_field(params, k + 1 + i)] = 0
    ln = length_field(params, k)
    claim = ctx.int("claim", 0, 255)
    vals[ln] = claim
    last = k == len(params) - 1
    app, w = deliver(ctx, frame_bytes(role, ss, cid, enc_fields(params, vals)) + TICK)
    label = "%d.%s" % (ss, name)
    got = [o for o in app.objs if o.command != "permitJoinInd"]
    ctx.check(len(app.objs) - len(got) == 1, "next-frame-lost:" + label)
    if last:
        ctx.check(ctx.implies(claim > have, len(got) == 0), "invented:" + label)
        ctx.check(ctx.implies(ctx.eq(claim, have), len(got) == 1), "not-delivered:" + label)
    if got and claim == have:
        ctx.check(same_fields(ctx, params, got[0].payload, vals), "fields:" + label)
        ctx.cover("exact")
    ctx.observe("n", len(got))


def cases(tier):
    out = []
    q = tier == "quick"
    ms = messages()
    k = 24
    for i in range(k):
        part = [m for j, m in enumerate(ms) if j % k == i]
        out.append(Case("decode-part%d" % i, decode, ["decoded"], msgs=part,
                        sizes=[0, 1, 2, 3] if q else [0, 1, 2, 3, 4, 5, 6, 999]))
        out.append(Case("truncated-part%d" % i, truncated, ["rejected"], msgs=part, size=2))
    big = [m for m in ms if m[2] in ("incomingMsg", "incomingMsgExt", "osalNvRead", "osalNvReadExt",
                                     "mgmtLqiRsp", "simpleDescRsp", "activeEpRsp", "srcRtgInd")]
    out.append(Case("largest", decode, ["decoded"], msgs=big, sizes=[60, 999]))
    var = [m for m in ms if any(is_variable(t) for n, t in m[4])]
    for i in range(4):
        out.append(Case("promised-part%d" % i, promised, ["exact"], msgs=var[i::4], have=2))
    return out

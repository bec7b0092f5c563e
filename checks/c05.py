"""Symbolic execution of API.request -> ZpiObject -> Buffalo -> Gateway.send for every
command of the protocol table: the frame on the wire must be the reference encoding of the
symbolic arguments; out-of-range and missing arguments must fail with nothing written."""
from checks.env import (BY_NAME, FIXED_BUF, IEEE_FORMS, MAXINT, MT, Adapter, AppRecorder, INT_SIZES,
                        SUPPORTED_WRITE, enc_fields, frame_bytes, is_variable, new_api, outcome,
                        subsystem, sym_values)
from checks.c06 import largest
from sx.case import Case

BOUNDS = "all commands of the table; all argument values; lists and buffers of symbolic content of 0, 1 and 3 elements and the largest that fits a frame (quick) / also 2, 4, 5, 60, 127, 128, 200 (thorough); out-of-range arguments: any value from -2^k to 2^(k+8) outside the range of a k-bit field; each argument missing, None, or of another kind (number or text for a buffer or list, text for a number, 256 bytes)"
ASSUMPTIONS = ["64-bit addresses are given as EUI64, bytes or an integer", "arguments have the type the field documents",
               "length arguments are given by the caller (they are ordinary fields)"]


def commands():
    return [c for c in MT if all(t in SUPPORTED_WRITE for n, t in c["request"])]


def call(ctx, api, c, payload):
    task = ctx.loop.create_task(outcome(api.request(subsystem(c["ss"]), c["name"], payload)))
    ctx.loop.settle()
    return task


def encode(ctx, cmds, sizes, form):
    c = ctx.choose("command", cmds)
    size = 0
    if any(is_variable(t) for n, t in c["request"]):
        size = ctx.choose("size", sorted({min(s, largest(c["request"])) for s in sizes}))
    ad = Adapter(ctx)
    ad.default = False
    api, w = new_api(ctx, ad, AppRecorder())
    w.tr.writes.clear()
    vals = sym_values(ctx, c["request"], size, link=False)
    args = {}
    for n, t in c["request"]:
        args[n] = IEEE_FORMS[form](vals[n]) if t == "IEEEADDR" else vals[n]
    call(ctx, api, c, args)
    out = w.tr.written()
    exp = frame_bytes(c["type"], c["ss"], c["id"], enc_fields(c["request"], vals))
    ctx.observe("out", out)
    ctx.check(ctx.eq(out, exp), "encoding:%d.%s" % (c["ss"], c["name"]))
    ctx.cover("sent")


def unfit(ctx, cmds):
    """One argument does not fit, or is missing."""
    c = ctx.choose("command", cmds)
    params = c["request"]
    ad = Adapter(ctx)
    ad.default = False
    api, w = new_api(ctx, ad, AppRecorder())
    w.tr.writes.clear()
    vals = sym_values(ctx, params, 2, link=False)
    k = ctx.choose("field", list(range(len(params))))
    n, t = params[k]
    opts = ["missing", "none"]
    if t == "BUFFER":
        opts += ["number", "text", "oversized"]
    if t.startswith("LIST_"):
        opts += ["number"]
    if t == "IEEEADDR":
        opts += ["high", "negative"]
    if t in INT_SIZES:
        opts += ["text"]
    if t in INT_SIZES:
        opts += ["high", "negative"]
    if t in ("LIST_UINT8", "LIST_UINT16"):
        opts += ["element-high", "element-negative"]
    how = ctx.choose("how", opts)
    bits = 64 if t == "IEEEADDR" else 8 * INT_SIZES.get(t, 2 if t == "LIST_UINT16" else 1)
    top = (1 << bits) - 1
    if t == "INT8":
        hi, lo = ctx.int("bad", 128, 70000), ctx.int("badn", -70000, -129)
    else:
        hi, lo = ctx.int("bad", top + 1, top << 8), ctx.int("badn", -top, -1)
    if how == "missing":
        del vals[n]
    elif how in ("none", "number", "text", "oversized"):
        vals[n] = {"none": None, "number": 5, "text": "5", "oversized": bytes(256)}[how]
    elif how.startswith("element"):
        vals[n] = [vals[n][0], hi if how == "element-high" else lo]
    else:
        vals[n] = hi if how == "high" else lo
    task = call(ctx, api, c, vals)
    ctx.observe("out", w.tr.written())
    ctx.check(len(w.tr.written()) == 0, "transmitted:%s:%d.%s.%s" % (how, c["ss"], c["name"], n))
    ctx.check(task.done() and task.result()[0] == "exc", "no-failure:%s:%d.%s.%s" % (how, c["ss"], c["name"], n))
    ctx.cover("refused")


def cases(tier):
    out = []
    q = tier == "quick"
    cmds = commands()
    k = 24
    for i in range(k):
        part = [c for j, c in enumerate(cmds) if j % k == i]
        out.append(Case("encode-part%d" % i, encode, ["sent"], cmds=part,
                        sizes=[0, 1, 3, 250] if q else [0, 1, 2, 3, 4, 5, 60, 127, 128, 200, 250], form="eui64"))
        out.append(Case("refuse-part%d" % i, unfit, ["refused"], cmds=[c for c in part if c["request"]]))
    ie = [c for c in cmds if any(t == "IEEEADDR" for n, t in c["request"])]
    for f in ("bytes", "int"):
        out.append(Case("ieee-as-%s" % f, encode, ["sent"], cmds=ie, sizes=[0], form=f))
    return out

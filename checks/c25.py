"""Symbolic execution of uart.connect and detect_port: symbolic baud rate, time of the port's
opening and USB identification numbers of the detected ports."""
import serial

from checks.env import Call, FrameRecorder, World, new_app, version_frame
from checks.nv import NvAdapter, configure, stored
from checks.ports import Port
from sx.case import Case

BOUNDS = "baud rate 1..4000000, every flow-control setting, several paths, port opened 0..3 s after the request; auto detection: 0 to 3 (thorough: 4) USB ports with all 2^32 vendor/product numbers each, with and without serial number and location, among ports that are no USB devices, through connect, probe and start-up"
ASSUMPTIONS = ["serial numbers, locations and descriptions of other devices do not contain the text '0451:' or '1a86:7523' (the detection works on that text)",
               "detection is by USB identification: vendor 0451 (Texas Instruments), or 1A86:7523"]

MS = 1000
S = 1000 * MS
FLOW = {None: (False, False), "hardware": (False, True), "software": (True, False)}
DEFAULTS = {"bytesize": 8, "parity": "N", "stopbits": 1, "xonxoff": False, "rtscts": False, "dsrdtr": False}


def opened_as(ctx, o, path, baud, flow):
    kw = dict(o["kwargs"])
    args = list(o["args"])
    url = args.pop(0) if args else kw.pop("url", kw.pop("port", None))
    ctx.check(isinstance(url, str) and url == path, "path", url)
    rate = args.pop(0) if args else kw.pop("baudrate", 9600)
    ctx.check(ctx.eq(rate, baud), "baud-rate")
    ctx.check(not args, "further-arguments")
    xonxoff, rtscts = FLOW[flow]
    want = dict(DEFAULTS, xonxoff=xonxoff, rtscts=rtscts)
    for k in want:
        ctx.check(kw.get(k, DEFAULTS[k]) == want[k], k)


class Listener:
    def __init__(self, ctx, times):
        self.ctx = ctx
        self.times = times

    def attach(self, tr):
        tr.on_write = lambda data: self.times.append([self.ctx.loop.now, data])


def connecting(ctx, flow, path):
    from zigpy_cc import uart
    baud = ctx.int("baud", 1, 4000000)
    times = []
    w = World(ctx, Listener(ctx, times))
    w.made_delay = ctx.int("opening", 0, 3 * S)
    rec = FrameRecorder()
    call = Call(ctx, uart.connect({"path": path, "baudrate": baud, "flow_control": flow}, rec))
    start = ctx.loop.now
    ctx.loop.run_for(0)
    ctx.check(len(w.opens) == 1, "opens", len(w.opens))
    opened_as(ctx, w.opens[0], path, baud, flow)
    tr = w.tr
    k = ctx.int("look", 0, 5 * S)
    ctx.loop.run_for(k)
    made = start + w.made_delay
    if call.done:
        ctx.cover("connected")
        ctx.check(ctx.all([ctx.loop.now >= made + 1 * S]), "connected-too-early")
    else:
        ctx.cover("not-yet")
        ctx.check(ctx.neg(ctx.any([ctx.loop.now > made + 1 * S + 10 * MS])), "connected-too-late")
    ctx.loop.run_for(6 * S)
    ctx.check(call.kind == "ok", "not-connected")
    ctx.check(len(times) == 1 and bytes(times[0][1]) == b"\xef", "written-while-connecting")
    ctx.check(ctx.all([times[0][0] >= made, times[0][0] + 1 * S <= call.done_at]), "pause-after-bootloader-exit")
    ctx.check(len(w.opens) == 1 and not tr.ended, "port")
    # it is usable
    from zigpy_cc.uart import UnpiFrame
    call.value.send(UnpiFrame(3, 1, 2, b""))
    ctx.check(len(times) == 2, "not-usable")
    tr.feed(version_frame(1))
    ctx.check(len(rec.frames) == 1, "not-receiving")


def through_app(ctx, device, baud, flow):
    """The settings of a validated configuration, defaults included, reach the port."""
    ad = NvAdapter(ctx, 0)
    net = {"channels": 0x800, "pan": 0x1234, "ext": bytes([1] * 8), "key": bytes(range(16))}
    ad.nv = stored(net, 0)
    w = World(ctx, ad)
    app, log = new_app(ctx, {"device": device})
    configure(app, net)
    asked = []

    def first(step, name):
        asked.append(ctx.loop.now)
        return None
    ad.fault = first
    start = ctx.loop.now
    ctx.run(app.startup(ctx.choose("form", [False, True])))
    ctx.check(len(w.opens) == 1, "opens")
    opened_as(ctx, w.opens[0], device["path"], baud, flow)
    ctx.check(bytes(ad.raw[0]) == b"\xef", "bootloader-exit-first")
    ctx.check(asked[0] >= start + 1 * S, "first-command-before-the-pause")
    ctx.cover("connected")


def is_adapter(ctx, p):
    return ctx.any([p.vid == 0x0451, ctx.all([p.vid == 0x1A86, p.pid == 0x7523])])


def auto(ctx, n, plain, via):
    from zigpy_cc import uart
    from zigpy_cc.zigbee.application import ControllerApplication
    ad = NvAdapter(ctx, 0)
    w = World(ctx, ad)
    extra = ctx.choose("extra", [(None, None), ("A0451B", "1-1.2"), ("1a86_7523", "0451-1")])
    usb = [Port(ctx, "/dev/ttyUSB%d" % i, ctx.u16("vid%d" % i), ctx.u16("pid%d" % i), extra[0], extra[1], "Adapter %d" % i)
           for i in range(n)]
    other = [Port(ctx, "/dev/ttyS%d" % i, description="ttyS%d" % i) for i in range(plain)]
    w.ports = other[:1] + usb + other[1:]
    ids = [(p.vid, p.pid) for p in usb]
    if via == "connect":
        call = Call(ctx, uart.connect({"path": "auto", "baudrate": 115200, "flow_control": None}, FrameRecorder()))
    elif via == "probe":
        call = Call(ctx, ControllerApplication.probe({"path": "auto"}))
    else:
        app, log = new_app(ctx, {"device": {"path": "auto"}})
        call = Call(ctx, app.startup(False))
    ctx.loop.run_for(30 * S)
    ctx.check(call.done, "never-ends")
    found = []
    for p, (vid, pid) in zip(usb, ids):
        p.vid, p.pid = vid, pid
        if is_adapter(ctx, p):
            found.append(p)
    if len(found) == 1:
        ctx.cover("one")
        ctx.check(bytes(ad.raw[0]) == b"\xef" and len(w.tr.written_at) == len(w.tr.writes), "bootloader-exit-first")
        second = w.tr.written_at[1] if len(w.tr.written_at) > 1 else call.done_at
        ctx.check(w.tr.written_at[0] >= w.opens[0]["time"] and second >= w.tr.written_at[0] + 1 * S
                  and call.done_at >= w.tr.written_at[0] + 1 * S, "pause-after-bootloader-exit")
        ctx.check(len(w.opens) == 1, "not-opened")
        opened_as(ctx, w.opens[0], found[0].device, 115200, None)
        ctx.check(call.kind == "ok" and (via != "probe" or call.value is True), "not-connected")
    else:
        ctx.cover("none" if not found else "several")
        ctx.check(len(w.opens) == 0, "opened-a-port")
        if via == "probe":
            ctx.check(call.kind == "exc" or call.value is False, "no-error")
        else:
            ctx.check(call.kind == "exc" and isinstance(call.value, serial.SerialException), "no-error")
    ctx.observe("opened", [o["kwargs"].get("url") for o in w.opens])


def cases(tier):
    out = []
    for flow in FLOW:
        for path in ("/dev/ttyACM0", "COM3", "/dev/serial/by-id/auto", "socket://10.0.0.1:1234"):
            out.append(Case("connect-%s-%s" % (flow, path), connecting, ["connected", "not-yet"], flow=flow, path=path))
    for flow in FLOW:
        for baud in (9600, 115200, 1000000):
            out.append(Case("app-%s-%d" % (flow, baud), through_app, ["connected"], device={
                "path": "/dev/null", "baudrate": baud, "flow_control": flow}, baud=baud, flow=flow))
    out.append(Case("app-defaults", through_app, ["connected"], device={"path": "/dev/zero"}, baud=115200, flow=None))
    for n in range(4 if tier == "quick" else 5):
        cover = ["none"] + (["one"] if n else []) + (["several"] if n > 1 else [])
        for via in ("connect", "probe", "startup"):
            for plain in (0, 2):
                out.append(Case("auto-%s-%d-%d" % (via, n, plain), auto, cover, n=n, plain=plain, via=via))
    return out

"""Shared harness code: reference wire format, recorders, fake serial transport.

Nothing here is taken from the code under test; this is the independent statement of
the MT serial format that the properties refer to.
"""

import asyncio
import collections.abc

from sx.loop import virtual_time

SOF = 0xFE
POLL, SREQ, AREQ, SRSP = 0, 1, 2, 3
TYPES = (0, 1, 2, 3)
SUBSYSTEMS = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 21)
SYS, MAC, NWKS, AF, ZDO, SAPI, UTIL, DEBUG, APPS, APP_CNF, GP = 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 21


def xor(values):
    c = 0
    for x in values:
        c = c ^ x
    return c


def frame_bytes(ct, ss, cid, data):
    """Reference encoding of one MT frame."""
    body = bytes([len(data), (ct << 5) | ss, cid]) + data
    return bytes([SOF]) + body + bytes([xor(body)])


def le(x, n):
    """x as n little-endian bytes (reference)."""
    return bytes([(x >> (8 * i)) & 0xFF for i in range(n)])


def un_le(b):
    v = 0
    for i in range(len(b)):
        v = v | (b[i] << (8 * i))
    return v


class RefReceiver:
    """Reference receiver: what the byte stream contains."""

    def __init__(self):
        self.buf = []

    def feed(self, b):
        if not self.buf:
            if b == SOF:
                self.buf = [b]
            return None
        self.buf.append(b)
        n = len(self.buf)
        if n < 5 or n != self.buf[1] + 5:
            return None
        f, self.buf = self.buf, []
        if xor(f[1:-1]) != f[-1]:
            return None
        ct, ss = f[2] >> 5, f[2] & 0x1F
        if ct not in TYPES or ss not in SUBSYSTEMS:
            return None
        return ct, ss, f[3], bytes(f[4:-1])


class FrameRecorder:
    """Stands in for the API object behind a Gateway."""

    def __init__(self):
        self.frames = []
        self.lost = 0
        self.hook = None

    def data_received(self, frame):
        self.frames.append(frame)
        if self.hook is not None:
            self.hook(frame)

    def connection_lost(self, *args):
        self.lost += 1


def frame_tuple(f):
    return [f.command_type, f.subsystem, f.command_id, f.data]


class FakeTransport:
    """Serial transport stand-in: records writes; feed() plays the adapter's bytes."""

    def __init__(self, loop=None):
        self.writes = []
        self.written_at = []
        self.closed = 0
        self.protocol = None
        self.escaped = []
        self.on_write = None
        self.fail = None
        self.loop = loop

    def write(self, data):
        if self.fail is not None:
            exc = self.fail
            raise exc
        self.writes.append(data)
        if self.loop is not None and hasattr(self.loop, "now"):
            self.written_at.append(self.loop.now)
        if self.on_write is not None:
            self.on_write(data)

    def close(self):
        self.closed += 1

    def abort(self):
        self.closed += 1

    def is_closing(self):
        return self.closed > 0

    def feed(self, data):
        try:
            self.protocol.data_received(data)
        except Exception as e:
            self.escaped.append(type(e).__name__)

    def written(self):
        return b"".join(self.writes)


AGE = [False]  # see checks/history.py


def new_gateway():
    from zigpy_cc.uart import Gateway

    virtual_time(asyncio.get_event_loop())
    api = FrameRecorder()
    gw = Gateway(api)
    tr = FakeTransport()
    tr.protocol = gw
    gw.connection_made(tr)
    if AGE[0]:
        from checks import history
        history.age_gateway(tr, api)
    return gw, tr, api


# ------------------------------------------------------------------------------
# protocol table (snapshot of the documented MT layout) and reference codec

import json as _json
import os as _os

with open(_os.path.join(_os.path.dirname(_os.path.dirname(_os.path.abspath(__file__))), "spec", "mt.json")) as _f:
    MT = _json.load(_f)["commands"]
BY_NAME = {}
BY_ID = {}
for _c in MT:
    BY_NAME[(_c["ss"], _c["name"])] = _c
    BY_ID[(_c["ss"], _c["id"])] = _c

INT_SIZES = {"UINT8": 1, "UINT16": 2, "UINT32": 4, "INT8": 1}
FIXED_BUF = {"BUFFER8": 8, "BUFFER16": 16, "BUFFER18": 18, "BUFFER32": 32, "BUFFER42": 42,
             "BUFFER100": 100}
LQI_SIZE = 22


def enc_lqi(e):
    return (bytes(e["extPanId"]) + bytes(e["extAddr"]) + le(e["nwkAddr"], 2)
            + bytes([e["deviceType"] | (e["rxOnWhenIdle"] << 2) | (e["relationship"] << 4),
                     e["permitJoin"], e["depth"], e["lqi"]]))


def enc_field(ptype, x):
    if ptype in INT_SIZES:
        return le(x, INT_SIZES[ptype])
    if ptype == "IEEEADDR":
        return bytes(x)
    if ptype.startswith("BUFFER"):
        return bytes(x)
    if ptype == "LIST_UINT8":
        return bytes(x)
    if ptype == "LIST_UINT16":
        return b"".join([le(i, 2) for i in x])
    if ptype == "LIST_NEIGHBOR_LQI":
        return b"".join([enc_lqi(i) for i in x])
    raise AssertionError("reference encoder: " + ptype)


def enc_fields(params, values):
    return b"".join([enc_field(t, values[n]) for n, t in params])


def mt_frame(ct, ss, name, values):
    """Frame of the named command as the adapter (or host) sends it."""
    c = BY_NAME[(ss, name)]
    params = c["response"] if ct == SRSP else c["request"]
    return frame_bytes(ct, ss, c["id"], enc_fields(params, values))


# ------------------------------------------------------------------------------
# serial port world: replaces pyserial/pyserial-asyncio at their public entry points

import serial as _serial
import serial.tools.list_ports as _list_ports
import serial_asyncio as _serial_asyncio

WORLD = [None]


async def _create_serial_connection(loop, protocol_factory, *args, **kwargs):
    return await WORLD[0].open(loop, protocol_factory, args, kwargs)


def _grep(regexp, include_links=False):
    return WORLD[0].grep(regexp)


def _comports(include_links=False):
    return WORLD[0].comports()


_serial_asyncio.create_serial_connection = _create_serial_connection
_list_ports.grep = _grep
_list_ports.comports = _comports


class PortTransport(FakeTransport):
    """As pyserial-asyncio's transport: after a close or a fatal error nothing is written or
    received any more and the protocol's connection_lost is called soon."""

    def __init__(self, loop):
        super().__init__(loop)
        self.ended = False
        self.lost_reported = 0

    def write(self, data):
        if not self.ended:
            super().write(data)

    def feed(self, data):
        if not self.ended:
            super().feed(data)

    def close(self):
        self.closed += 1
        if not self.ended:
            self.drop(None)

    abort = close

    def is_closing(self):
        return self.ended

    def drop(self, exc):
        """The connection breaks (or is closed)."""
        if self.ended:
            return
        self.ended = True
        self.loop.call_soon(self._report, exc)

    def _report(self, exc):
        self.lost_reported += 1
        self.protocol.connection_lost(exc)


class World:
    """All serial ports of one execution, with an adapter model behind them."""

    def __init__(self, ctx, adapter=None):
        self.ctx = ctx
        self.loop = ctx.loop
        import zigpy_cc.zigbee.application  # noqa
        virtual_time(ctx.loop)
        self.adapter = adapter
        self.opens = []
        self.transports = []
        self.open_hook = None
        self.made_delay = None
        self.ports = []
        WORLD[0] = self
        if adapter is not None:
            adapter.world = self

    async def open(self, loop, factory, args, kwargs):
        self.opens.append({"time": self.loop.now, "args": args, "kwargs": kwargs})
        if self.open_hook is not None:
            r = self.open_hook(len(self.opens))
            if r is not None:
                raise r
        protocol = factory()
        tr = PortTransport(self.loop)
        tr.protocol = protocol
        tr.log = []
        self.transports.append(tr)
        if self.adapter is not None:
            self.adapter.attach(tr)
        if self.made_delay is None:
            self.loop.call_soon(protocol.connection_made, tr)
        else:
            self.loop.call_at_us(self.loop.now + self.made_delay, protocol.connection_made, tr)
        return tr, protocol

    @property
    def tr(self):
        return self.transports[-1]

    def grep(self, regexp):
        for p in self.ports:
            if p.matches(regexp):
                yield p

    def comports(self):
        return list(self.ports)


class Adapter:
    """Reference model of the adapter at frame level.

    Every frame the host writes is decoded by the reference decoder, logged as
    (time, type, subsystem, id, data) and answered by the handler registered for it (or
    the default success answer).  Answers are delivered through the transport after
    `delay` microseconds."""

    def __init__(self, ctx, delay=1000):
        self.ctx = ctx
        self.loop = ctx.loop
        self.delay = delay
        self.log = []
        self.raw = []
        self.handlers = {}
        self.default = True
        self.world = None
        self.malformed = 0

    def attach(self, tr):
        self.tr = tr
        self.rx = []
        tr.on_write = lambda data: self.host_wrote(tr, data)

    def on(self, ss, name, fn):
        self.handlers[(ss, BY_NAME[(ss, name)]["id"])] = fn

    def host_wrote(self, tr, data):
        self.raw.append(data)
        for b in data:
            if not self.rx:
                if b == SOF:
                    self.rx = [b]
                continue
            self.rx.append(b)
            if len(self.rx) >= 5 and len(self.rx) == self.rx[1] + 5:
                f, self.rx = self.rx, []
                if xor(f[1:-1]) != f[-1]:
                    self.malformed += 1
                    continue
                self.host_frame(tr, f[2] >> 5, f[2] & 0x1F, f[3], bytes(f[4:-1]))

    def host_frame(self, tr, ct, ss, cid, data):
        self.log.append([self.loop.now, ct, ss, cid, data])
        h = self.handlers.get((ss, cid))
        if h is not None:
            r = h(ct, data)
        elif self.default and ct == SREQ:
            r = self.success(ss, cid)
        else:
            r = None
        for item in r or []:
            if isinstance(item, tuple):
                d, fr = item
            else:
                d, fr = self.delay, item
            self.send(fr, d, tr)

    def send(self, frame, delay=None, tr=None):
        """Deliver a frame to the host after `delay` microseconds."""
        tr = tr or self.tr
        d = self.delay if delay is None else delay
        self.loop.call_at_us(self.loop.now + d, tr.feed, frame)

    def success(self, ss, cid):
        c = BY_ID.get((ss, cid))
        if c is None or c["response"] is None:
            return None
        vals = {}
        for n, t in c["response"]:
            if t in INT_SIZES:
                vals[n] = 0
            elif t == "IEEEADDR":
                vals[n] = bytes(8)
            elif t in FIXED_BUF:
                vals[n] = bytes(FIXED_BUF[t])
            else:
                vals[n] = b""
        return [frame_bytes(SRSP, ss, cid, enc_fields(c["response"], vals))]

    def sent(self, ss=None, name=None):
        """Payloads of the frames received from the host (of one command)."""
        if ss is None:
            return [x[1:] for x in self.log]
        cid = BY_NAME[(ss, name)]["id"]
        return [x[4] for x in self.log if x[2] == ss and x[3] == cid]


CONFIG = {"path": "/dev/null", "baudrate": 115200, "flow_control": None}


class AppRecorder:
    """Stands in for the application behind an API object."""

    def __init__(self):
        self.objs = []
        self.lost = 0
        self.hook = None

    def handle_znp(self, obj):
        self.objs.append(obj)
        if self.hook is not None:
            self.hook(obj)

    def connection_lost(self, *args):
        self.lost += 1


def new_api(ctx, adapter=None, app=None):
    """A connected API on a fake port; returns (api, world)."""
    from zigpy_cc.api import API

    w = World(ctx, adapter)
    api = ctx.run(API.new(app, dict(CONFIG)))
    if AGE[0]:
        from checks import history
        history.age_api(ctx, api, w, adapter, app.objs.clear if isinstance(app, AppRecorder) else lambda: None)
    return api, w


def attempt(coro_result):
    pass


async def outcome(coro):
    """('ok', result) or ('exc', exception)."""
    try:
        return "ok", await coro
    except Exception as e:
        return "exc", e


# ------------------------------------------------------------------------------
# symbolic field values

MAXINT = {"UINT8": 255, "UINT16": 0xFFFF, "UINT32": 0xFFFFFFFF}
ADDR_MODES = (0, 1, 2, 3, 15)
SUPPORTED_READ = {"UINT8", "UINT16", "UINT32", "INT8", "IEEEADDR", "BUFFER", "LIST_UINT8",
                  "LIST_UINT16", "LIST_NEIGHBOR_LQI"} | set(FIXED_BUF)
SUPPORTED_WRITE = {"UINT8", "UINT16", "UINT32", "INT8", "IEEEADDR", "BUFFER", "LIST_UINT8",
                   "LIST_UINT16", "LIST_NEIGHBOR_LQI"}


def is_variable(t):
    return t == "BUFFER" or t.startswith("LIST_")


def length_field(params, i):
    """Name of the field that holds the length of variable field i, or None."""
    if i == 0:
        return None
    n, t = params[i - 1]
    if t in ("UINT8", "UINT16") and not n.endswith("addr"):
        return n
    return None


def decodable(params):
    """The codec supports receiving these fields (variable fields preceded by their length)."""
    return all(t in SUPPORTED_READ and (not is_variable(t) or length_field(params, i))
               for i, (n, t) in enumerate(params))


def sym_lqi(ctx, name):
    return {
        "extPanId": ctx.bytes(name + ".epan", 8), "extAddr": ctx.bytes(name + ".ext", 8),
        "nwkAddr": ctx.u16(name + ".nwk"), "deviceType": ctx.int(name + ".type", 0, 3),
        "rxOnWhenIdle": ctx.int(name + ".rx", 0, 3), "relationship": ctx.int(name + ".rel", 0, 7),
        "permitJoin": ctx.int(name + ".pj", 0, 3), "depth": ctx.byte(name + ".depth"),
        "lqi": ctx.byte(name + ".lqi")}


def sym_field(ctx, name, t, size):
    if t in MAXINT:
        if t == "UINT8" and name.endswith("addrmode"):
            return ctx.choose(name, ADDR_MODES)
        return ctx.int(name, 0, MAXINT[t])
    if t == "INT8":
        return ctx.int(name, -128, 127)
    if t == "IEEEADDR":
        return ctx.bytes(name, 8)
    if t in FIXED_BUF:
        return ctx.bytes(name, FIXED_BUF[t])
    if t == "BUFFER":
        return ctx.bytes(name, size)
    if t == "LIST_UINT8":
        return [ctx.byte("%s[%d]" % (name, i)) for i in range(size)]
    if t == "LIST_UINT16":
        return [ctx.u16("%s[%d]" % (name, i)) for i in range(size)]
    if t == "LIST_NEIGHBOR_LQI":
        return [sym_lqi(ctx, "%s[%d]" % (name, i)) for i in range(size)]
    raise AssertionError(t)


def sym_values(ctx, params, size, link=True, prefix="", fixed=None):
    """A value for every field; with `link` the length fields are the real lengths."""
    vals = {}
    for i, (n, t) in enumerate(params):
        vals[n] = fixed[n] if fixed and n in fixed else sym_field(ctx, prefix + n, t, size)
        if link and is_variable(t):
            ln = length_field(params, i)
            if ln is not None:
                vals[ln] = size
    return vals


def same_value(ctx, t, got, exp):
    """Decoded value `got` stands for transmitted value `exp` of type t."""
    if t in INT_SIZES:
        return ctx.eq(got, exp) if isinstance(got, int) else False
    if t == "IEEEADDR":
        return ctx.eq(list(got), list(exp))
    if t.startswith("BUFFER"):
        return ctx.eq(bytes(got), bytes(exp)) if hasattr(got, "__iter__") else False
    if t in ("LIST_UINT8", "LIST_UINT16"):
        return ctx.eq(list(got), list(exp))
    if t == "LIST_NEIGHBOR_LQI":
        if len(got) != len(exp):
            return False
        r = []
        for g, e in zip(got, exp):
            if set(g) != set(e):
                return False
            for k in e:
                r.append(ctx.eq(list(g[k]), list(e[k])) if k in ("extPanId", "extAddr")
                         else ctx.eq(g[k], e[k]))
        return ctx.all(r)
    raise AssertionError(t)


def same_fields(ctx, params, payload, vals):
    if set(payload) != {n for n, t in params}:
        return False
    return ctx.all([same_value(ctx, t, payload[n], vals[n]) for n, t in params])


def subsystem(ss):
    from zigpy_cc.types import Subsystem
    return Subsystem(ss)


def _eui64(b):
    from zigpy.types import EUI64
    return EUI64(b)


IEEE_FORMS = {"eui64": _eui64, "bytes": lambda b: b, "int": un_le}


# ------------------------------------------------------------------------------
# the application

VERSION_FIELDS = ("transportrev", "product", "majorrel", "minorrel", "maintrel", "revision")


def version_frame(product=0, **kw):
    vals = {"transportrev": 2, "product": product, "majorrel": 2, "minorrel": 6, "maintrel": 3,
            "revision": 20190608}
    vals.update(kw)
    return mt_frame(SRSP, SYS, "version", vals)


def device_info_frame(ieee=b"\x01\x02\x03\x04\x05\x06\x07\x08", nwk=0, state=9, devtype=7, assoc=()):
    return mt_frame(SRSP, UTIL, "getDeviceInfo", {
        "status": 0, "ieeeaddr": ieee, "shortaddr": nwk, "devicetype": devtype,
        "devicestate": state, "numassocdevices": len(assoc), "assocdeviceslist": list(assoc)})


def status_frame(ss, name, status):
    return mt_frame(SRSP, ss, name, {"status": status})


class AppLog:
    """What the application object reported to the stack."""

    def __init__(self):
        self.messages = []
        self.joins = []
        self.fail_message = None


class EqDict(collections.abc.MutableMapping):
    """A dictionary that finds its keys by equality only, so that 64-bit addresses may be
    symbolic (their hash follows their equality, hence the same mapping)."""

    def __init__(self):
        self.rows = []

    def _find(self, k):
        for r in self.rows:
            if len(r[0]) == len(k) and all_of([x == y for x, y in zip(r[0], k)]):
                return r
        return None

    def __getitem__(self, k):
        r = self._find(k)
        if r is None:
            raise KeyError("no such key")
        return r[1]

    def __setitem__(self, k, v):
        r = self._find(k)
        if r is None:
            self.rows.append([k, v])
        else:
            r[1] = v

    def __delitem__(self, k):
        r = self._find(k)
        if r is None:
            raise KeyError("no such key")
        self.rows.remove(r)

    def __iter__(self):
        return iter([r[0] for r in self.rows])

    def __len__(self):
        return len(self.rows)


def all_of(xs):
    from sx.ctx import conj
    return conj(xs)


def new_app(ctx, config=None):
    """The application under test with its stack-facing methods recorded."""
    from zigpy_cc.zigbee.application import ControllerApplication

    log = AppLog()

    class App(ControllerApplication):
        def handle_message(self, sender, profile, cluster, src_ep, dst_ep, message):
            log.messages.append([sender, profile, cluster, src_ep, dst_ep, message])
            if log.fail_message is not None:
                raise log.fail_message

        def handle_join(self, nwk, ieee, parent_nwk):
            log.joins.append([nwk, ieee, parent_nwk])

    cfg = {"device": {"path": "/dev/null"}}
    if config:
        cfg.update(config)
    app = App(App.SCHEMA(cfg))
    app.devices = EqDict()
    return app, log


def started_app(ctx, product=0, config=None, adapter=None):
    """An application that went through startup(False) on an adapter of that type."""
    ad = adapter or Adapter(ctx)
    ad.on(SYS, "version", lambda ct, d: [version_frame(product)])
    ad.on(UTIL, "getDeviceInfo", lambda ct, d: [device_info_frame()])
    w = World(ctx, ad)
    app, log = new_app(ctx, config)
    ctx.run(app.startup(False))
    ad.log.clear()
    ad.raw.clear()
    w.tr.writes.clear()
    w.tr.written_at.clear()
    if AGE[0]:
        from checks import history
        history.age_app(ctx, app, log, ad, w)
    return app, log, ad, w


def eui(*b):
    from zigpy.types import EUI64
    return EUI64(bytes(b) + bytes(8 - len(b)))


def add_device(ctx, app, ieee, nwk):
    from zigpy.types import NWK
    dev = app.add_device(eui(*ieee), NWK(0))
    dev.nwk = NWK(nwk)
    return dev


class Call:
    """A coroutine started as a task; how and when it ended."""

    def __init__(self, ctx, coro, name=None):
        self.ctx = ctx
        self.done_at = None
        self.kind = None
        self.value = None
        self.task = ctx.loop.create_task(self._run(coro))

    async def _run(self, coro):
        import asyncio
        try:
            self.value = await coro
            self.kind = "ok"
        except asyncio.CancelledError:
            self.kind = "cancelled"
        except Exception as e:
            self.value = e
            self.kind = "exc"
        self.done_at = self.ctx.loop.now

    @property
    def done(self):
        return self.kind is not None

    def cancel(self):
        self.task.cancel()


def af_request_args(ctx, tag="", n=2):
    return {"profile": 0x0104, "cluster": ctx.u16(tag + "cluster"), "src_ep": ctx.byte(tag + "src_ep"),
            "dst_ep": ctx.byte(tag + "dst_ep"), "sequence": ctx.byte(tag + "tsn"), "data": ctx.bytes(tag + "data", n)}


# ZDO requests the application forwards: kind -> (cluster, payload after tsn for device nwk)
ZDO_REPLY = {  # reply name -> (request name, request cluster, reply cluster)
    "nodeDescRsp": ("nodeDescReq", 0x0002, 0x8002),
    "activeEpRsp": ("activeEpReq", 0x0005, 0x8005),
    "simpleDescRsp": ("simpleDescReq", 0x0004, 0x8004),
    "mgmtLqiRsp": ("mgmtLqiReq", 0x0031, 0x8031),
    "bindRsp": ("bindReq", 0x0021, 0x8021),
    "mgmtPermitJoinRsp": ("mgmtPermitJoinReq", 0x0036, 0x8036),
}


def zdo_body(ctx, reply, nwk, tag=""):
    """Payload (without transaction number) of the request that `reply` answers."""
    if reply in ("nodeDescRsp", "activeEpRsp"):
        return le(nwk, 2)
    if reply == "simpleDescRsp":
        return le(nwk, 2) + bytes([ctx.byte(tag + "ep")])
    if reply == "mgmtLqiRsp":
        return bytes([ctx.byte(tag + "start")])
    if reply == "bindRsp":
        return (ctx.bytes(tag + "src", 8) + bytes([ctx.byte(tag + "sep")]) + le(ctx.u16(tag + "cl"), 2)
                + b"\x03" + ctx.bytes(tag + "dst", 8) + bytes([ctx.byte(tag + "dep")]))
    if reply == "mgmtPermitJoinRsp":
        return bytes([ctx.byte(tag + "dur"), 0])
    raise AssertionError(reply)


def zdo_request(app, dev, reply, tsn, body, **kw):
    """app.request for the device-management request answered by `reply`."""
    return app.request(dev, 0, ZDO_REPLY[reply][1], 0, 0, tsn, bytes([tsn]) + body, **kw)


def reply_values(ctx, reply, nwk, size=1, tag=""):
    params = BY_NAME[(ZDO, reply)]["request"]
    vals = sym_values(ctx, params, size, prefix=tag)
    vals["srcaddr"] = nwk
    if reply == "simpleDescRsp":
        vals["len"] = 8 + 4 * size
    return params, vals


def reply_frame(reply, params, vals):
    return frame_bytes(AREQ, ZDO, BY_NAME[(ZDO, reply)]["id"], enc_fields(params, vals))

"""Serial port stand-in for demonstrations: an adapter that answers MT frames."""
import asyncio
import os
import sys

sys.path.insert(0, os.getcwd())
import logging  # noqa: E402

import serial_asyncio  # noqa: E402

logging.disable(logging.CRITICAL)
SREQ, AREQ, SRSP = 1, 2, 3
SYS, AF, ZDO, SAPI, UTIL, APP_CNF = 1, 4, 5, 6, 7, 15
INFO = b"\x00" + bytes(range(1, 9)) + b"\x00\x00\x07\x09\x00"


def frame(ct, ss, cid, data=b""):
    body = bytes([len(data), ct << 5 | ss, cid]) + data
    fcs = 0
    for b in body:
        fcs ^= b
    return b"\xfe" + body + bytes([fcs])


class Port:
    """answers: (subsystem, id) -> payload of the answer, None, or a function of the payload."""

    def __init__(self, product=0, answers=None):
        self.answers = {(SYS, 1): b"\x79\x01", (SYS, 2): bytes([2, product, 2, 6, 3, 0, 0, 0, 0]), (UTIL, 0): INFO}
        self.answers.update(answers or {})
        self.sent = []  # (type, subsystem, id, payload) the host transmitted
        self.raw = b""
        self.rx = b""
        self.opened = 0
        self.open_args = []
        self.closed = 0
        self.proto = None
        self.fail_open = []
        serial_asyncio.create_serial_connection = self._open

    async def _open(self, loop, factory, *args, **kw):
        self.opened += 1
        self.open_args.append((args, kw))
        if self.fail_open:
            e = self.fail_open.pop(0)
            if e is not None:
                raise e
        self.rx = b""
        self.proto = factory()
        loop.call_soon(self.proto.connection_made, self)
        return self, self.proto

    def write(self, data):
        self.raw += data
        self.rx += data
        while self.rx:
            if self.rx[0] != 0xFE:
                self.rx = self.rx[1:]
                continue
            if len(self.rx) < 5 or len(self.rx) < self.rx[1] + 5:
                return
            n = self.rx[1] + 5
            f, self.rx = self.rx[:n], self.rx[n:]
            self.frame(f[2] >> 5, f[2] & 31, f[3], f[4:-1])

    def frame(self, ct, ss, cid, data):
        self.sent.append((ct, ss, cid, data))
        a = self.answers.get((ss, cid), b"\x00" if ct == SREQ else None)
        if callable(a):
            a = a(data)
        if a is not None:
            asyncio.get_event_loop().call_soon(self.feed, frame(SRSP, ss, cid, a))

    def feed(self, data):
        self.proto.data_received(data)

    def indicate(self, ss, cid, data):
        self.feed(frame(AREQ, ss, cid, data))

    def close(self):
        self.closed += 1

    def abort(self):
        self.closed += 1


def new_app(config=None):
    from zigpy_cc.zigbee.application import ControllerApplication

    class App(ControllerApplication):
        messages = None
        joins = None

        def handle_message(self, *a):
            self.messages.append(a)

        def handle_join(self, *a):
            self.joins.append(a)

    cfg = {"device": {"path": "/dev/null"}}
    cfg.update(config or {})
    app = App(App.SCHEMA(cfg))
    app.messages = []
    app.joins = []
    return app


async def started(product=0, answers=None, config=None):
    port = Port(product, answers)
    app = new_app(config)
    await app.startup(False)
    port.sent.clear()
    port.raw = b""
    return app, port


def device(app, nwk, first=0x55):
    from zigpy.types import EUI64, NWK

    return app.add_device(EUI64(bytes([first] + [0] * 7)), NWK(nwk))


def run(coro):
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    try:
        loop.run_until_complete(asyncio.wait_for(coro, 240))
    finally:
        for t in asyncio.all_tasks(loop):
            t.cancel()
    print("ok")

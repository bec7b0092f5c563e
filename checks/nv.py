"""Reference model of an adapter with persistent memory, as start-up sees it."""
from checks.env import (AF, AGE, APP_CNF, AREQ, BY_NAME, SAPI, SREQ, SRSP, SYS, UTIL, ZDO, Adapter, World, frame_bytes, le,
                        mt_frame, new_app, status_frame, un_le, version_frame)

STARTUP_OPTION, EXT_PAN, PRECFGKEY, KEYS_ENABLE = 3, 45, 98, 99
PANID, CHANLIST, LOGICAL_TYPE, ZDO_DIRECT_CB, TCLK = 131, 132, 135, 143, 257
MARK = {0: 3840, 1: 96, 2: 96}  # item that marks an adapter of that type as configured
TC_LINK_KEY = bytes([255] * 8) + b"ZigBeeAlliance09" + bytes(8)
OTHER_ITEM, OTHER_VALUE = 40, b"\x02"  # an item start-up has no business with
SECONDS = 1000000

# endpoint: (profile, device, input clusters, output clusters)
ENDPOINTS = {
    1: (0x0104, 5, [], []), 2: (0x0101, 5, [], []), 3: (0x0106, 5, [], []), 4: (0x0107, 5, [], []),
    5: (0x0108, 5, [], []), 6: (0x0109, 5, [], []), 8: (0x0104, 5, [], []),
    11: (0x0104, 0x0400, [], [0x0500, 0x0502]), 110: (0x0104, 5, [], []), 12: (0xC05E, 5, [], []),
    13: (0x0104, 5, [0x0019], []), 47: (0x0104, 5, [], []), 242: (0xA1E0, 5, [], [])}
GREEN_POWER = (242, 0x0B84)


def register_payload(ep):
    prof, dev, inc, outc = ENDPOINTS[ep]
    return (bytes([ep]) + le(prof, 2) + le(dev, 2) + bytes([0, 0, len(inc)])
            + b"".join([le(c, 2) for c in inc]) + bytes([len(outc)]) + b"".join([le(c, 2) for c in outc]))


class NvAdapter(Adapter):
    """`nv` is what it stores; `changes` every command that changes it, in order; `steps` counts
    the commands received, and fault(step, name) may return the answer to give instead:
    None (normal), "silent", ("status", x)."""

    def __init__(self, ctx, product, delay=1000):
        super().__init__(ctx, delay)
        self.product = product
        self.nv = {}
        self.changes = []
        self.steps = 0
        self.trace = []
        self.fault = None
        self.state = 9
        self.active = list(ENDPOINTS)
        self.groups = [GREEN_POWER]
        self.ieee = bytes([1, 2, 3, 4, 5, 6, 7, 8])
        self.nwk = 0
        self.dead = False
        self.boot_frames = None
        self.network = None
        self.on_store = None
        for ss, name, fn in [
                (SYS, "version", self.version), (UTIL, "getDeviceInfo", self.info),
                (SYS, "osalNvRead", self.nv_read), (SYS, "osalNvWrite", self.nv_write),
                (SYS, "osalNvItemInit", self.nv_init), (SAPI, "readConfiguration", self.conf_read),
                (SAPI, "writeConfiguration", self.conf_write), (SYS, "resetReq", self.reset),
                (APP_CNF, "bdbSetChannel", self.set_channel), (APP_CNF, "bdbStartCommissioning", self.commission),
                (ZDO, "startupFromApp", self.boot), (ZDO, "activeEpReq", self.active_ep),
                (AF, "register", self.register), (ZDO, "extFindGroup", self.find_group),
                (ZDO, "extAddGroup", self.add_group), (SYS, "ping", self.ping)]:
            self.on(ss, name, self.guarded(ss, name, fn))

    def guarded(self, ss, name, fn):
        def h(ct, data):
            self.steps += 1
            self.trace.append(name)
            if self.dead:
                return []
            if self.fault is not None:
                f = self.fault(self.steps, name)
                if f == "silent":
                    return []
                if f == "lost":  # carried out, but the answer never arrives
                    fn(data)
                    return []
                if f is not None:
                    return [self.failing(ss, name, f[1])]
            return fn(data)
        return h

    def failing(self, ss, name, status):
        from checks.env import FIXED_BUF, INT_SIZES
        vals = {}
        for n, t in BY_NAME[(ss, name)]["response"]:
            vals[n] = 0 if t in INT_SIZES else bytes(8 if t == "IEEEADDR" else FIXED_BUF.get(t, 0))
        vals["status"] = status
        return mt_frame(SRSP, ss, name, vals)

    # plain queries
    def ping(self, d):
        return [mt_frame(SRSP, SYS, "ping", {"capabilities": 0x0179})]

    def version(self, d):
        return [version_frame(self.product)]

    def info(self, d):
        return [mt_frame(SRSP, UTIL, "getDeviceInfo", {
            "status": 0, "ieeeaddr": self.ieee, "shortaddr": self.nwk, "devicetype": 7, "devicestate": self.state,
            "numassocdevices": 0, "assocdeviceslist": []})]

    # memory
    def item(self, i):
        return self.nv.get(int(i))

    def nv_read(self, d):
        v = self.item(un_le(d[:2]))
        if v is None:
            return [mt_frame(SRSP, SYS, "osalNvRead", {"status": 2, "len": 0, "value": b""})]
        v = v[int(d[2]):]
        return [mt_frame(SRSP, SYS, "osalNvRead", {"status": 0, "len": len(v), "value": v})]

    def store(self, i, offset, value):
        i = int(i)
        self.changes.append(["write", i, value])
        if self.on_store is not None:
            self.on_store(i, value)
        self.nv[i] = self.nv[i][:offset] + value + self.nv[i][offset + len(value):]

    def nv_write(self, d):
        i, off, n, v = int(un_le(d[:2])), int(d[2]), int(d[3]), d[4:]
        if i not in self.nv:
            return [status_frame(SYS, "osalNvWrite", 0x09)]
        if n != len(v) or off + n > len(self.nv[i]):
            return [status_frame(SYS, "osalNvWrite", 0x0A)]
        self.store(i, off, v)
        return [status_frame(SYS, "osalNvWrite", 0)]

    def nv_init(self, d):
        i, ln, n, v = int(un_le(d[:2])), int(un_le(d[2:4])), int(d[4]), d[5:]
        if i in self.nv:
            return [status_frame(SYS, "osalNvItemInit", 0)]
        if n != len(v) or n > ln:
            return [status_frame(SYS, "osalNvItemInit", 0x0A)]
        self.changes.append(["init", i, v])
        self.nv[i] = v + bytes([255] * (ln - n))
        return [status_frame(SYS, "osalNvItemInit", 9)]

    def conf_read(self, d):
        v = self.item(d[0])
        if v is None:
            return [mt_frame(SRSP, SAPI, "readConfiguration", {"status": 2, "configid": d[0], "len": 0, "value": b""})]
        return [mt_frame(SRSP, SAPI, "readConfiguration", {"status": 0, "configid": d[0], "len": len(v), "value": v})]

    def conf_write(self, d):
        i, n, v = int(d[0]), int(d[1]), d[2:]
        if i not in self.nv or n != len(v) or n != len(self.nv[i]):
            return [status_frame(SAPI, "writeConfiguration", 1)]
        self.store(i, 0, v)
        return [status_frame(SAPI, "writeConfiguration", 0)]

    # life cycle
    def reset(self, d):
        opt = self.nv[STARTUP_OPTION]
        self.changes.append(["reset", opt])
        if int(opt[0]) & 2:
            self.network = None
        self.nv[STARTUP_OPTION] = b"\x00"
        self.state = 0
        self.active = []
        self.groups = []
        return [mt_frame(AREQ, SYS, "resetInd", {"reason": 2, "transportrev": 2, "productid": 0, "majorrel": 2,
                                                 "minorrel": 6, "hwrev": 0})]

    def set_channel(self, d):
        self.changes.append(["channel", int(d[0]), d[1:]])
        return [status_frame(APP_CNF, "bdbSetChannel", 0)]

    def commission(self, d):
        self.changes.append(["commission", int(d[0])])
        out = [status_frame(APP_CNF, "bdbStartCommissioning", 0)]
        if int(d[0]) == 4:
            out += self.started()
        return out

    def started(self):
        self.state = 9
        self.network = [self.nv[CHANLIST], self.nv[PANID], self.nv[EXT_PAN], self.nv[PRECFGKEY]]
        return [(self.delay + 2000, mt_frame(AREQ, ZDO, "stateChangeInd", {"state": 8})),
                (self.delay + 5000, mt_frame(AREQ, ZDO, "stateChangeInd", {"state": 9}))]

    def boot(self, d):
        if self.boot_frames is not None:
            return self.boot_frames()
        return [status_frame(ZDO, "startupFromApp", 1 if self.network is None else 0)] + self.started()

    # endpoints and groups
    def active_ep(self, d):
        eps = [x for x in self.active]
        return [status_frame(ZDO, "activeEpReq", 0), (self.delay + 1000, mt_frame(AREQ, ZDO, "activeEpRsp", {
            "srcaddr": 0, "status": 0, "nwkaddr": 0, "activeepcount": len(eps), "activeeplist": eps}))]

    def register(self, d):
        self.active.append(d[0])
        return [status_frame(AF, "register", 0)]

    def find_group(self, d):
        found = (int(d[0]), int(un_le(d[1:3]))) in self.groups
        return [mt_frame(SRSP, ZDO, "extFindGroup", {"status": 0 if found else 1, "groupid": un_le(d[1:3]),
                                                     "namelen": 0, "groupname": b""})]

    def add_group(self, d):
        self.groups.append((int(d[0]), int(un_le(d[1:3]))))
        return [status_frame(ZDO, "extAddGroup", 0)]

    # for the checks
    def initialised(self):
        """Commands that write, reset or commission were received."""
        return len(self.changes) > 0


def network(ctx, tag=""):
    """A network configuration with every setting symbolic (a channel list is not empty)."""
    ch = ctx.int(tag + "channels", 1, 0xFFFFFFFF)
    return {"channels": ch, "pan": ctx.u16(tag + "pan"), "ext": ctx.bytes(tag + "ext", 8), "key": ctx.bytes(tag + "key", 16)}


def configure(app, net):
    """Put the settings into the application's (validated) configuration."""
    from zigpy.types import Channels, ExtendedPanId, KeyData, PanId
    c = app.config["network"]
    c["channels"] = Channels(net["channels"])
    c["pan_id"] = PanId(net["pan"])
    c["extended_pan_id"] = ExtendedPanId(list(net["ext"]))
    c["key"] = KeyData(list(net["key"]))


def stored(net, product, distribute=0):
    """What an adapter configured for that network holds."""
    nv = {CHANLIST: le(net["channels"], 4), PANID: le(net["pan"], 2), EXT_PAN: net["ext"], PRECFGKEY: net["key"],
          KEYS_ENABLE: bytes([distribute]), LOGICAL_TYPE: b"\x00", ZDO_DIRECT_CB: b"\x01", STARTUP_OPTION: b"\x00",
          MARK[product]: b"\x55", OTHER_ITEM: OTHER_VALUE, TCLK: TC_LINK_KEY}
    return nv


def fresh(product, marker=None):
    """Memory of an adapter that never was configured."""
    nv = {CHANLIST: b"\x00\x08\x00\x00", PANID: b"\xff\xff", EXT_PAN: bytes([0xFF] * 8), PRECFGKEY: bytes(16),
          KEYS_ENABLE: b"\xff", LOGICAL_TYPE: b"\xff", ZDO_DIRECT_CB: b"\x00", STARTUP_OPTION: b"\x00",
          OTHER_ITEM: OTHER_VALUE, TCLK: bytes(32)}
    if marker is not None:
        nv[MARK[product]] = marker
    return nv


def connected(ctx, product, config=None):
    """Application connected (start-up without forming) to an NvAdapter."""
    ad = NvAdapter(ctx, product)
    w = World(ctx, ad)
    app, log = new_app(ctx, config)
    ctx.run(app.startup(False))
    if AGE[0]:
        from checks import history
        history.age_app(ctx, app, log, ad, w)
    forget(ad, w)
    return app, log, ad, w


def forget(ad, w):
    ad.log.clear()
    ad.raw.clear()
    ad.changes.clear()
    ad.trace.clear()
    ad.steps = 0
    w.tr.writes.clear()


def start(app):
    """The start procedure itself, for the outcome it reports."""
    from zigpy_cc.types import NetworkOptions
    from zigpy_cc.zigbee.start_znp import start_znp
    return start_znp(app._api, app.version["product"], NetworkOptions(app.config["network"]), 0x0B84, "")

"""Detected serial ports whose USB vendor and product numbers may be symbolic.

list_ports.grep matches a regular expression against a text made of these numbers; for symbolic
numbers the expression is translated into a condition over their hexadecimal digits."""
import re

from serial.tools.list_ports_common import ListPortInfo


class Unsupported(Exception):
    pass


SAMPLES = [(0x0451, 0x16A8), (0x1A86, 0x7523), (0x1A86, 0x0451), (0x0451, 0x7523), (0x7523, 0x1A86), (0x10C4, 0xEA60)]


class Port(ListPortInfo):
    def __init__(self, ctx, device, vid=None, pid=None, serial_number=None, location=None, description=None):
        self.ctx = ctx
        self._fixed = False
        super().__init__(device, skip_link_detection=True)
        self.vid, self.pid = vid, pid
        self.serial_number = serial_number
        self.location = location
        if description is not None:
            self.description = description

    @property
    def hwid(self):
        if self.vid is None:
            return "n/a"
        if self.ctx.sym and not self._fixed:
            self.fix()
        return self.usb_info()

    @hwid.setter
    def hwid(self, x):
        pass

    def fix(self):
        """The code reads the whole text: restrict to representative numbers."""
        self._fixed = True
        for v, p in SAMPLES[:-1]:
            if self.ctx.all([self.vid == v, self.pid == p]):
                break
        else:
            v, p = SAMPLES[-1]
            self.ctx.assume(self.ctx.all([self.vid == v, self.pid == p]))
        self.vid, self.pid = v, p

    def text(self):
        """hwid as a list of characters and (symbolic) hexadecimal digits."""
        out = list("USB VID:PID=")
        out += [(self.vid >> s) & 15 for s in (12, 8, 4, 0)] + [":"]
        out += [(self.pid >> s) & 15 for s in (12, 8, 4, 0)]
        if self.serial_number is not None:
            out += list(" SER=" + self.serial_number)
        if self.location is not None:
            out += list(" LOCATION=" + self.location)
        return out

    def matches(self, regexp):
        r = re.compile(regexp, re.I)
        if r.search(self.device) or r.search(self.description):
            return True
        if self.vid is None or self._fixed or not self.ctx.sym:
            return bool(r.search(self.hwid))
        try:
            return bool(search(self.ctx, regexp, self.text()))
        except Unsupported:
            return bool(r.search(self.hwid))


def search(ctx, regexp, text):
    import sre_parse
    tree = list(sre_parse.parse(regexp, re.I))
    return ctx.any([c for i in range(len(text) + 1) for e, c in seq(ctx, tree, text, i)])


def seq(ctx, items, text, at):
    if not items:
        return [(at, True)]
    out = []
    for e, c in one(ctx, items[0], text, at):
        for e2, c2 in seq(ctx, items[1:], text, e):
            out.append((e2, ctx.all([c, c2])))
    return out


def digit(ch):
    return "0123456789abcdef".find(ch.lower()) if len(ch) == 1 else -1


def literal(ctx, code, x):
    ch = chr(code)
    if isinstance(x, str):
        return x.lower() == ch.lower()
    d = digit(ch)
    return False if d < 0 else x == d


def member(ctx, spec, x):
    alts = []
    negate = False
    for op, av in spec:
        name = op.name
        if name == "NEGATE":
            negate = True
        elif name == "LITERAL":
            alts.append(literal(ctx, av, x))
        elif name == "RANGE":
            if isinstance(x, str):
                alts.append(av[0] <= ord(x.lower()) <= av[1] or av[0] <= ord(x.upper()) <= av[1])
            else:
                alts += [x == digit(chr(k)) for k in range(av[0], av[1] + 1) if digit(chr(k)) >= 0]
        elif name == "CATEGORY" and av.name == "CATEGORY_DIGIT":
            alts.append(x.isdigit() if isinstance(x, str) else x <= 9)
        elif name == "CATEGORY" and av.name == "CATEGORY_WORD":
            alts.append(x.isalnum() or x == "_" if isinstance(x, str) else True)
        else:
            raise Unsupported(name)
    r = ctx.any(alts)
    return ctx.neg(r) if negate else r


def one(ctx, item, text, at):
    op, av = item
    name = op.name
    if name in ("LITERAL", "NOT_LITERAL", "ANY", "IN"):
        if at >= len(text):
            return []
        x = text[at]
        c = (True if name == "ANY" else member(ctx, av, x) if name == "IN" else literal(ctx, av, x))
        return [(at + 1, ctx.neg(c) if name == "NOT_LITERAL" else c)]
    if name == "BRANCH":
        return [r for b in av[1] for r in seq(ctx, list(b), text, at)]
    if name == "SUBPATTERN":
        return seq(ctx, list(av[-1]), text, at)
    if name in ("MAX_REPEAT", "MIN_REPEAT"):
        lo, hi, sub = av
        out = []
        state = [(at, True)]
        n = 0
        while state and n <= min(int(hi), len(text)):
            if n >= lo:
                out += state
            nxt = []
            for p, c in state:
                for e, c2 in seq(ctx, list(sub), text, p):
                    if e > p or n < lo:
                        nxt.append((e, ctx.all([c, c2])))
            state = nxt
            n += 1
        return out
    if name == "AT":
        w = av.name
        if w in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
            return [(at, True)] if at == 0 else []
        if w in ("AT_END", "AT_END_STRING"):
            return [(at, True)] if at == len(text) else []
        if w in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
            def word(i):
                return 0 <= i < len(text) and (not isinstance(text[i], str) or text[i].isalnum() or text[i] == "_")
            return [(at, True)] if (word(at - 1) != word(at)) == (w == "AT_BOUNDARY") else []
    raise Unsupported(name)

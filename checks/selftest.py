"""Pipeline sanity: two assertions that must be refuted, one that must hold."""
from sx.case import Case

BOUNDS = "n/a"
ASSUMPTIONS = []


def refutable(ctx):
    x, y = ctx.u16("x"), ctx.u16("y")
    ctx.check(x + y != 70000, "sum")
    ctx.cover("end")


def holds(ctx):
    x, y = ctx.u16("x"), ctx.u16("y")
    ctx.assume(x < y)
    ctx.check((x ^ y) != 0, "xor")
    ctx.check(x + y <= 131070, "range")
    ctx.cover("end")


def branchy(ctx):
    x = ctx.bytes("x", 3)
    n = 0
    for b in x:
        if b == 0x42:
            n += 1
    ctx.check(n < 3, "all")


def tables(ctx):
    """Dictionaries and sets with symbolic keys behave as mappings by equality."""
    a, b = ctx.u16("a"), ctx.u16("b")
    same = bool(a == b)
    d = {}
    d[a] = 1
    d[7] = 2
    d[b] = 3
    ctx.check(d[b] == 3 and d.get(7) == (3 if bool(b == 7) else 2), "last-store-wins")
    ctx.check(d[a] == (3 if same else 2 if bool(a == 7) else 1), "first")
    ctx.check(len(d) == 1 + (0 if bool(a == 7) else 1) + (0 if same or bool(b == 7) else 1), "size")
    ctx.check((9 in d) == bool(ctx.any([a == 9, b == 9])), "concrete-in")
    d[a] += 5
    ctx.check(d.pop(a) == (8 if same else 7 if bool(a == 7) else 6), "aug-pop")
    ctx.check(a not in d, "popped")
    x = d[a] = y = 4
    ctx.check(x == 4 and y == 4 and d[a] == 4 and d.pop(a) == 4, "several targets")
    d.setdefault(a, []).append(1)
    d.setdefault(a, []).append(2)
    ctx.check(d[a] == [1, 2], "setdefault")
    del d[a]
    t = {(a, 1): "x", (b, 1): "y"}
    ctx.check(t[(b, 1)] == "y" and ((a, 2) in t) is False and len(t) == (1 if same else 2), "tuples")
    ctx.check(t == {(b, 1): "y", (a, 1): "y" if same else "x"}, "equal")
    s = set()
    s.add(a)
    s.add(5)
    s.add(b)
    ctx.check((5 in s) and (a in s) and len(s - {5}) == len({a, b} - {5}), "set")
    s.discard(5)
    ctx.check((5 in s) is False, "discarded")
    s |= {6}
    ctx.check(6 in s and len(s) == len({a, b} - {5, 6}) + 1, "union")
    s.update([8])
    ctx.check(8 in s and 8 in (s & {8, 9}), "update")
    from zigpy.types import EUI64
    e, f = EUI64(ctx.bytes("e", 8)), EUI64(ctx.bytes("f", 8))
    m = {}
    m[e] = 1
    m[f] = 2
    ctx.check(m[f] == 2 and len(m) == (1 if bool(ctx.eq(list(e), list(f))) else 2), "addresses")
    z = EUI64(bytes(8))
    ctx.check((z in m) == bool(ctx.any([ctx.eq(list(e), list(z)), ctx.eq(list(f), list(z))])), "concrete address")
    ctx.cover("end")


def cases(tier):
    return [Case("refutable", refutable, ["end"]), Case("holds", holds, ["end"], opts={"raw": True}),
            Case("branchy", branchy), Case("tables", tables, ["end"])]

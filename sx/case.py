class Case:
    """One keyed obligation: a harness and its parameters."""

    def __init__(self, name, fn, cover=(), opts=None, **kw):
        self.name = name
        self.fn = fn
        self.cover = tuple(cover)
        self.opts = opts or {}
        self.kw = kw

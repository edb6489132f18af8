"""Obligations and their outcome."""


class Ob:
    __slots__ = ("key", "where", "status", "detail")

    def __init__(self, key, where, status, detail=""):
        self.key, self.where, self.status, self.detail = key, where, status, detail

    def __repr__(self):
        return "%s %s %s %s" % (self.status, self.key, self.where, self.detail)


HOLDS, VIOLATED, UNDECIDED = "holds", "violated", "undecided"


class Obs:
    """Collected outcomes of one check."""

    def __init__(self):
        self.l = []
        self.functions = set()
        self.info = {}

    def add(self, key, where, status, detail=""):
        if status == UNDECIDED and "FAULT: " in str(detail):
            status = VIOLATED         # interp.Fault: the analysed code certainly misbehaves
        self.l.append(Ob(key, where, status, detail))

    def result(self, key, where, r):
        st = {"equal": HOLDS, "differ": VIOLATED, "undecided": UNDECIDED}[r.status]
        d = ("%s: %s" % (r.path, r.detail)).lstrip(": ") if r.status != "equal" else ""
        self.add(key, where, st, d)

    def of(self, status):
        return [o for o in self.l if o.status == status]

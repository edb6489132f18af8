"""The properties and the functions deciding them."""


class Prop:
    def __init__(self, pid, run, rule, technique, level="other", assumptions=()):
        self.pid, self.run, self.rule, self.technique, self.level = pid, run, rule, technique, level
        self.assumptions = list(assumptions)


PROPS = {}


def prop(pid, rule, technique, level="other", assumptions=()):
    def deco(fn):
        PROPS[pid] = Prop(pid, fn, rule, technique, level, assumptions)
        return fn
    return deco


from .checks import card, context, encoder, frame, lint, room  # noqa: F401,E402

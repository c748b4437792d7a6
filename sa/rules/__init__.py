"""Explicit obligations, decided on the current tree alone."""

RULES = {}


class Ob(object):
    """one obligation: status True (holds) / False (violated) / None (left
    undecided, with the reason in text)"""

    def __init__(self, rule, site, status, text, path='', line=0):
        self.rule = rule
        self.site = site
        self.status = status
        self.text = text
        self.path = path
        self.line = line


def rule(name, minimum=1):
    def deco(f):
        RULES[name] = f
        f.minimum = minimum
        return f
    return deco


from . import names  # noqa: E402,F401
from . import component  # noqa: E402,F401
from . import randomness  # noqa: E402,F401
from . import configs  # noqa: E402,F401

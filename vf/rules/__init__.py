"""The rules, one function per property."""
RULES = {}


def prop(pid, features=("tokio", "agnostic"), technique="", assumptions=()):
    def f(g):
        RULES[pid] = (g, features, technique, list(assumptions))
        return g
    return f

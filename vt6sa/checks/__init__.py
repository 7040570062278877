"""The checks, one function per property."""
_reg = {}


def check(pid, technique=None):
    def d(f):
        f.technique = technique
        _reg[pid] = f
        return f
    return d


def load():
    from . import wire, static, ident, server, handlers, tokio, buffer, parse, typed, sizes, example, display, env, panics


def get(pid):
    load()
    return _reg[pid]

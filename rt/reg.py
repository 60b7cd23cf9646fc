"""registry of executable contracts"""
CONTRACTS = {}


class KF(str):
    """a listed known finding: KF(key, message)"""
    def __new__(cls, key, msg):
        o = str.__new__(cls, msg)
        o.key = key
        return o


def contract(pid, weight=1):
    def dec(cls):
        CONTRACTS.setdefault(pid, []).append((cls.__name__, cls, weight))
        return cls
    return dec


class Bad(Exception):
    pass


def need(cond, msg, *a):
    if not cond:
        raise Bad(msg % a if a else msg)

TABLE = {}


def check(prop):
    def d(f):
        TABLE[prop] = f
        return f
    return d


from . import numeric, values  # noqa

PROPS = {}


def prop(pid, technique, note):
    def deco(f):
        PROPS[pid] = (f, technique, note)
        return f
    return deco

"""Operations that only record how they were called."""
CALLS = []
OUTER = []

def _record(target, kw):
    CALLS.append((target, kw))
    return kw

def run(**kw): return _record('vrec.rec.run', kw)
def run2(**kw): return _record('vrec.rec.run2', kw)
def outer(results): OUTER.append(results)

class Module(object):
    def __init__(self, **kw): self.__dict__.update(kw)
    def run(self): return _record('vrec.rec.Module', dict(self.__dict__))

class Module2(object):
    def __init__(self, **kw): self.__dict__.update(kw)
    def run(self): return _record('vrec.rec.Module2', dict(self.__dict__))

class K(object):
    def __init__(self, **kw): self.__dict__.update(kw)

class K2(object):
    def __init__(self, **kw): self.__dict__.update(kw)

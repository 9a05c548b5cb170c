class Client: pass
class Idish(str): pass
class BaseA: pass
class BaseB: pass
def execute(*a, **k): raise NotImplementedError
aexecute = subscribe = asubscribe = execute

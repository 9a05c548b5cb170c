"""What generated client modules import: the proxy functions (as documented in turms) and the client they are given."""
import pydantic

SIM = None  # the running simulation


class Client:
    def __init__(self, server=None):
        self.server = server


class Idish(str):
    pass


class BaseA:
    pass


class BaseB:
    def label(self):
        return type(self).__name__


class Model(pydantic.BaseModel):
    """A base class of the user's own for all models"""


class Node(pydantic.BaseModel):
    """A base class of the user's own for interfaces"""


class Default:
    def __init__(self, value=None):
        self.value = value


class Outdated:
    def __init__(self, reason=None):
        self.reason = reason


class MissingType:
    def __bool__(self):
        return False


MISSING = MissingType()


def execute(*args, **kwargs):
    return SIM.execute(args, kwargs)


async def aexecute(*args, **kwargs):
    return await SIM.aexecute(args, kwargs)


def subscribe(*args, **kwargs):
    yield from SIM.subscribe(args, kwargs)


async def asubscribe(*args, **kwargs):
    async for event in SIM.asubscribe(args, kwargs):
        yield event

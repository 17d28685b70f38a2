"""Names available to the source of every generated world, and helpers that
the harness needs to describe values without consuming or altering them."""
import argparse, collections, datetime, functools, decimal, enum, ipaddress, pathlib, re, types, uuid
import dataclasses
from dataclasses import dataclass, field
from enum import Enum, IntEnum, IntFlag
from typing import *
from typing import ForwardRef
from pathlib import Path, PosixPath
import typing
from datetime import date, time, timedelta, timezone
from uuid import UUID
from decimal import Decimal
from ipaddress import *
from collections import OrderedDict, defaultdict, deque, UserDict, ChainMap
from types import MappingProxyType, SimpleNamespace
from argparse import Namespace
import attr
from attr import Factory

try:
    StrEnum = enum.StrEnum
except AttributeError:      # pragma: no cover
    class StrEnum(str, Enum):
        pass

GENERATORS = {}     # id -> (generator, list of its elements)


def GEN(items):
    """A generator whose elements the harness knows."""
    items = list(items)
    g = (i for i in items)
    GENERATORS[id(g)] = (g, items)
    return g


def FROM(name):
    """Factory that takes the instance: the value of another field."""
    def f(self):
        return getattr(self, name)
    f.field = name
    return f


def NEST(k, f, x):
    """f applied k times to x"""
    for _ in range(k):
        x = f(x)
    return x


def IDENT(t):
    """Typed converter that changes nothing."""
    def f(x):
        return x
    f.__annotations__ = {'x': t}
    f.identity = True
    return f


def CAST(t, cls):
    """Typed converter: takes t, calls cls."""
    def f(x):
        return cls(x)
    f.__annotations__ = {'x': t, 'return': cls}
    f.cast = cls
    return f


class CALLER:
    """A converter that is not a function, so nobody knows what it takes"""
    def __init__(self, f):
        self.f, self.cast = f, getattr(f, 'cast', None)

    def __call__(self, x):
        return self.f(x)


def PARTIAL(f):
    p = functools.partial(lambda g, x: g(x), f)
    p.cast = getattr(f, 'cast', None)
    return p


class MyStr(str):
    pass


class MyInt(int):
    pass


class MyList(list):
    pass


class MyDict(dict):
    pass


class ODDNT(NamedTuple):
    keys: int = 0
    items: List[int] = []


@dataclass
class ODDDC:
    items: str = ''
    get: Dict[str, int] = field(default_factory=dict)


@attr.s
class ODDAT:
    keys = attr.ib(default=1, type=int)


def setattrs(a, b):
    for f in (dataclasses.fields(a) if dataclasses.is_dataclass(a) else attr.fields(type(a))):
        if hasattr(b, f.name):
            setattr(a, f.name, getattr(b, f.name))


class MyDate(date):
    pass


class MyDateTime(datetime.datetime):
    pass


class MyTime(time):
    pass


class MyDelta(timedelta):
    pass


class Opaque:
    """Something that nobody can load or dump."""
    def __init__(self, v=0):
        self.v = v

    def __eq__(self, o):
        return type(o) is Opaque and o.v == self.v

    def __hash__(self):
        return hash(('Opaque', self.v))

    def __repr__(self):
        return 'Opaque(%r)' % (self.v,)


class Rude:
    """A value that cannot be compared, as those of numpy"""
    def __eq__(self, o):
        if o is self:
            return True
        raise ValueError('ambiguous')

    __ne__ = __eq__
    __hash__ = None

    def __bool__(self):
        raise ValueError('ambiguous')

    def __repr__(self):
        return 'Rude()'


class Tag:
    """User type constructed from a string."""
    def __init__(self, s):
        if not isinstance(s, str):
            raise TypeError('Tag wants text')
        if not s.startswith('#'):
            raise ValueError('Tag wants #')
        self.s = s

    def __eq__(self, o):
        return type(o) is Tag and o.s == self.s

    def __hash__(self):
        return hash(('Tag', self.s))

    def __repr__(self):
        return 'Tag(%r)' % (self.s,)

    def __str__(self):
        return self.s


def GUARD(cls, name, value, exc):
    """The constructor of cls refuses one value of a field."""
    cls._guard_ = (name, value, exc)
    return cls


def check_guard(self):
    g = getattr(type(self), '_guard_', None)
    if g is not None:
        v = getattr(self, g[0])
        if type(v) is type(g[1]) and v == g[1]:
            raise g[2]('guard')


class Odd0:
    """Classes that have some attribute that annotations have"""
    __total__ = True


class Odd1:
    __supertype__ = int


class Odd2:
    _fields = ('a',)
    _asdict = None


class Odd3(dict):
    __required_keys__ = frozenset()
    __optional_keys__ = frozenset()
    __total__ = True


class Odd4:
    __forward_arg__ = 'A'
    __members__ = {}
    __name__ = 'Any'
    _name = 'List'

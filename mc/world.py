"""Names available to state expressions: a state of the term explorer is a
Python source expression evaluated in this namespace (each evaluation builds a
fresh, equal value)."""
import collections
import datetime
import decimal
import enum
import fractions
import io
import itertools
import math
import pathlib
import types
import typing
from types import MappingProxyType

import numpy as np
import pandas as pd


class Custom:
    """A user class."""

    def meth(self, a: int) -> str:
        return ""

    @classmethod
    def cmeth(cls, a: int, b: str = "x") -> int:
        return 1

    @staticmethod
    def smeth(a, b):
        return a

    def nothing(self):
        pass


class Child(Custom):
    """A user subclass."""


class Meta(type):
    pass


class WithMeta(metaclass=Meta):
    pass


class Color(enum.Enum):
    RED = 1
    BLUE = 2


class Fruit(str, enum.Enum):
    APPLE = "apple"
    PLUM = "plum tree"


class Level(enum.IntEnum):
    LOW = 7


class Named(str):
    """A text that is represented in its own way, such as the ones of the YAML libraries."""

    def __str__(self):
        return "<named>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<named>"


# A class of the user that happens to be called like a builtin one
Alarm = type("Warning", (), {"__module__": __name__})


class IntSub(int):
    pass


class StrSub(str):
    pass


class ListSub(list):
    pass


class DictSub(dict):
    pass


class SetSub(set):
    pass


class FrozenSub(frozenset):
    pass


class TupleSub(tuple):
    pass


Point = collections.namedtuple("Point", "x y")


class Key:
    """Hashable user object, usable as mapping key or set element."""

    def __init__(self, n=0):
        self.n = n

    def __hash__(self):
        return 7 + self.n

    def __eq__(self, other):
        return isinstance(other, Key) and other.n == self.n


def fn_plain(a: int, b: str = "x") -> float:
    return 1.0


def fn_none(a):
    print(a)


def fn_any(a):
    return a


def fn_args(*args: int, **kwargs: str) -> None:
    return None


def gen(*items):
    yield from items


class Counting:
    """An iterator that knows how many items were asked of it."""

    def __init__(self, *items):
        self.items = items
        self.asked = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.asked += 1
        if self.asked > len(self.items):
            raise StopIteration
        return self.items[self.asked - 1]


def frame(labels, *columns, index=None):
    """A data frame with any labels (tuples: multi-level) and columns."""
    parts = [pd.Series(c, dtype=object) if isinstance(c, tuple) else pd.Series(c) for c in columns]
    out = pd.concat(parts, axis=1) if parts else pd.DataFrame()
    if labels and all(isinstance(x, tuple) for x in labels):
        out.columns = pd.MultiIndex.from_tuples(labels)
    elif labels:
        out.columns = labels
    return out


ENV = {k: v for k, v in list(globals().items()) if not k.startswith("__")}


def build(expr):
    """A fresh value for a state expression."""
    return eval(expr, dict(ENV))

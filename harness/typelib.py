"""Annotations, protocols and base classes that generated types use (driver side)."""
import collections
from typing import Any, Iterator, Protocol, runtime_checkable

import typing
import marsh


class Call:
    """What a generated function was called with."""

    made = collections.Counter()
    #: what else calls do
    also = None

    def __init__(self, name, values):
        Call.made[name] += 1
        self.name = name
        self.values = values
        if Call.also is not None:
            Call.also(self)


def refuse_empty(error, values):
    for v in values:
        if v is None or isinstance(v, (int, float)) and v == 0 or hasattr(v, '__len__') and len(v) == 0:
            raise error('refused')


class ETag(marsh.annotation.PreAnnotation):

    def __init__(self, n):
        self.n = n

    def __call__(self, element):
        return [element, self.n]


class EFirst(marsh.annotation.PreAnnotation):

    def __call__(self, element):
        if isinstance(element, str) or not hasattr(element, '__len__') or hasattr(element, 'keys'):
            return element
        return element[0] if len(element) else element


class EDef(marsh.annotation.PreAnnotation):

    def __call__(self, element):
        return 7 if isinstance(element, str) and element == marsh.MISSING else element


class EMiss(marsh.annotation.PreAnnotation):

    def __call__(self, element):
        return marsh.MISSING


class EFail(marsh.annotation.PreAnnotation):

    def __call__(self, element):
        raise ValueError('no')


class EFailKey(marsh.annotation.PreAnnotation):

    def __call__(self, element):
        raise KeyError('no')


class EFailAt(marsh.annotation.PreAnnotation):

    def __call__(self, element):
        marsh.unmarshal(typing.Dict[str, typing.List[int]], {'here': ['no']})


class FailAt(marsh.annotation.Annotation):

    def __call__(self, value):
        marsh.unmarshal(typing.Dict[str, typing.List[int]], {'here': ['no']})


class FailMiss(marsh.annotation.Annotation):

    def __call__(self, value):
        marsh.unmarshal(int, marsh.MISSING)


class Tag(marsh.annotation.Annotation):

    def __init__(self, n):
        self.n = n

    def __call__(self, value):
        return (value, self.n)

    def __eq__(self, other):
        return type(other) is Tag and other.n == self.n

    def __hash__(self):
        return hash(self.n)


class Fail(marsh.annotation.Annotation):

    def __call__(self, value):
        raise ValueError('no')


class FailOther(marsh.annotation.Annotation):

    def __call__(self, value):
        raise ZeroDivisionError('no')


def unhashable(annotation):
    """The same annotation, as an instance that can not be hashed."""
    cls = type(annotation)
    annotation.__class__ = type('Unhashable' + cls.__name__, (cls,), {
        '__hash__': None, '__eq__': lambda self, other: type(self).__name__ == type(other).__name__
        and vars(self) == vars(other)})
    return annotation


class NotAnAnnotation:
    """Metadata that means nothing here."""

    def __call__(self, value):
        raise AssertionError('called')


@runtime_checkable
class HasKeys(Protocol):

    def keys(self) -> Any:
        ...


@runtime_checkable
class HasInsert(Protocol):

    def insert(self, index, value) -> Any:
        ...


@runtime_checkable
class HasEncode(Protocol):

    def encode(self) -> bytes:
        ...


@runtime_checkable
class HasIsInteger(Protocol):

    def is_integer(self) -> bool:
        ...


@runtime_checkable
class HasBitLength(Protocol):

    def bit_length(self) -> int:
        ...


@runtime_checkable
class HasLen(Protocol):

    def __len__(self) -> int:
        ...


@runtime_checkable
class HasConjugate(Protocol):

    def conjugate(self) -> Any:
        ...


@runtime_checkable
class HasRepr(Protocol):

    def __repr__(self) -> str:
        ...

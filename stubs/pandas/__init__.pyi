# What the generated modules mention of pandas, for the type checker (pandas has no types of its own).
from typing import Any, Generic, TypeVar

T = TypeVar("T", covariant=True)

class Series(Generic[T]): ...
class Index: ...

class DataFrame:
    __getitem__: Any

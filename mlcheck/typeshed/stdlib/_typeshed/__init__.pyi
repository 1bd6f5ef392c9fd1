from typing import Any, Iterable, Protocol, TypeVar
K = TypeVar('K')
V = TypeVar('V')
class SupportsKeysAndGetItem(Protocol[K, V]):
    def keys(self) -> Iterable[K]: pass
    def __getitem__(self, key: K, /) -> V: pass

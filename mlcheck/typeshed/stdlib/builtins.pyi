import _typeshed
from typing import Sized, Generic, Iterable, Iterator, Sequence, TypeVar, overload, Mapping, Any
T = TypeVar('T')
S = TypeVar('S')
T_co = TypeVar('T_co', covariant=True)

class object:
    def __init__(self) -> None: pass
    def __eq__(self, o: object) -> bool: pass
    def __ne__(self, o: object) -> bool: pass
class type:
    def __init__(self, o: object) -> None: pass
class int:
    def __add__(self, o: int) -> int: pass
    def __radd__(self, o: int) -> int: pass
    def __sub__(self, o: int) -> int: pass
    def __rsub__(self, o: int) -> int: pass
    def __mul__(self, o: int) -> int: pass
    def __rmul__(self, o: int) -> int: pass
    def __floordiv__(self, o: int) -> int: pass
    def __truediv__(self, o: int) -> float: pass
    def __mod__(self, o: int) -> int: pass
    def __neg__(self) -> int: pass
    def __pos__(self) -> int: pass
    def __lt__(self, o: int) -> bool: pass
    def __le__(self, o: int) -> bool: pass
    def __gt__(self, o: int) -> bool: pass
    def __ge__(self, o: int) -> bool: pass
class float: ...
class complex: ...
class bool(int): ...
class str:
    def __add__(self, o: str) -> str: pass
    def __len__(self) -> int: pass
class bytes: ...
class bytearray: ...
class memoryview: ...
class ellipsis: ...
class function: ...
class property: ...
class classmethod: ...
class staticmethod: ...
class slice: ...
class BaseException: ...
class Exception(BaseException): ...
class tuple(Sequence[T_co], Generic[T_co]):
    def __iter__(self) -> Iterator[T_co]: pass
    def __contains__(self, item: object) -> bool: pass
    def __getitem__(self, x: int) -> T_co: pass
    def __len__(self) -> int: pass
class list(Sequence[T]):
    def __iter__(self) -> Iterator[T]: pass
    def __contains__(self, item: object) -> bool: pass
    @overload
    def __getitem__(self, x: int) -> T: pass
    @overload
    def __getitem__(self, x: slice) -> list[T]: pass
    def __len__(self) -> int: pass
    def __add__(self, o: list[T]) -> list[T]: pass
    def append(self, x: T) -> None: pass
class set(Iterable[T], Generic[T]):
    def __init__(self, x: Iterable[T] = ...) -> None: pass
    def __iter__(self) -> Iterator[T]: pass
    def __contains__(self, item: object) -> bool: pass
    def add(self, x: T) -> None: pass
    def remove(self, x: T) -> None: pass
    def __len__(self) -> int: pass
class frozenset(Iterable[T], Generic[T]):
    def __iter__(self) -> Iterator[T]: pass
class dict(Mapping[T, S]):
    def __iter__(self) -> Iterator[T]: pass
    def __contains__(self, item: object) -> bool: pass
    def __getitem__(self, key: T) -> S: pass
def len(x: Sized, /) -> int: pass

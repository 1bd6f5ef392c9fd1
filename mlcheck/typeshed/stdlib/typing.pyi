from abc import abstractmethod, ABCMeta
cast = 0
overload = 0
Any = 0
Union = 0
Optional = 0
TypeVar = 0
Generic = 0
Protocol = 0
Tuple = 0
Callable = 0
_promote = 0
NamedTuple = 0
Type = 0
no_type_check = 0
ClassVar = 0
Final = 0
Literal = 0
TypedDict = 0
NoReturn = 0
NewType = 0
Self = 0
List = 0
Dict = 0
Set = 0
FrozenSet = 0
TYPE_CHECKING = 0

T = TypeVar('T')
T_co = TypeVar('T_co', covariant=True)
V = TypeVar('V')

class Iterable(Protocol[T_co]):
    @abstractmethod
    def __iter__(self) -> 'Iterator[T_co]': pass
class Iterator(Iterable[T_co], Protocol):
    @abstractmethod
    def __next__(self) -> T_co: pass
class Sized(Protocol):
    @abstractmethod
    def __len__(self) -> int: pass
class Container(Protocol[T_co]):
    @abstractmethod
    def __contains__(self, x: object) -> bool: pass
class Collection(Iterable[T_co], Container[T_co], Protocol[T_co]): ...
class Sequence(Collection[T_co]):
    @abstractmethod
    def __getitem__(self, n: int) -> T_co: pass
class Mapping(Collection[T], Generic[T, V]):
    @abstractmethod
    def __getitem__(self, key: T) -> V: pass
class Awaitable(Protocol[T]):
    def __await__(self) -> Any: pass
class Coroutine(Awaitable[V], Generic[T, T_co, V]): ...
class Generator(Iterator[T], Generic[T, T_co, V]): ...
class AsyncGenerator(Generic[T, V]): ...
class AsyncIterator(Protocol[T]): ...
class AsyncIterable(Protocol[T]): ...
class _TypedDict(Mapping[str, object]): ...
class _SpecialForm: ...

class ABCMeta(type): ...
class ABC(metaclass=ABCMeta): ...
def abstractmethod(f): ...

class ModuleType: ...
class FunctionType: ...
class CoroutineType: ...
class GenericAlias: ...
class UnionType: ...
class NoneType: ...

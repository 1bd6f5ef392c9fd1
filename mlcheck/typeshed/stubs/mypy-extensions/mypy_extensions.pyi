from typing import Any, Callable

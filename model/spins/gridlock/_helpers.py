from typing import Any

def is_scalar(var: Any) -> bool:
    return not hasattr(var, '__len__')

def copy(x):
    if isinstance(x, (list, dict, set, bytearray)):
        return x.copy() if not isinstance(x, bytearray) else bytearray(x)
    if isinstance(x, (int, float, str, bytes, tuple, frozenset)) or x is None:
        return x
    return x.__copy__()


def deepcopy(x, memo=None):
    if type(x) is list:
        return [deepcopy(y) for y in x]
    if type(x) is dict:
        return {deepcopy(k): deepcopy(v) for k, v in x.items()}
    if type(x) is tuple:
        return tuple([deepcopy(y) for y in x])
    if type(x) is bytearray:
        return bytearray(x)
    if isinstance(x, (int, float, str, bytes)) or x is None:
        return x
    return x.__deepcopy__(memo)

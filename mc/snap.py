"""Deep, exact snapshots of values handed to or obtained from the library."""
import collections
import numpy as np


def snap(x):
    """Hashable description of a value: type, shape, dtype, bytes, order."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('nd', x.shape, 'object', tuple(snap(v) for v in x.ravel()))
        return ('nd', x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, np.generic):
        return ('g', x.dtype.str, x.tobytes())
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return ('nt', type(x).__name__) + tuple(snap(v) for v in x)
    if isinstance(x, dict):
        return ('d', type(x).__name__) + tuple((snap(k), snap(v)) for k, v in x.items())
    if isinstance(x, (list, tuple, collections.deque)):
        return (type(x).__name__,) + tuple(snap(v) for v in x)
    if isinstance(x, (bytes, bytearray, memoryview)):
        return ('b', bytes(x))
    if isinstance(x, float):
        return ('f', np.float64(x).tobytes())
    return (type(x).__name__, repr(x))

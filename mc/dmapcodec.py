"""Independent reference implementation of the DMAP wire format.

Written from the format description (RST dmap / pydarnio docs), using only
struct: no code of pydarnio is used.

record := (scalars, arrays)
scalars: list of (name, code, value)      value: int / float / str
arrays : list of (name, code, shape, raw) raw: bytes in host order, C order,
                                          shape: slowest first (numpy order)
"""
import struct
import numpy as np

ID = 65537
# code -> (struct format, size, numpy dtype)
CODES = {1: ('b', 1, np.int8), 2: ('h', 2, np.int16), 3: ('i', 4, np.int32),
         4: ('f', 4, np.float32), 8: ('d', 8, np.float64), 9: ('s', 0, None),
         10: ('q', 8, np.int64), 16: ('B', 1, np.uint8), 17: ('H', 2, np.uint16),
         18: ('I', 4, np.uint32), 19: ('Q', 8, np.uint64)}
LETTER = {1: 'c', 2: 'h', 3: 'i', 4: 'f', 8: 'd', 9: 's', 10: 'q', 16: 'B', 17: 'H',
          18: 'I', 19: 'Q'}
CODE = {v: k for k, v in LETTER.items()}
NUMERIC = [c for c in CODES if c != 9]


class Malformed(Exception):
    """The bytes are not a DMAP stream."""


class Unsupported(Exception):
    """Outside the part of the format the library documents."""


def _name(s):
    return s.encode('utf-8') + b'\0'


def encode_scalar(name, code, value):
    out = _name(name) + bytes([code])
    if code == 9:
        return out + _name(value)
    return out + struct.pack('=' + CODES[code][0], value)


def encode_array(name, code, shape, raw):
    out = _name(name) + bytes([code]) + struct.pack('=i', len(shape))
    for d in reversed(list(shape)):
        out += struct.pack('=i', d)
    return out + raw


def encode_record(scalars, arrays, ident=ID, size=None, ns=None, na=None):
    body = b''.join(encode_scalar(*s) for s in scalars) + b''.join(encode_array(*a) for a in arrays)
    size = len(body) + 16 if size is None else size
    return struct.pack('=iiii', ident, size, len(scalars) if ns is None else ns,
                       len(arrays) if na is None else na) + body


def encode(records):
    return b''.join(encode_record(s, a) for s, a in records)


def _take(buf, pos, n, end):
    if n < 0 or pos + n > end:
        raise Malformed('data ends early at %d' % pos)
    return buf[pos:pos + n], pos + n


def _string(buf, pos, end):
    z = buf.find(b'\0', pos, end)
    if z < 0:
        raise Malformed('string not terminated')
    try:
        return buf[pos:z].decode('utf-8'), z + 1
    except UnicodeDecodeError:
        raise Malformed('text is not UTF-8')


def decode(buf):
    """List of (scalars, arrays); raises Malformed / Unsupported."""
    buf = bytes(buf)
    out, pos, n = [], 0, len(buf)
    if n == 0:
        raise Malformed('empty')
    while pos < n:
        start = pos
        h, pos = _take(buf, pos, 16, n)
        _, size, ns, na = struct.unpack('=iiii', h)
        if size < 16 or start + size > n:
            raise Malformed('block size')
        if ns < 0 or na < 0:
            raise Malformed('negative counts')
        if ns == 0 or na == 0:
            raise Unsupported('no scalars or no arrays')
        end = start + size
        sc, ar = [], []
        for _ in range(ns):
            name, pos = _string(buf, pos, end)
            c, pos = _take(buf, pos, 1, end)
            code = c[0]
            if code not in CODES:
                raise Malformed('type code')
            if code == 9:
                v, pos = _string(buf, pos, end)
            else:
                raw, pos = _take(buf, pos, CODES[code][1], end)
                v = struct.unpack('=' + CODES[code][0], raw)[0]
            sc.append((name, code, v))
        for _ in range(na):
            name, pos = _string(buf, pos, end)
            c, pos = _take(buf, pos, 1, end)
            code = c[0]
            if code not in CODES:
                raise Malformed('type code')
            d, pos = _take(buf, pos, 4, end)
            nd = struct.unpack('=i', d)[0]
            if nd <= 0:
                raise Malformed('dimensions')
            if nd > (end - pos) // 4:
                raise Malformed('dimensions beyond record')
            shape = []
            for _ in range(nd):
                d, pos = _take(buf, pos, 4, end)
                shape.append(struct.unpack('=i', d)[0])
            shape.reverse()
            if any(x < 0 for x in shape):
                raise Malformed('negative dimension')
            if any(x == 0 for x in shape) and name != 'slist':
                raise Malformed('empty dimension')
            if any(x == 0 for x in shape) and nd > 1:
                raise Unsupported('empty array of several dimensions')
            if code == 9:
                raise Unsupported('array of strings')
            cells = 1
            for x in shape:
                cells *= x
            raw, pos = _take(buf, pos, cells * CODES[code][1], end)
            if nd > 32:
                raise Unsupported('rank')
            ar.append((name, code, tuple(shape), raw))
        if pos != end:
            raise Malformed('block size does not match the content')
        names = [x[0] for x in sc] + [x[0] for x in ar]
        if len(set(names)) != len(names):
            raise Unsupported('duplicate names')
        out.append((sc, ar))
    return out


def chain_ok(buf):
    """Do the block sizes chain exactly to the end of the data?"""
    n, pos = len(buf), 0
    while pos < n:
        if pos + 8 > n:
            return False
        size = struct.unpack_from('=i', buf, pos + 4)[0]
        if size <= 0 or pos + size > n:
            return False
        pos += size
    return True


# ------------------------------------------------------- comparing with the library
def bits(code, v):
    if code == 9:
        return v.encode('utf-8', 'surrogatepass')
    return struct.pack('=' + CODES[code][0], v)


def diff_dicts(ref, got):
    """ref: list of (scalars, arrays); got: list of dicts returned by the library."""
    if len(ref) != len(got):
        return '%d records instead of %d' % (len(got), len(ref))
    for i, ((sc, ar), g) in enumerate(zip(ref, got)):
        want = [x[0] for x in sc] + [x[0] for x in ar]
        if list(g.keys()) != want:
            return 'record %d: fields %r instead of %r' % (i, list(g.keys()), want)
        for name, code, v in sc:
            x = g[name]
            if isinstance(x, np.ndarray):
                return 'record %d: %s is an array' % (i, name)
            if code == 9:
                if not isinstance(x, str) or x != v:
                    return 'record %d: %s = %r instead of %r' % (i, name, x, v)
                continue
            if isinstance(x, (str, bytes, bool)):
                return 'record %d: %s = %r instead of %r' % (i, name, x, v)
            if isinstance(x, np.generic) and x.dtype != np.dtype(CODES[code][2]):
                return 'record %d: %s has type %s instead of %s' % (i, name, x.dtype, CODES[code][2])
            if isinstance(x, int) and code != 3:
                return 'record %d: %s lost its type' % (i, name)
            if isinstance(x, float) and not isinstance(x, np.generic) and code != 4:
                return 'record %d: %s lost its type' % (i, name)
            try:
                b = struct.pack('=' + CODES[code][0], x)
            except Exception as e:
                return 'record %d: %s = %r: %s' % (i, name, x, e)
            if b != bits(code, v):
                return 'record %d: %s = %r instead of %r' % (i, name, x, v)
        for name, code, shape, raw in ar:
            x = g[name]
            if not isinstance(x, np.ndarray):
                return 'record %d: %s is not an array' % (i, name)
            if x.shape != tuple(shape):
                return 'record %d: %s has shape %r instead of %r' % (i, name, x.shape, tuple(shape))
            if x.dtype.newbyteorder('=') != np.dtype(CODES[code][2]):
                return 'record %d: %s has dtype %s instead of %s' % (i, name, x.dtype, CODES[code][2])
            if x.astype(x.dtype.newbyteorder('=')).tobytes() != raw:
                return 'record %d: %s has other values' % (i, name)
    return None


def diff_dmap(ref, got):
    """ref: list of (scalars, arrays); got: DmapScalar / DmapArray records."""
    if len(ref) != len(got):
        return '%d records instead of %d' % (len(got), len(ref))
    plain = []
    for i, ((sc, ar), g) in enumerate(zip(ref, got)):
        want = {x[0]: x for x in sc + ar}
        d = {}
        for name, x in g.items():
            w = want.get(name)
            if w is None or x.name != name:
                return 'record %d: unexpected field %r' % (i, name)
            if x.data_type != w[1] or x.data_type_fmt != LETTER[w[1]]:
                return 'record %d: %s has type %r/%r instead of %r' % (
                    i, name, x.data_type, x.data_type_fmt, LETTER[w[1]])
            if len(w) == 4:
                if x.dimension != len(w[2]) or list(x.shape) != list(w[2]):
                    return 'record %d: %s has rank %r shape %r instead of %r' % (
                        i, name, x.dimension, x.shape, w[2])
                d[name] = x.value
            else:
                v = x.value
                if w[1] not in (3, 4, 9) and not isinstance(v, np.generic):
                    v = CODES[w[1]][2](v)
                d[name] = v
        plain.append(d)
    return diff_dicts(ref, plain)


# --------------------------------------------------------------- value alphabets
def scalar_values(code, wide=False):
    if code == 9:
        return ['', 'a', ' ', 'text with spaces', 'a\nb\t', '\u00fc', '\u65e5\u672c\u8a9e', '\U0001F4E1 x',
                'e\u0301', 'x' * 300]
    if code in (4, 8):
        vals = [0.0, -0.0, 1.0, -1.5, 0.1, 1e-40, 3.0e38, -3.0e38, float('inf'), float('-inf'),
                float('nan'), 2.0 ** -149, 16777217.0]
        if code == 8:
            vals += [1e300, 5e-324, -1.7976931348623157e308, 1 / 3]
        if code == 4:
            vals = [struct.unpack('=f', struct.pack('=f', v))[0] for v in vals]
        return vals
    info = np.iinfo(CODES[code][2])
    if info.bits == 8:
        return list(range(info.min, info.max + 1))
    edge = {info.min, info.min + 1, info.max, info.max - 1, 0, 1, 2, 127, 128, 255, 256, 32767,
            32768, 65535, 65536, 65537, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53 + 1,
            2 ** 63 - 1, 2 ** 63, 0x01020304, 0x0102030405060708, -1, -2, -128, -129, -32768}
    for k in range(info.bits):
        edge |= {1 << k, (1 << k) - 1, -(1 << k)}
    return sorted(v for v in edge if info.min <= v <= info.max)


def np_value(code, v):
    """The value as a user of the library would hand it in."""
    if code == 9:
        return v
    return CODES[code][2](v)


def layouts(arr):
    """The same logical array in different memory layouts / byte orders."""
    yield 'C', np.ascontiguousarray(arr)
    if arr.ndim > 1:
        yield 'F', np.asfortranarray(arr)
    big = np.zeros(tuple(2 * d for d in arr.shape), dtype=arr.dtype)
    sl = tuple(slice(0, None, 2) for _ in arr.shape)
    big[sl] = arr
    yield 'strided', big[sl]
    rev = np.ascontiguousarray(arr[tuple(slice(None, None, -1) for _ in arr.shape)])
    yield 'reversed', rev[tuple(slice(None, None, -1) for _ in arr.shape)]
    off = np.zeros(arr.size + 1, dtype=arr.dtype)
    off[1:] = arr.ravel()
    yield 'offset', off[1:].reshape(arr.shape)
    if arr.dtype.itemsize > 1:
        yield 'swapped', arr.astype(arr.dtype.newbyteorder())
        yield 'native=', arr.astype(arr.dtype.newbyteorder('='))
    ro = arr.copy()
    ro.flags.writeable = False
    yield 'readonly', ro


def cells(code, n, base=0):
    """n distinct non-symmetric values of a type."""
    dt = np.dtype(CODES[code][2])
    if dt.kind == 'f':
        return (np.arange(n) * 1.25 - 3.5 + base).astype(dt)
    if dt.itemsize == 1:
        return ((np.arange(n) * 7 + 3 + base) % 251 - (100 if dt.kind == 'i' else 0)).astype(
            np.int64).astype(dt)
    return (np.arange(n, dtype=np.int64) * 257 + 3 + base).astype(dt)

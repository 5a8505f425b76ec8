import hashlib
import zlib


def gz(data, level=6):
    c = zlib.compressobj(level, zlib.DEFLATED, 31)
    return c.compress(data) + c.flush()


def blob(i, n):
    """block number i of n bytes; no two have anything in common"""
    return hashlib.shake_128(b'blob%d-%d' % (i, n)).digest(n)

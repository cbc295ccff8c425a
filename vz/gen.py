"""Key, payload and operation generators."""
import ctypes, os, random, struct, zlib
from . import build

_lib = None
def _load():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(build.helper("crc.c"))
        _lib.vz_crc.restype = ctypes.c_uint32
        _lib.vz_crc.argtypes = [ctypes.c_char_p, ctypes.c_size_t]
    return _lib

def crc(data): return _load().vz_crc(bytes(data), len(data))

def _kernel():
    """5 byte pattern whose crc is 0: xoring it anywhere keeps a crc (linear, zero initial value)"""
    bits = [1] + [(0x1EDC6F41 >> (31 - i)) & 1 for i in range(32)]
    out = bytearray(5)
    for i, v in enumerate(bits):
        if v: out[i // 8] |= 1 << (i % 8)
    return bytes(out)
KERNEL = _kernel()

def same_crc(data, rnd):
    """other bytes, same length, same crc (needs 5 bytes or more)"""
    d = bytearray(data)
    assert len(d) >= 5
    for _ in range(rnd.randint(1, 2)):
        p = rnd.randrange(len(d) - 4)
        for i in range(5): d[p + i] ^= KERNEL[i]
    if bytes(d) == bytes(data):
        for i in range(5): d[i] ^= KERNEL[i]
    return bytes(d)

def _bucket_delta():
    """4-byte patterns at the end of a key that only change the top 8 bits of the crc: same bucket of 2^24, other crc"""
    # crc of a 4 byte message is an invertible linear map: solve by gaussian elimination
    basis = []
    for i in range(32):
        m = struct.pack("<I", 1 << i)
        basis.append((crc(m), 1 << i))
    rows = []
    for c, m in basis:
        for rc, rm in rows:
            if c ^ rc < c: c ^= rc; m ^= rm
        if c:
            rows.append((c, m)); rows.sort(reverse=True)
    def solve(t):
        m = 0
        for rc, rm in rows:
            if t ^ rc < t: t ^= rc; m ^= rm
        assert t == 0
        return struct.pack("<I", m)
    return [solve(x << 24) for x in range(1, 256)]
_bd = None
def bucket_delta():
    global _bd
    if _bd is None: _bd = _bucket_delta()
    return _bd

def xor_tail(k, d):
    k = bytearray(k)
    for i in range(len(d)): k[len(k) - len(d) + i] ^= d[i]
    return bytes(k)

HOSTILE = [b"\0", b"\0\0", b"a", b"A", b"a\0", b"\0a", b"\r\n", b"$3\r\nabc\r\n", b"*", b"%s%n", b"\xff", b"\xff" * 8, b"\x7f",
           b"zdb-namespace", b"../x", b"k" * 255, b"k" * 254 + b"l", b"k" * 254, b"\0" * 255, b"\r" * 17, b"\n" * 8,
           b"\0" * 8, b"\1" + b"\0" * 7, b"SECURE", b"default", b"key", b"KEY", b"keyy", b"key\0", b" key"]

def key_pool(rnd, n, maxlen=255):
    pool = []
    base = bytes(rnd.randrange(256) for _ in range(rnd.randint(8, 24)))
    cand = list(HOSTILE); rnd.shuffle(cand)
    pool += cand[:max(2, n // 3)]
    # same bucket, different crc / same crc / same crc and longer with leading zeros
    fam = [base]
    for _ in range(max(2, n // 4)):
        k = rnd.choice(fam)
        x = rnd.random()
        if x < .45: k = xor_tail(k, rnd.choice(bucket_delta()))
        elif x < .8: k = same_crc(k, rnd)
        else: k = (b"\0" + k)[:255]
        fam.append(k)
    pool += fam
    while len(pool) < n:
        l = rnd.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 100, 127, 128, 200, 254, 255])
        pool.append(bytes(rnd.getrandbits(8) for _ in range(l)))
    out = []
    for k in pool:
        if k and k not in out and len(k) <= maxlen: out.append(k)
    rnd.shuffle(out)
    return out[:n]

SIZES = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 63, 64, 65, 100, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025,
         2047, 2048, 4000, 4095, 4096, 4097]
BIG = [8100, 8150, 8170, 8180, 8185, 8190, 8191, 8192, 8193, 8200, 16383, 16384, 16385, 30000, 65535, 65536, 65537, 100000, 131072]

def payload(rnd, uniq, size=None, big=0.05):
    """payload bytes; unique through a leading counter when long enough"""
    if size is None:
        size = rnd.choice(BIG) if rnd.random() < big else rnd.choice(SIZES)
    if size == 0: return b""
    kind = rnd.random()
    tag = struct.pack("<I", uniq & 0xffffffff)
    if kind < .12: body = b"\0" * size
    elif kind < .2: body = b"\xff" * size
    elif kind < .3: body = (b"\r\n$-1\r\n*2\r\n+OK\r\n" * (size // 16 + 1))[:size]
    else: body = rnd.randbytes(size)
    if size >= 5 and rnd.random() < .9: body = body[:size - 4] + tag
    return body

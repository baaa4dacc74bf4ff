"""Contracts of the hash functions."""

from dtformats import chrome_cache
from dtformats import prefetch

from engine.verify import Bytes, Contract, Str

P = "dtformats.prefetch."


def code_super_fast_hash(key):
    return chrome_cache.SuperFastHash(key)


def word(key, index):
    """A 16-bit little-endian word of the key."""
    return key[index] | (key[index + 1] << 8)


def spec_super_fast_hash(key):
    """The published algorithm, on unsigned bytes and 32-bit arithmetic."""
    if len(key) == 0:
        return 0
    value = len(key) & 0xFFFFFFFF
    for index in range(0, len(key) - len(key) % 4, 4):
        value = (value + word(key, index)) & 0xFFFFFFFF
        temporary = ((word(key, index + 2) << 11) ^ value) & 0xFFFFFFFF
        value = ((value << 16) ^ temporary) & 0xFFFFFFFF
        value = (value + (value >> 11)) & 0xFFFFFFFF
    tail = len(key) - len(key) % 4
    if len(key) % 4 == 3:
        value = (value + word(key, tail)) & 0xFFFFFFFF
        value = (value ^ (value << 16)) & 0xFFFFFFFF
        value = value ^ (key[tail + 2] << 18)
        value = (value + (value >> 11)) & 0xFFFFFFFF
    elif len(key) % 4 == 2:
        value = (value + word(key, tail)) & 0xFFFFFFFF
        value = (value ^ (value << 11)) & 0xFFFFFFFF
        value = (value + (value >> 17)) & 0xFFFFFFFF
    elif len(key) % 4 == 1:
        value = (value + key[tail]) & 0xFFFFFFFF
        value = (value ^ (value << 10)) & 0xFFFFFFFF
        value = (value + (value >> 1)) & 0xFFFFFFFF
    value = (value ^ (value << 3)) & 0xFFFFFFFF
    value = (value + (value >> 5)) & 0xFFFFFFFF
    value = (value ^ (value << 4)) & 0xFFFFFFFF
    value = (value + (value >> 17)) & 0xFFFFFFFF
    value = (value ^ (value << 25)) & 0xFFFFFFFF
    return (value + (value >> 6)) & 0xFFFFFFFF


def code_xp(path):
    return prefetch.CalculatePrefetchHashXP(path)


def spec_xp(path):
    value = 0
    for byte in path.upper().encode("utf-16-le"):
        value = (value * 37 + byte) % 2**32
    value = (value * 314159269) % 2**32
    # the magnitude of the value as a signed 32-bit integer
    if value > 2**31:
        value = 2**32 - value
    return value % 1000000007


def code_vista(path):
    return prefetch.CalculatePrefetchHashVista(path)


def spec_vista(path):
    value = 314159
    for byte in path.upper().encode("utf-16-le"):
        value = (value * 37 + byte) % 2**32
    return value


def code_2008(path):
    return prefetch.CalculatePrefetchHash2008(path)


def spec_2008(path):
    data = path.upper().encode("utf-16-le")
    value = 314159
    index = 0
    # blocks of 8 bytes, the last of which is left to the loop per byte
    while len(data) - index > 8:
        block = data[index] * 442596621
        block += (data[index + 1] * 37**6 + data[index + 2] * 37**5
                  + data[index + 3] * 37**4 + data[index + 4] * 37**3
                  + data[index + 5] * 37**2 + data[index + 6] * 37 + data[index + 7])
        value = (block - value * 803794207) % 2**32
        index += 8
    while index < len(data):
        value = (value * 37 + data[index]) % 2**32
        index += 1
    return value


def gen_path(rng):
    return {"path": "".join(rng.choice("abzAZ09\\.:_-é ÿ")
                            for _ in range(rng.randint(0, 40)))}


CONTRACTS = [
    Contract("P04", "hash.super_fast_hash", code_super_fast_hash,
             spec_super_fast_hash, {"key": Bytes()},
             targets=["dtformats.chrome_cache.SuperFastHash"]),
    Contract("P04", "hash.prefetch_xp", code_xp, spec_xp, {"path": Str()},
             gen=gen_path, targets=[P + "CalculatePrefetchHashXP"]),
    Contract("P04", "hash.prefetch_vista", code_vista, spec_vista, {"path": Str()},
             gen=gen_path, targets=[P + "CalculatePrefetchHashVista"]),
    Contract("P04", "hash.prefetch_2008", code_2008, spec_2008, {"path": Str()},
             gen=gen_path, targets=[P + "CalculatePrefetchHash2008"]),
]

"""Contracts of the Firefox cache version 1 formats."""

from dtformats import errors
from dtformats import firefox_cache1

from engine.speclib import s, u
from engine.verify import Bool, Choice, Contract, File, Int

T = "dtformats.firefox_cache1."


def code_location(value):
    return (firefox_cache1.CacheMapFile()._FormatCacheLocation(value),
            firefox_cache1.CacheBlockFile()._FormatCacheLocation(value))


def spec_location(value):
    text = (f"block number: {value & 0xFFFFFF:d}, "
            f"extra blocks: {(value >> 24) & 3:d}, "
            f"location selector: {(value >> 28) & 3:d}, "
            f"reserved: {((value >> 26) & 0x13):02x}, "
            f"location flag: {value >> 31:d}")
    return text, text


class MapFile(firefox_cache1.CacheMapFile):
    """Records what is shown."""

    def _DebugPrintStructureObject(self, structure, debug_info):
        if hasattr(structure, "hash_number"):
            self.shown.append((structure.hash_number, structure.eviction_rank,
                               structure.data_location, structure.metadata_location))


def code_map(f, debug):
    map_file = MapFile(debug=debug)
    map_file.shown = []
    map_file._file_size = f.size
    map_file.ReadFileObject(f)
    return map_file.shown


def spec_map(f, debug):
    data = f.content
    if len(data) < 276 or u(data, 0, 2, "big") != 1 or (
            u(data, 4, 4, "big") != len(data) - 276):
        raise errors.ParseError("not a cache map file")
    shown = []
    offset = 276
    while offset < len(data):
        if offset + 16 > len(data):
            raise errors.ParseError("missing data")
        if debug:
            shown.append((u(data, offset, 4, "big"), u(data, offset + 4, 4, "big"),
                          u(data, offset + 8, 4, "big"), u(data, offset + 12, 4, "big")))
        offset += 16
    return shown


def gen_map(rng):
    n = rng.choice([0, 16, 32, 48, 50])
    f = bytearray(rng.getrandbits(8) for _ in range(276 + n))
    f[0:4] = b"\0" + bytes([rng.choice([1, 1, 1, 2])]) + b"\0\x13"
    f[4:8] = (n if rng.random() < 0.9 else n + 1).to_bytes(4, "big")
    return {"f": bytes(f)}


CONTRACTS = [
    Contract("P05", "firefox_cache1.location", code_location, spec_location,
             {"value": Int(lo=0, hi=0xFFFFFFFF)},
             targets=[T + "CacheMapFile._FormatCacheLocation",
                      T + "CacheBlockFile._FormatCacheLocation"]),
    Contract("P05", "firefox_cache1.map", code_map, spec_map,
             {"f": File(), "debug": Bool()}, gen=gen_map,
             targets=[T + "CacheMapFile.ReadFileObject",
                      T + "CacheMapFile._ReadFileHeader",
                      T + "CacheMapFile._ReadRecord"]),
]


class BlockFile(firefox_cache1.CacheBlockFile):
    """Records what is shown."""

    def _DebugPrintStructureObject(self, structure, debug_info):
        self.shown.append((
            structure.minor_format_version, structure.location, structure.fetch_count,
            structure.last_fetched_time, structure.last_modified_time,
            structure.expiration_time, structure.cached_data_size, structure.request,
            structure.information))


def code_block(f, name, debug):
    block_file = BlockFile(debug=debug)
    block_file.shown = []
    block_file._file_size = f.size
    block_file._path = "/cache/" + name
    block_file.ReadFileObject(f)
    return block_file.shown


def spec_block(f, name, debug):
    if name == "_CACHE_001_":
        block = 256
    elif name == "_CACHE_002_":
        block = 1024
    elif name == "_CACHE_003_":
        block = 4096
    else:
        raise errors.ParseError("not a cache block file")
    shown = []
    content = f.content
    offset = 0
    while offset < len(content):
        data = content[offset:]
        size = 0
        if len(data) >= 36:
            size = 36 + u(data, 28, 4, "big") + u(data, 32, 4, "big")
        if size == 0 or size > len(data):
            # no entry in this block
            offset += block
        else:
            end = 36 + u(data, 28, 4, "big")
            try:
                request = data[36:end].decode("ascii")
            except UnicodeDecodeError:
                offset += block
                continue
            if debug and u(data, 0, 2, "big") == 1:
                shown.append((
                    u(data, 2, 2, "big"), u(data, 4, 4, "big"), s(data, 8, 4, "big"),
                    u(data, 12, 4, "big"), u(data, 16, 4, "big"),
                    u(data, 20, 4, "big"), u(data, 24, 4, "big"), request,
                    data[end:size]))
            offset += size
            if size % block > 0:
                offset += block - size % block
    return shown


def gen_block(rng):
    f = b""
    for _ in range(rng.randint(0, 3)):
        a, b = rng.choice([0, 1, 5, 200]), rng.choice([0, 3, 219, 220, 221])
        e = bytes([0, rng.choice([1, 1, 1, 2]), 0, 9]) + bytes(
            rng.getrandbits(8) for _ in range(24))
        e += a.to_bytes(4, "big") + b.to_bytes(4, "big")
        e += bytes(rng.choice([65, 66, 67, 0x80 if rng.random() < 0.01 else 68])
                   for _ in range(a)) + bytes(rng.getrandbits(8) for _ in range(b))
        f += e + b"\0" * (-len(e) % 256)
        if rng.random() < 0.3:
            f += b"\xff" * 256
    return {"f": f, "name": "_CACHE_001_" if rng.random() < 0.9 else "x"}


CONTRACTS.append(
    Contract("P05", "firefox_cache1.blocks", code_block, spec_block,
             {"f": File(), "debug": Bool(),
              "name": Choice("_CACHE_001_", "_CACHE_002_", "_CACHE_003_",
                             "_CACHE_MAP_")}, gen=gen_block,
             targets=[T + "CacheBlockFile.ReadFileObject",
                      T + "CacheBlockFile._ReadCacheEntry"]))

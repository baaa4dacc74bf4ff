"""Contracts of the Chrome cache formats."""

from dtformats import chrome_cache
from dtformats import errors

from contracts import quiet
from engine.speclib import Rec, find_terminator, u
from engine.verify import Bool, Contract, File, Int, Writer

T = "dtformats.chrome_cache."
SIZES = {1: 36, 2: 256, 3: 1024, 4: 4096}
NAMES = {0: "Separate file", 1: "Rankings block file", 2: "256 byte block file",
         3: "1024 byte block file", 4: "4096 byte block file"}


def code_address(value):
    return chrome_cache.CacheAddress(value)


def spec_address(value):
    kind = (value >> 28) & 7
    filename = None
    number = None
    size = None
    offset = None
    if value == 0:
        pass
    elif kind == 0:
        filename = f"f_{value & 0xFFFFFFF:06x}"
    elif kind <= 4:
        filename = f"data_{(value >> 16) & 0xFF:d}"
        number = value & 0xFFFF
        size = ((value >> 24) & 3) * SIZES[kind]
        offset = 8192 + number * SIZES[kind]
    return Rec(value=value, file_type=kind, filename=filename, block_number=number,
               block_size=size, block_offset=offset,
               is_initialized=value >= 0x80000000)


def code_address_text(value):
    return chrome_cache.CacheAddress(value).GetDebugString()


def spec_address_text(value):
    kind = (value >> 28) & 7
    initialized = "True" if value >= 0x80000000 else "False"
    if value == 0:
        return "0x00000000 (uninitialized)"
    if kind == 0:
        return (f"0x{value:08x} (initialized: {initialized}, file type: Separate file, "
                f"filename: f_{value & 0xFFFFFFF:06x})")
    if kind > 4:
        return f"0x{value:08x} (initialized: {initialized}, file type: Unknown)"
    return (f"0x{value:08x} (initialized: {initialized}, file type: {NAMES[kind]}, "
            f"filename: data_{(value >> 16) & 0xFF:d}, "
            f"block number: {value & 0xFFFF:d}, "
            f"block offset: 0x{8192 + (value & 0xFFFF) * SIZES[kind]:08x}, "
            f"block size: {((value >> 24) & 3) * SIZES[kind]:d})")


def code_entry(f, offset, debug, writer):
    data_file = chrome_cache.DataBlockFile(debug=debug, output_writer=writer)
    data_file._file_object = f
    return data_file.ReadCacheEntry(offset)


def spec_entry(f, offset, debug, writer):
    data = f.content[offset : offset + 256]
    if len(data) < 256:
        raise errors.ParseError("missing data")
    key = data[96:]
    end = find_terminator(key, b"\0", 1)
    if end >= 0:
        key = key[:end]
    return Rec(hash=u(data, 0, 4), next=Rec(value=u(data, 4, 4)),
               rankings_node=Rec(value=u(data, 8, 4)),
               creation_time=u(data, 24, 8), key=key.decode("ascii", errors="replace"))


def code_block_file(f, debug, writer):
    data_file = chrome_cache.DataBlockFile(debug=debug, output_writer=writer)
    data_file.ReadFileObject(f)
    return data_file.format_version, data_file.block_size, data_file.number_of_entries


def version(data):
    if u(data, 6, 2) != 2 or u(data, 4, 2) > 1:
        raise errors.ParseError("unsupported version")
    return "2.0" if u(data, 4, 2) == 0 else "2.1"


def spec_block_file(f, debug, writer):
    data = f.content[:8192]
    if len(data) < 8192 or u(data, 0, 4) != 0xC104CAC3:
        raise errors.ParseError("not a data block file")
    return version(data), u(data, 12, 4), u(data, 16, 4)


def code_index(f, debug, writer):
    index_file = chrome_cache.IndexFile(debug=debug, output_writer=writer)
    index_file.ReadFileObject(f)
    return index_file.format_version, index_file.creation_time, index_file.index_table


def spec_index(f, debug, writer):
    data = f.content
    if len(data) < 256 or u(data, 0, 4) != 0xC103CAC3:
        raise errors.ParseError("not an index file")
    text = version(data)
    if len(data) < 368:
        raise errors.ParseError("missing data")
    table = {}
    offset = 368
    entry = data[offset : offset + 4]
    index = 0
    while len(entry) == 4:
        value = u(entry, 0, 4)
        if value != 0:
            table[index] = Rec(value=value)
        offset += 4
        index += 1
        entry = data[offset : offset + 4]
    return text, u(data, 40, 8), table


def sample_address(rng):
    return rng.choice([0, 1, 0x80000001, 0x90010002, 0xA0020003, 0xB3FF0004, 0xC100FFFF,
                       0xD0000000, rng.getrandbits(32)])


def gen_address(rng):
    return {"value": sample_address(rng)}


def words(rng, n):
    return b"".join(sample_address(rng).to_bytes(4, "little") for _ in range(n))


def gen_entry(rng):
    offset = rng.choice([0, 0, 8192, 8192 + 256])
    key = bytes(rng.choice([0x41, 0x2F, 0x7F, 0x80, 0]) for _ in range(160))
    if rng.random() < 0.5:
        key = key.replace(b"\0", b"x")[: rng.randint(0, 160)].ljust(160, b"\0")
    f = bytes(offset) + words(rng, 24) + key
    return {"f": f[: len(f) - rng.choice([0, 0, 0, 1, 160])], "offset": offset}


def gen_block_file(rng):
    f = (b"\xc3\xca\x04\xc1" + bytes([rng.choice([0, 0, 1, 1, 2]), 0,
                                      rng.choice([2, 2, 2, 2, 3]), 0])
         + words(rng, 2046))
    return {"f": f[: len(f) - rng.choice([0, 0, 0, 1])]}


def gen_index(rng):
    f = (b"\xc3\xca\x03\xc1" + bytes([rng.choice([0, 0, 1, 1, 2]), 0,
                                      rng.choice([2, 2, 2, 2, 3]), 0])
         + words(rng, 90 + rng.randint(0, 9)))
    return {"f": f[: len(f) - rng.choice([0, 0, 0, 1])]}


def use_address(interp, args, kwargs):
    """Contract of cache addresses (chrome_cache.address): the value decides it."""
    args[0].fields["value"] = args[1]


COMMON = {"debug": Bool(), "writer": Writer()}
QUIET = dict(quiet.STUBS)
for name in ("_DebugPrintAllocationBitmap", "_DebugPrintCacheEntry",
             "_DebugPrintFileHeader"):
    QUIET[T + "DataBlockFile." + name] = quiet.nothing
QUIET[T + "IndexFile._DebugPrintLRUData"] = quiet.nothing

CONTRACTS = [
    Contract("P05", "chrome_cache.address", code_address, spec_address,
             {"value": Int(lo=0, hi=0xFFFFFFFF)}, gen=gen_address,
             targets=[T + "CacheAddress.__init__"]),
    Contract("P05", "chrome_cache.address_text", code_address_text, spec_address_text,
             {"value": Int(lo=0, hi=0xFFFFFFFF)}, gen=gen_address,
             targets=[T + "CacheAddress.GetDebugString"]),
    Contract("P05", "chrome_cache.entry", code_entry, spec_entry,
             {"f": File(), "offset": Int(lo=0), **COMMON}, gen=gen_entry,
             stubs={**QUIET, T + "CacheAddress.__init__": use_address},
             targets=[T + "DataBlockFile.ReadCacheEntry"]),
    Contract("P05", "chrome_cache.data_block_file", code_block_file, spec_block_file,
             {"f": File(), **COMMON}, gen=gen_block_file, stubs=QUIET,
             targets=[T + "DataBlockFile._ReadFileHeader",
                      T + "DataBlockFile.ReadFileObject"]),
    Contract("P05", "chrome_cache.index", code_index, spec_index,
             {"f": File(), **COMMON}, gen=gen_index,
             stubs={**QUIET, T + "CacheAddress.__init__": use_address,
                    T + "CacheAddress.GetDebugString": quiet.text},
             targets=[T + "IndexFile._ReadFileHeader", T + "IndexFile._ReadLRUData",
                      T + "IndexFile._ReadIndexTable", T + "IndexFile.ReadFileObject"]),
]

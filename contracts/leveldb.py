"""Contracts of LevelDB and IndexedDB database files."""

import snappy
import z3
import zstd

from dtformats import errors
from dtformats import indexeddb
from dtformats import leveldb

from contracts import show
from contracts.windows_records import cut, missing
from engine import core
from engine import models
from engine.speclib import u
from engine.verify import Bool, Bytes, Choice, Contract, File, Int, Str, Writer

B = "dtformats.leveldb.LevelDBDatabaseFile."
L = "dtformats.leveldb.LevelDBDatabaseLogFile."
D = "dtformats.leveldb.LevelDBDatabaseDescriptorFile."
T = "dtformats.leveldb.LevelDBDatabaseTableFile."
I = "dtformats.indexeddb.IndexedDBDatabaseTableFile."
HERE = "contracts.leveldb."

TAGS = {1: "kComparator", 2: "kLogNumber", 3: "kNextFileNumber", 4: "kLastSequence",
        5: "kCompactPointer", 6: "kDeletedFile", 7: "kNewFile", 9: "kPrevLogNumber"}
VALUE_TYPES = {0: "kTypeDeletion", 1: "kTypeValue"}


# Variable size integers.

def code_integer(data):
    return leveldb.LevelDBDatabaseFile()._ReadVariableSizeInteger(data)


def spec_integer(data):
    """7 bits per byte, the least significant first, all but the last marked."""
    missing(data, 1)
    value = data[0] & 0x7f
    size = 1
    shift = 0
    more = data[0]
    while size < len(data) and more & 0x80:
        more = data[size]
        size += 1
        shift += 7
        value |= (more & 0x7f) << shift
    if more & 0x80:
        raise errors.ParseError("missing data")
    return value, size


# Write ahead log and descriptor files.

def log_file(debug, writer):
    return leveldb.LevelDBDatabaseLogFile(debug=debug, output_writer=writer)


def descriptor_file(debug, writer):
    return leveldb.LevelDBDatabaseDescriptorFile(debug=debug, output_writer=writer)


def value_type_text(kind):
    return f"{kind:d} ({VALUE_TYPES.get(kind, 'UNKNOWN'):s})"


def slice_size(data, label, debug, writer):
    """Shows a slice, gives its size."""
    length, size = spec_integer(data)
    if length > len(data) - size:
        raise errors.ParseError("missing data")
    if debug:
        writer.WriteText(show.line(f"{label} size", f"{length:d}"))
        writer.WriteText(show.block(label, show.dump(data[size:size + length])))
    return size + length


def code_record(offset, data, debug, writer):
    log_file(debug, writer)._ReadRecord(offset, data, len(data))


def spec_record(offset, data, debug, writer):
    if debug:
        writer.WriteText(show.line("Offset", f"{offset:d}"))
    missing(data, 12)
    if debug:
        writer.WriteText(show.structure(
            show.line("Sequence number", f"{u(data, 0, 8):d}"),
            show.line("Number of values", f"{u(data, 8, 4):d}")))
    position = 12
    while position < len(data):
        kind = data[position]
        if kind > 1:
            raise errors.ParseError("unsupported value type")
        if debug:
            writer.WriteText(show.line("Value type", value_type_text(kind)))
        position += 1
        position += slice_size(data[position:], "Key", debug, writer)
        if kind == 1:
            position += slice_size(data[position:], "Value", debug, writer)


def integer_size(data, label, debug, writer):
    """Shows an integer, gives its size."""
    value, size = spec_integer(data)
    if debug:
        writer.WriteText(show.line(label, f"{value:d}"))
    return size


def string_size(data, label, debug, writer):
    """Shows a string, gives its size."""
    length, size = spec_integer(data)
    if length > len(data) - size:
        raise errors.ParseError("missing data")
    try:
        text = data[size:size + length].decode("utf-8")
    except UnicodeDecodeError:
        raise errors.ParseError("invalid string") from None
    if debug:
        writer.WriteText(show.line(f"{label} string size", f"{length:d}"))
        writer.WriteText(show.line(f"{label} string", text))
    return size + length


def code_change(offset, data, debug, writer):
    descriptor_file(debug, writer)._ReadRecord(offset, data, len(data))


def spec_change(offset, data, debug, writer):
    """Shows the values of a version edit."""
    if debug:
        writer.WriteText(show.line("Offset", f"{offset:d}"))
    p = 0
    while p < len(data):
        tag, size = spec_integer(data[p:])
        p += size
        if tag not in TAGS:
            raise errors.ParseError("unsupported value tag")
        if debug:
            writer.WriteText(show.line("Value tag", f"{tag:d} ({TAGS[tag]:s})"))
        if tag == 1:
            p += string_size(data[p:], "Name", debug, writer)
        elif tag == 2:
            p += integer_size(data[p:], "Log number", debug, writer)
        elif tag == 3:
            p += integer_size(data[p:], "Next file number", debug, writer)
        elif tag == 4:
            p += integer_size(data[p:], "Last sequence number", debug, writer)
        elif tag == 9:
            p += integer_size(data[p:], "Previous log number", debug, writer)
        else:
            p += integer_size(data[p:], "Level", debug, writer)
            if tag == 5:
                p += slice_size(data[p:], "Key", debug, writer)
            else:
                p += integer_size(data[p:], "File number", debug, writer)
            if tag == 7:
                p += integer_size(data[p:], "File size", debug, writer)
                p += slice_size(data[p:], "Smallest record key", debug, writer)
                p += slice_size(data[p:], "Largest record key", debug, writer)


def code_log(f, debug, writer):
    o = log_file(debug, writer)
    o._file_size = f.size
    o.ReadFileObject(f)


def code_descriptor(f, debug, writer):
    o = descriptor_file(debug, writer)
    o._file_size = f.size
    o.ReadFileObject(f)


def show_record(offset, data, debug, writer):
    spec_record(offset, data, debug, writer)


def show_change(offset, data, debug, writer):
    spec_change(offset, data, debug, writer)


def spec_log(f, debug, writer):
    spec_blocks(f, debug, writer, False)


def spec_descriptor(f, debug, writer):
    spec_blocks(f, debug, writer, True)


def spec_blocks(f, debug, writer, descriptor):
    """Blocks of pages of 32768 bytes, in which a block header never is split."""
    position = 0
    room = 32768
    record = b""
    start = 0
    while position < f.size:
        rest = f.content[position:]
        missing(rest, 7)
        size = u(rest, 4, 2)
        kind = rest[6]
        missing(rest, 7 + size)
        data = rest[7:7 + size]
        if debug:
            writer.WriteText(show.structure(
                show.line("Checksum", f"0x{u(rest, 0, 4):08x}"),
                show.line("Record data size", f"{size:d}"),
                show.line("Record type", f"{kind:d}"),
                show.block("Record data", show.dump(data))))
        if kind in (1, 2):
            record = data
            start = position
        elif kind in (3, 4):
            record = record + data
        if kind in (1, 4):
            if descriptor:
                show_change(start, record, debug, writer)
            else:
                show_record(start, record, debug, writer)
        position += 7 + size
        room -= 7 + size
        if room <= 6:
            position += room
            room = 32768


# Stored tables.

def table_file(debug, writer):
    return leveldb.LevelDBDatabaseTableFile(debug=debug, output_writer=writer)


def code_block(f, offset, size, description, debug, writer):
    return table_file(debug, writer)._ReadBlock(f, offset, size, description)


def spec_block(f, offset, size, description, debug, writer):
    rest = f.content[offset:]
    missing(rest, size + 5)
    data = rest[:size]
    kind = rest[size]
    if debug:
        writer.WriteText(show.block(f"{description:s} block data", show.dump(data)))
        writer.WriteText(show.structure(
            show.line("Compression type", f"{kind:d}"),
            show.line("Checksum", f"0x{u(rest, size + 1, 4):08x}")))
    if kind == 0:
        return data
    if kind == 1:
        return snappy_data(data)
    if kind == 2:
        return zstd_data(data)
    raise errors.ParseError("unsupported compression type")


def snappy_data(data):
    try:
        return snappy.decompress(data)
    except snappy.UncompressError:
        raise errors.ParseError("invalid data") from None


def zstd_data(data):
    try:
        return zstd.decompress(data)
    except zstd.Error:
        raise errors.ParseError("invalid data") from None


def code_handle(data, description, debug, writer):
    handle, size = table_file(debug, writer)._ReadBlockHandle(data, description)
    return handle.offset, handle.size, size


def spec_handle(data, description, debug, writer):
    offset, first = spec_integer(data)
    size, second = spec_integer(data[first:])
    if debug:
        writer.WriteText(show.line(f"{description:s} block offset", f"0x{offset:08x}"))
        writer.WriteText(show.line(f"{description:s} block size", f"{size:d}"))
    return offset, size, first + second


def handle_of(data, description, debug, writer):
    return spec_handle(data, description, debug, writer)


def code_table_file(f, debug, writer):
    o = table_file(debug, writer)
    o._file_size = f.size
    o.ReadFileObject(f)
    return o._index_block_offset, o._index_block_size


def spec_table_file(f, debug, writer):
    data = f.content
    missing(data, 48)
    footer = data[f.size - 48:]
    if footer[40:] != b"\x57\xfb\x80\x8b\x24\x75\x47\xdb":
        raise errors.ParseError("unsupported signature")
    offset, size, first = handle_of(footer[:40], "Metaindex", debug, writer)
    index_offset, index_size, second = handle_of(
        footer[first:40], "Index", debug, writer)
    if debug:
        writer.WriteText(show.structure(
            show.block("Padding", show.dump(footer[first + second:40])),
            show.block("Signature", show.dump(footer[40:]))))
    if size > 0:
        missing(data, offset + size)
    if debug:
        writer.WriteText(show.block(
            "Metaindex block data", show.dump(data[offset:offset + size])))
    return index_offset, index_size


def code_table(f, offset, size, description, debug, writer):
    entries = table_file(debug, writer)._ReadTable(f, offset, size, description)
    return [(e.key, e.sequence_number, e.value_type, e.value) for e in entries]


def block_data(f, offset, size, description, debug, writer):
    return spec_block(f, offset, size, description, debug, writer)


def spec_table(f, offset, size, description, debug, writer):
    data = block_data(f, offset, size, description, debug, writer)
    if debug:
        writer.WriteText(show.block(f"{description:s} table data", show.dump(data)))
    missing(data, 4)
    count = u(data, len(data) - 4, 4)
    end = len(data) - 4 - 4 * count
    if end < 0:
        raise errors.ParseError("too many restart values")
    if debug:
        writer.WriteText(show.line("Number of restart values", f"{count:d}"))
        writer.WriteText(show.line("Restart values", ", ".join(
            [f"{u(data, end + 4 * i, 4):d}" for i in range(count)])))
    entries = []
    key = b""
    p = 0
    index = 0
    while p < end:
        if debug:
            writer.WriteText(show.line("Offset", f"{p:d}"))
        shared, n = spec_integer(data[p:])
        p += n
        own, n = spec_integer(data[p:])
        p += n
        value_size, n = spec_integer(data[p:])
        p += n
        if shared > len(key) or p + own + value_size > end:
            raise errors.ParseError("beyond the data")
        if shared + own < 8:
            raise errors.ParseError("key without suffix")
        if debug:
            writer.WriteText(show.line(
                f"Entry: {index:d} shared key data size", f"{shared:d}"))
            writer.WriteText(show.line(
                f"Entry: {index:d} non-shared key data size", f"{own:d}"))
            writer.WriteText(show.line(
                f"Entry: {index:d} value data size", f"{value_size:d}"))
            writer.WriteText(show.block(
                f"Entry: {index:d} key data", show.dump(data[p:p + own])))
        if shared > 0:
            key = key[:shared] + data[p:p + own]
            if debug:
                writer.WriteText(show.block(
                    f"Entry: {index:d} key data", show.dump(key)))
        else:
            key = data[p:p + own]
        p += own
        length = shared + own - 8
        suffix = u(key, length, 8)
        kind = suffix % 256
        sequence = suffix // 256
        value = data[p:p + value_size]
        p += value_size
        if debug:
            writer.WriteText(show.line("Key", key[:length]))
            writer.WriteText(show.line("Value type", value_type_text(kind)))
            writer.WriteText(show.line("Sequence number", f"{sequence:d}"))
            writer.WriteText(show.block(
                f"Entry: {index:d} value data", show.dump(value)))
        entries.append(leveldb.LevelDBDatabaseTableEntry(
            key[:length], sequence, kind, value))
        index += 1
    return [(e.key, e.sequence_number, e.value_type, e.value) for e in entries]


def code_entry(key, number, kind, value):
    entry = leveldb.LevelDBDatabaseTableEntry(key, number, kind, value)
    return entry.key, entry.sequence_number, entry.value_type, entry.value


def spec_entry(key, number, kind, value):
    return key, number, kind, value


def code_entries(f, offset, size, debug, writer):
    o = table_file(debug, writer)
    o._file_size = f.size
    o._file_object = f
    o._index_block_offset = offset
    o._index_block_size = size
    return [(e.key, e.sequence_number, e.value_type, e.value)
            for e in o.ReadTableEntries()]


def table_entries(f, offset, size, description, debug, writer):
    return [leveldb.LevelDBDatabaseTableEntry(*values) for values in spec_table(
        f, offset, size, description, debug, writer)]


def spec_entries(f, offset, size, debug, writer):
    entries = []
    for index in table_entries(f, offset, size, "Index", debug, writer):
        block_offset, block_size, _ = handle_of(index.value, "Data", debug, writer)
        entries += table_entries(f, block_offset, block_size, "Data", debug, writer)
    return [(e.key, e.sequence_number, e.value_type, e.value) for e in entries]


# IndexedDB.

def code_prefix(data):
    return indexeddb.IndexedDBDatabaseTableFile()._ReadKeyPrefix(data)


def spec_prefix(data):
    missing(data, 1)
    first = data[0] // 32 + 1
    second = data[0] // 4 % 8 + 1
    third = data[0] % 4 + 1
    missing(data, 1 + first + second + third)
    return (little(data, 1, first), little(data, 1 + first, second),
            little(data, 1 + first + second, third)), 1 + first + second + third


def little(data, offset, size):
    """An integer of 1 to 8 bytes, in little endian."""
    value = data[offset]
    for index in range(1, 8):
        if index < size:
            value += data[offset + index] * 256 ** index
    return value


def code_keys(f, offset, size, debug, writer):
    o = indexeddb.IndexedDBDatabaseTableFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    o._file_object = f
    o._index_block_offset = offset
    o._index_block_size = size
    return [(e.key_segments, e.sequence_number, e.value_type, e.value)
            for e in o.ReadEntries()]


def prefix_of(key):
    return spec_prefix(key)


def code_key_entry(segments, number, kind, value):
    entry = indexeddb.IndexedDBDatabaseEntry(segments, number, kind, value)
    return entry.key_segments, entry.sequence_number, entry.value_type, entry.value


def spec_key_entry(segments, number, kind, value):
    return segments, number, kind, value


def all_entries(f, offset, size, debug, writer):
    return [leveldb.LevelDBDatabaseTableEntry(*values) for values in spec_entries(
        f, offset, size, debug, writer)]


def spec_keys(f, offset, size, debug, writer):
    result = []
    for entry in all_entries(f, offset, size, debug, writer):
        key = entry.key
        prefix, n = prefix_of(key)
        segments = [f"{prefix[0]:d}", f"{prefix[1]:d}", f"{prefix[2]:d}"]
        if prefix[0] == 0 and prefix[1] == 0 and prefix[2] == 0:
            missing(key, n + 1)
            segments.append(f"{key[n]:d}")
            n += 1
        if n < len(key):
            segments.append(repr(key[n:])[1:])
        result.append(indexeddb.IndexedDBDatabaseEntry(
            segments, entry.sequence_number, entry.value_type, entry.value))
    return [(e.key_segments, e.sequence_number, e.value_type, e.value) for e in result]


# Inputs.

def number(value):
    data = b""
    while value >= 128:
        data += bytes([value & 127 | 128])
        value >>= 7
    return data + bytes([value])


def some(rng):
    return rng.choice([0, 1, 5, 127, 128, 300, 2 ** 32, 2 ** 64 - 1])


def gen_integer(rng):
    data = number(some(rng)) + rng.randbytes(rng.choice([0, 3]))
    return {"data": rng.choice([data, data, cut(rng, data), b"\x80\x80\0"])}


def gen_slice(rng, own=b""):
    data = own or rng.randbytes(rng.choice([0, 1, 7, 130]))
    return number(len(data) + rng.choice([0] * 60 + [1, 500])) + data


def record_data(rng):
    data = rng.randbytes(12)
    for _ in range(rng.choice([0, 1, 2])):
        kind = rng.choice([0, 1, 1, 0, 1, 1, 0, 1, 2])
        data += bytes([kind]) + gen_slice(rng)
        if kind == 1:
            data += gen_slice(rng)
    return data if rng.random() < 0.9 else cut(rng, data)


def gen_record(rng):
    return {"offset": rng.choice([0, 77]), "data": record_data(rng)}


def change_data(rng):
    data = b""
    for _ in range(rng.choice([0, 1, 2, 3])):
        tag = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 1, 5, 7] * 2 + [8, 300])
        data += number(tag)
        if tag == 1:
            data += gen_slice(rng, rng.choice([b"name", b"a\nb", b"\xc3\xa9", b"\xff"]))
            continue
        data += number(some(rng))
        if tag in (6, 7):
            data += number(some(rng))
        if tag == 7:
            data += number(some(rng)) + gen_slice(rng)
        if tag in (5, 7):
            data += gen_slice(rng)
    return data if rng.random() < 0.9 else cut(rng, data)


def gen_change(rng):
    return {"offset": rng.choice([0, 77]), "data": change_data(rng)}


def log_data(rng, make):
    data = b""
    for _ in range(rng.choice([0, 1, 2, 3])):
        kind = rng.choice([1, 1, 2, 3, 4, 0, 7])
        part = make(rng)
        if kind > 1:
            part = rng.choice([part, part[:12], part[12:], b""])
        if rng.random() < 0.2:
            kind = rng.choice([0, 2])
            room = 32768 - len(data) % 32768
            part = bytes(max(0, room - 7 - rng.choice([0, 3, 6, 7, 8, -5])))
        data += rng.randbytes(4) + len(part).to_bytes(2, "little") + bytes([kind]) + part
        room = 32768 - len(data) % 32768
        if room <= 6:
            data += bytes(room)
    return data if rng.random() < 0.8 else cut(rng, data)


def gen_log(rng):
    return {"f": log_data(rng, record_data)}


def gen_descriptor(rng):
    return {"f": log_data(rng, change_data)}


def block(rng, data):
    kind = rng.choice([0, 0, 1, 2])
    if kind == 1:
        data = rng.choice([snappy.compress(data)] * 9 + [b"\xff\xff"])
    if kind == 2:
        data = rng.choice([zstd.compress(data)] * 9 + [b"\xff\xff"])
    kind = rng.choice([kind] * 20 + [3])
    return data, bytes([kind]) + rng.randbytes(4)


def table_data(rng, values):
    data = b""
    key = b""
    for value in values:
        shared = rng.choice([0, 0, len(key), len(key) // 2])
        own = rng.choice([b"\0\0\0\0\1", b"\0\1\2\3", b"\x40\1\1\2\3key", b"", b"\0" * 4])
        own += rng.choice([0, 1, 1, 2]).to_bytes(1, "little") + rng.randbytes(7)
        own = rng.choice([own] * 30 + [own[:3]])
        data += number(shared + rng.choice([0] * 40 + [1])) + number(len(own)) + number(
            len(value) + rng.choice([0] * 40 + [4, 300])) + own + value
        key = key[:shared] + own
    count = rng.choice([0, 1, 2])
    data += rng.randbytes(4 * count) + rng.choice([count] * 30 + [count + 900]).to_bytes(
        4, "little")
    return data if rng.random() < 0.95 else cut(rng, data)


def gen_block(rng):
    head = rng.randbytes(rng.choice([0, 5]))
    data, tail = block(rng, rng.choice([b"", b"abc", bytes(100)]))
    return {"f": cut(rng, head + data + tail), "offset": len(head), "size": len(data),
            "description": rng.choice(["Index", "Data"])}


def gen_handle(rng):
    data = number(some(rng)) + number(some(rng)) + rng.randbytes(rng.choice([0, 2]))
    return {"data": cut(rng, data), "description": rng.choice(
        ["Metaindex", "Index", "Data"])}


def gen_table_file(rng):
    body = rng.randbytes(rng.choice([0, 9, 30]))
    offset = rng.choice([0, 0, 4, 40])
    footer = number(offset) + number(rng.choice([5, 0, len(body) + 48])) + number(
        some(rng)) + number(some(rng))
    footer = footer.ljust(40, rng.choice([b"\0", b"\0", b"\0", b"\x80"]))
    footer += rng.choice([b"\x57\xfb\x80\x8b\x24\x75\x47\xdb"] * 9 + [bytes(8)])
    return {"f": rng.choice([body + footer] * 9 + [footer[3:]])}


def gen_table(rng):
    head = rng.randbytes(rng.choice([0, 5]))
    data, tail = block(rng, table_data(rng, [
        rng.randbytes(rng.choice([0, 1, 20])) for _ in range(rng.choice([0, 1, 2, 3]))]))
    return {"f": head + data + tail, "offset": len(head), "size": len(data),
            "description": rng.choice(["Index", "Data"])}


def gen_entries(rng):
    data = b""
    handles = []
    for _ in range(rng.choice([0, 1, 2])):
        part, tail = block(rng, table_data(rng, [
            rng.randbytes(rng.choice([0, 1, 20])) for _ in range(rng.choice([0, 1, 2]))]))
        handles.append(number(len(data)) + number(len(part)))
        data += part + tail
    part, tail = block(rng, table_data(rng, handles))
    return {"f": data + part + tail, "offset": len(data), "size": len(part)}


def gen_prefix(rng):
    data = bytes([rng.choice([0, 0xff, rng.randrange(256)])]) + rng.randbytes(
        rng.choice([20, 20, 3]))
    return {"data": cut(rng, data)}


# Call-site contracts.

def integer_of(interp, args, kwargs):
    ctx = interp.ctx
    data = args[-1]
    if not ctx.decide(ctx.app("varint_ok", (data,), "bool")):
        interp.throw(errors.ParseError)
    size = ctx.app("varint_size", (data,), "int", lo=1)
    ctx.assume(models.zi(size) <= models.zi(interp.seq_len(data)))
    return ctx.app("varint", (data,), "int", lo=0), size


def decompress(name, error):
    def handler(interp, args, kwargs):
        if not interp.ctx.decide(interp.ctx.app(name + "_ok", (args[0],), "bool")):
            interp.throw(error)
        return interp.ctx.app(name, (args[0],), "bytes")
    return handler


def method_effect(name, after):
    return show.effect(name, lambda args: (
        args[1:], args[0].fields["_debug"], args[0].fields["_output_writer"]),
        lambda interp, args: after(interp, args[1:]))


def spec_effect(name, after):
    return show.effect(name, show.function_input, lambda interp, args: after(
        interp, args[:-2]))


def content(interp, args):
    return tuple(interp.getattr(a, "content") if isinstance(a, models.SFile) else a
                 for a in args)


def block_of(interp, args):
    return interp.ctx.app("block_data", content(interp, args), "bytes")


def handle_values(interp, args):
    app = interp.ctx.app
    return [app(f"handle_{name}", tuple(args), "int", lo=0)
            for name in ("offset", "size", "read")]


def handle_object(interp, args):
    offset, size, read = handle_values(interp, args)
    return core.SObj(object, {"offset": offset, "size": size}), read


def entries_of(name):
    """A sequence of table entries determined by the input."""
    def after(interp, args):
        ctx = interp.ctx

        def make():
            sym = core.fresh_name(name)

            def element(i):
                key = (core.mkint(i),)
                return core.SObj(object, {
                    "key": ctx.app("key:" + sym, key, "bytes"),
                    "sequence_number": ctx.app("number:" + sym, key, "int", lo=0),
                    "value_type": ctx.app("type:" + sym, key, "int", lo=0),
                    "value": ctx.app("value:" + sym, key, "bytes")})
            return [core.Splice(
                sym, z3.IntVal(0), ctx.fresh_int("size", lo=0).e, element)]
        return list(ctx.app(name, content(interp, args), "list", make=make))
    return after


def read_entries(interp, args):
    o = args[0].fields
    return [o["_file_object"], o["_index_block_offset"], o["_index_block_size"]]


def prefix_effect(interp, args, kwargs):
    ctx = interp.ctx
    data = args[-1]
    if not ctx.decide(ctx.app("prefix_ok", (data,), "bool")):
        interp.throw(errors.ParseError)
    values = tuple(ctx.app(f"prefix_{i:d}", (data,), "int", lo=0) for i in range(3))
    size = ctx.app("prefix_size", (data,), "int", lo=4)
    ctx.assume(models.zi(size) <= models.zi(interp.seq_len(data)))
    return values, size


PREFIX = {I + "_ReadKeyPrefix": prefix_effect, HERE + "prefix_of": prefix_effect}
ENTRIES = {T + "ReadTableEntries": show.effect(
               "all_entries", lambda args: (
                   read_entries(None, args), args[0].fields["_debug"],
                   args[0].fields["_output_writer"]),
               lambda interp, args: entries_of("all")(interp, read_entries(interp, args))),
           HERE + "all_entries": spec_effect("all_entries", entries_of("all"))}
INTEGER = {B + "_ReadVariableSizeInteger": integer_of, HERE + "spec_integer": integer_of}


def record_effects(method, function, name):
    """A record is read with its data and the size of its data."""
    return {method: method_effect(name, lambda interp, args: None),
            function: show.effect(name, lambda args: (
                (args[0], args[1], core.mkint(models.zi(core.bytes_len(args[1])))),
                args[2], args[3]))}


RECORD = record_effects(L + "_ReadRecord", HERE + "show_record", "log_record")
CHANGE = record_effects(D + "_ReadRecord", HERE + "show_change", "log_change")
LIBRARIES = {"snappy.snappy.uncompress": decompress("snappy", snappy.UncompressError),
             "zstd.decompress": decompress("zstd", zstd.Error)}
BLOCK = {T + "_ReadBlock": method_effect("table_block", block_of),
         HERE + "block_data": spec_effect("table_block", block_of)}
HANDLE = {T + "_ReadBlockHandle": method_effect("handle", handle_object),
          HERE + "handle_of": spec_effect("handle", handle_values)}
TABLE = {T + "_ReadTable": method_effect("table", entries_of("table_entries")),
         HERE + "table_entries": spec_effect("table", entries_of("table_entries"))}

CONTRACTS = [
    Contract("P21", "leveldb.integer", code_integer, spec_integer, {"data": Bytes()},
             gen=gen_integer, targets=[B + "_ReadVariableSizeInteger"]),
    Contract("P21", "leveldb.record", code_record, spec_record,
             {"offset": Int(0), "data": Bytes(), "debug": Bool(), "writer": Writer()},
             gen=gen_record, stubs={**show.STUBS, **INTEGER}, targets=[L + "_ReadRecord"]),
    Contract("P21", "leveldb.change", code_change, spec_change,
             {"offset": Int(0), "data": Bytes(), "debug": Bool(), "writer": Writer()},
             gen=gen_change, stubs={**show.STUBS, **INTEGER}, targets=[D + "_ReadRecord"]),
    Contract("P21", "leveldb.log", code_log, spec_log,
             {"f": File(), "debug": Bool(), "writer": Writer()},
             gen=gen_log, stubs={**show.STUBS, **RECORD}, targets=[L + "ReadFileObject"]),
    Contract("P21", "leveldb.descriptor", code_descriptor, spec_descriptor,
             {"f": File(), "debug": Bool(), "writer": Writer()},
             gen=gen_descriptor, stubs={**show.STUBS, **CHANGE}, targets=[L + "ReadFileObject"]),
    Contract("P21", "leveldb.block", code_block, spec_block,
             {"f": File(), "offset": Int(0), "size": Int(0),
              "description": Choice("Index", "Data"),
              "debug": Bool(), "writer": Writer()},
             gen=gen_block, stubs={**show.STUBS, **LIBRARIES}, targets=[T + "_ReadBlock"],
             assumptions=["snappy.decompress and zstd.decompress give bytes that are"
                          " determined by the data, or raise their documented error"]),
    Contract("P21", "leveldb.handle", code_handle, spec_handle,
             {"data": Bytes(), "description": Choice("Metaindex", "Index", "Data"),
              "debug": Bool(), "writer": Writer()},
             gen=gen_handle, stubs={**show.STUBS, **INTEGER}, targets=[T + "_ReadBlockHandle"]),
    Contract("P21", "leveldb.table_file", code_table_file, spec_table_file,
             {"f": File(), "debug": Bool(), "writer": Writer()},
             gen=gen_table_file, stubs={**show.STUBS, **HANDLE},
             targets=[T + "ReadFileObject"]),
    Contract("P21", "leveldb.table", code_table, spec_table,
             {"f": File(), "offset": Int(0), "size": Int(0),
              "description": Choice("Index", "Data"),
              "debug": Bool(), "writer": Writer()},
             gen=gen_table, stubs={**show.STUBS, **BLOCK, **INTEGER},
             targets=[T + "_ReadTable"]),
    Contract("P21", "leveldb.entry", code_entry, spec_entry,
             {"key": Bytes(), "number": Int(0), "kind": Int(0), "value": Bytes()},
             targets=["dtformats.leveldb.LevelDBDatabaseTableEntry.__init__"]),
    Contract("P21", "leveldb.entries", code_entries, spec_entries,
             {"f": File(), "offset": Int(0), "size": Int(0), "debug": Bool(),
              "writer": Writer()},
             gen=gen_entries, stubs={**show.STUBS, **HANDLE, **TABLE},
             targets=[T + "ReadTableEntries"]),
    Contract("P21", "indexeddb.prefix", code_prefix, spec_prefix, {"data": Bytes()},
             gen=gen_prefix, targets=[I + "_ReadKeyPrefix"]),
    Contract("P21", "indexeddb.entry", code_key_entry, spec_key_entry,
             {"segments": Str(), "number": Int(0), "kind": Int(0), "value": Bytes()},
             targets=["dtformats.indexeddb.IndexedDBDatabaseEntry.__init__"]),
    Contract("P21", "indexeddb.entries", code_keys, spec_keys,
             {"f": File(), "offset": Int(0), "size": Int(0), "debug": Bool(),
              "writer": Writer()},
             gen=gen_entries, stubs={**show.STUBS, **PREFIX, **ENTRIES},
             targets=[I + "ReadEntries"]),
]

"""Contracts of the tables and files of Apple Spotlight store databases."""

import random

from dtformats import errors
from dtformats import spotlight_storedb

from contracts import show
from contracts import spotlight as spot
from contracts import spotlight_pages as pages
from contracts.bookmark_data import text_of
from contracts.windows_records import cut, missing
from engine import core
from engine import models
from engine.speclib import Rec, find_terminator, numbers, u, until
from engine.verify import Bool, Bytes, Choice, Contract, File, Int, Ints, Writer

S = spot.S
HERE = "contracts.spotlight_tables."
store_file = spot.store_file
decimal = spot.decimal


class Lists:
    """Writes the lists of values that are stored."""

    name = "lists"

    def __init__(self, writer):
        self.writer = writer

    def __setitem__(self, key, value):
        self.writer.WriteText(
            f"{key:d} {value.table_index:d} " + "|".join(value.values_list))


class Types:
    """Writes the types that are stored."""

    name = "types"

    def __init__(self, writer):
        self.writer = writer

    def __setitem__(self, key, v):
        self.writer.WriteText(f"{key:d} {v.table_index:d} {v.value_type:d} "
                              f"{v.property_type:d} {v.key_name or '':s}")


class Names:
    """Writes the names that are stored."""

    name = "names"

    def __init__(self, writer):
        self.writer = writer

    def __setitem__(self, key, v):
        self.writer.WriteText(f"{key:d} {v.table_index:d} {v.value_name or '':s}")


# Values of pages and streams.

def named_file(number, debug, writer):
    o = store_file(debug, writer)
    o._metadata_values = spot.Table(number, "names")
    return o


def code_lists(used, data, number, debug, writer):
    named_file(number, debug, writer)._ReadIndexPageValues(
        Rec(used_page_size=used), data, Lists(writer))


def name_or_not(number, value):
    name = spot.name_of(number, value)
    return "" if name is None else name


def spec_lists(used, data, number, debug, writer):
    """A number, the size of a list, padding of that size and the list."""
    start = 12
    count = 0
    while start < used - 20:
        missing(data, start + 4)
        key = u(data, start, 4)
        size, width = spot.spec_integer(data[start + 4:])
        position = start + 4 + width + size % 4
        size -= size % 4
        missing(data[position:], size)
        values = numbers(data[position:position + size], 4)
        end = position + size
        if debug:
            writer.WriteText(show.block(
                f"Page value: {count:d} data", show.dump(data[start:end])))
        names = []
        for value in values:
            names.append(name_or_not(number, value))
        if debug:
            writer.WriteText(show.line("Table index", f"{key:d}"))
            writer.WriteText(show.line("Index size", f"{size:d}"))
            show_list(values, number, writer)
        writer.WriteText(f"{key:d} {key:d} " + "|".join(names))
        start = end
        count += 1


def show_list(values, number, writer):
    writer.WriteText(show.line("Index values", ", ".join([f"{v:d}" for v in values])))
    writer.WriteText("\n")
    for value in values:
        writer.WriteText(show.line(f"Value: {value:d}", name_or_not(number, value)))
    writer.WriteText("\n")


def code_types(used, data, debug, writer):
    store_file(debug, writer)._ReadMetadataAttributePageValues(
        Rec(used_page_size=used, property_table_type=0x11), data, Types(writer))


def code_names(used, data, debug, writer):
    store_file(debug, writer)._ReadMetadataAttributePageValues(
        Rec(used_page_size=used, property_table_type=0x21), data, Names(writer))


def terminated(data):
    end = find_terminator(data, b"\0", 1)
    if end < 0:
        raise errors.ParseError("missing end of text")
    return text_of(data[:end], "utf8"), end + 1


def spec_types(used, data, debug, writer):
    start = 12
    count = 0
    while start < used - 20:
        missing(data, start + 6)
        text, size = terminated(data[start + 6:])
        key, code, kind = u(data, start, 4), u(data, start + 4, 1), u(data, start + 5, 1)
        if debug:
            writer.WriteText(show.block(f"Page value: {count:d} data", show.dump(
                data[start:start + 6 + size])))
            show_type(key, code, kind, text, writer)
        writer.WriteText(f"{key:d} {key:d} {code:d} {kind:d} {text:s}")
        start += 6 + size
        count += 1


def show_type(key, code, kind, text, writer):
    writer.WriteText(show.structure(
        show.line("Table index", f"{key:d}"),
        show.line("Value type", f"0x{code:02x}"),
        show.line("Property type", f"0x{kind:02x}"),
        show.value("Key name", text.rstrip("\0"))))


def show_name(key, text, writer):
    writer.WriteText(show.structure(
        show.line("Table index", f"{key:d}"), show.value("Value name", text.rstrip("\0"))))


def spec_names(used, data, debug, writer):
    start = 12
    count = 0
    while start < used - 20:
        missing(data, start + 4)
        text, size = terminated(data[start + 4:])
        key = u(data, start, 4)
        if debug:
            writer.WriteText(show.block(f"Page value: {count:d} data", show.dump(
                data[start:start + 4 + size])))
            show_name(key, text, writer)
        writer.WriteText(f"{key:d} {key:d} {text:s}")
        start += 4 + size
        count += 1


def streams_of(number, index):
    """The values of a streams map."""
    rng = random.Random(number)
    values = []
    for _ in range(rng.randrange(5)):
        data = rng.choice([b"", b"a\0", b"\1\2abc\0", rng.randbytes(12), b"\1\2\0",
                           b"\1\x08" + rng.randbytes(8), b"\1\x0aab" + rng.randbytes(8)])
        if index < 3:
            data = spot.encode(len(data) + rng.choice([0, 0, 0, 0, 1])) + data
        values.append(data[:rng.choice([len(data)] * 8 + [1])])
    return values


class StreamStore(spotlight_storedb.SpotlightStoreDatabaseFile):
    """A store of which the streams maps are determined by a number."""

    def _ReadStreamsMap(self, streams_map_number):
        return streams_of(self.number, streams_map_number)


def stream_file(number, debug, writer):
    o = StreamStore(debug=debug, output_writer=writer)
    o.number = number
    o._metadata_values = spot.Table(number, "names")
    return o


def code_stream_lists(number, index, debug, writer):
    stream_file(number, debug, writer)._ReadIndexStreamsMap(index, Lists(writer))


def spec_stream_lists(number, index, debug, writer):
    for key, data in enumerate(streams_of(number, index)):
        if debug:
            writer.WriteText(show.block(f"Stream value: {key:d} data", show.dump(data)))
        if key == 0:
            continue
        unknown, start = spot.spec_integer(data)
        decimal("Unknown1", unknown, debug, writer)
        size, width = spot.spec_integer(data[start:])
        start += width
        padding = size % 4
        size -= padding
        missing(data[start + padding:], size)
        values = numbers(data[start + padding:start + padding + size], 4)
        names = []
        for value in values:
            names.append(name_or_not(number, value))
        if debug:
            writer.WriteText(show.line("Table index", f"{key:d}"))
            writer.WriteText(show.line("Index size", f"{size:d}"))
            writer.WriteText(show.block(
                "Padding", show.dump(data[start:start + padding])))
            show_list(values, number, writer)
        writer.WriteText(f"{key:d} {key:d} " + "|".join(names))


def code_stream_types(number, debug, writer):
    stream_file(number, debug, writer)._ReadMetadataAttributeStreamsMap(1, Types(writer))


def code_stream_names(number, debug, writer):
    stream_file(number, debug, writer)._ReadMetadataAttributeStreamsMap(2, Names(writer))


def spec_stream_types(number, debug, writer):
    for key, data in enumerate(streams_of(number, 1)):
        if debug:
            writer.WriteText(show.block(f"Stream value: {key:d} data", show.dump(data)))
        if key == 0:
            continue
        size, start = spot.spec_integer(data)
        decimal("Data size", size, debug, writer)
        if start + size != len(data):
            continue
        missing(data, start + 2)
        text, _ = terminated(data[start + 2:])
        code, kind = data[start], data[start + 1]
        if debug:
            show_type(key, code, kind, text, writer)
        writer.WriteText(f"{key:d} {key:d} {code:d} {kind:d} {text:s}")


def spec_stream_names(number, debug, writer):
    for key, data in enumerate(streams_of(number, 2)):
        if debug:
            writer.WriteText(show.block(f"Stream value: {key:d} data", show.dump(data)))
        if key == 0:
            continue
        size, start = spot.spec_integer(data)
        decimal("Data size", size, debug, writer)
        if start + size != len(data):
            continue
        text, _ = terminated(data[start:])
        if debug:
            show_name(key, text, writer)
        writer.WriteText(f"{key:d} {key:d} {text:s}")


# Property pages.

def code_property_page(f, offset, number, debug, writer):
    o = named_file(number, debug, writer)
    kind = 0
    if f.size >= offset + 16:
        kind = u(f.content, offset + 12, 4)
    table = Lists(writer)
    if kind == 0x11:
        table = Types(writer)
    elif kind == 0x21:
        table = Names(writer)
    header, following = o._ReadPropertyPage(f, offset, table)
    return header.property_table_type, following


def page_values(kind, used, data, number, debug, writer):
    o = named_file(number, debug, writer)
    header = Rec(property_table_type=kind, used_page_size=used)
    if kind == 0x81:
        o._ReadIndexPageValues(header, data, Lists(writer))
    elif kind == 0x11:
        o._ReadMetadataAttributePageValues(header, data, Types(writer))
    else:
        o._ReadMetadataAttributePageValues(header, data, Names(writer))


def spec_property_page(f, offset, number, debug, writer):
    content = f.content
    pages.page_header(content, offset, debug, writer)
    kind = u(content, offset + 12, 4)
    if kind not in (0x11, 0x21, 0x41, 0x81):
        raise errors.ParseError("unsupported type of page")
    data = content[offset + 20:offset + u(content, offset + 4, 4)]
    missing(data, 12)
    if debug:
        writer.WriteText(show.structure(
            show.line("Next block number", f"{u(data, 0, 4):d}"),
            show.line("Unknown1", f"0x{u(data, 4, 8):08x}")))
    if kind != 0x41:
        page_values(kind, u(content, offset + 8, 4), data, number, debug, writer)
    elif debug:
        writer.WriteText(show.block("Page data", show.dump(data)))
    return kind, u(data, 0, 4)


def code_property_pages(f, block, debug, writer):
    o = store_file(debug, writer)
    o._file_size = f.size
    o._ReadPropertyPages(f, block, Names(writer))


def page_of(f, offset, debug, writer):
    return store_file(debug, writer)._ReadPropertyPage(f, offset, Names(writer))[1]


def spec_property_pages(f, block, debug, writer):
    """A chain of pages that ends within the number of blocks of the file."""
    offset = block * 0x1000
    count = f.size // 0x1000
    while offset != 0:
        if count == 0:
            raise errors.ParseError("chain of pages without end")
        count -= 1
        offset = page_of(f, offset, debug, writer) * 0x1000


# Map pages.

class Pages:
    """Writes the map values that are added."""

    def __init__(self, writer):
        self.writer = writer

    def append(self, v):
        self.writer.WriteText(f"{v.unknown1:d} {v.block_number:d} {v.unknown2:d}")


def map_file(debug, writer):
    o = store_file(debug, writer)
    o._map_values = Pages(writer)
    return o


def code_map_values(f, offset, count, debug, writer):
    map_file(debug, writer)._ReadMapPageValues(Rec(number_of_map_values=count), f, offset)


def spec_map_values(f, offset, count, debug, writer):
    data = f.content
    for i in range(count):
        start = offset + 16 * i
        missing(data, start + 16)
        if debug:
            writer.WriteText(show.structure(
                show.line("Unknown1", f"0x{u(data, start, 8):08x}"),
                show.line("Block number", f"{u(data, start + 8, 4):d}"),
                show.line("Unknown2", f"0x{u(data, start + 12, 4):08x}")))
        writer.WriteText(f"{u(data, start, 8):d} {u(data, start + 8, 4):d} "
                         f"{u(data, start + 12, 4):d}")


def code_map_page(f, offset, debug, writer):
    h = map_file(debug, writer)._ReadMapPage(f, offset)
    return h.page_size, h.number_of_map_values


def map_values(f, offset, count, debug, writer):
    spec_map_values(f, offset, count, debug, writer)


def spec_map_page(f, offset, debug, writer):
    data = f.content
    missing(data, offset + 20)
    if data[offset:offset + 4] not in (b"1mbd", b"2mbd"):
        raise errors.ParseError("unsupported signature")
    size, count = u(data, offset + 4, 4), u(data, offset + 8, 4)
    if debug:
        writer.WriteText(show.structure(
            show.value("Signature", show.stream(data[offset:offset + 4])),
            show.line("Page size", f"{size:d}"),
            show.line("Number of map values", f"{count:d}"),
            show.line("Unknown1", f"0x{u(data, offset + 12, 4):08x}"),
            show.line("Unknown2", f"0x{u(data, offset + 16, 4):08x}")))
    if size < 20 or 20 + 16 * count > size:
        raise errors.ParseError("map values that do not fit")
    map_values(f, offset + 20, count, debug, writer)
    if debug:
        writer.WriteText(show.block(
            "Page data", show.dump(data[offset + 20:offset + size])))
    return size, count


def code_map_pages(f, offset, size, debug, writer):
    map_file(debug, writer)._ReadMapPages(f, offset, size)


def map_page(f, offset, debug, writer):
    return spec_map_page(f, offset, debug, writer)[0]


def spec_map_pages(f, offset, size, debug, writer):
    end = offset + size
    while offset < end:
        offset += map_page(f, offset, debug, writer)


# The file.

def code_file_header(f, debug, writer):
    h = store_file(debug, writer)._ReadFileHeader(f)
    return (h.map_offset, h.map_size, h.metadata_types_block_number,
            h.metadata_values_block_number, h.unknown_values41_block_number,
            h.metadata_lists_block_number, h.metadata_localized_strings_block_number)


def spec_file_header(f, debug, writer):
    data = f.content
    missing(data, 580)
    if data[:4] != b"8tsd":
        raise errors.ParseError("unsupported signature")
    path = text_of(until(data[324:580], b"\0", 1), "utf8")
    if debug:
        writer.WriteText(show.structure(
            show.value("Signature", show.stream(data[:4])),
            show.line("Flags", f"0x{u(data, 4, 4):08x}"),
            *[show.line(f"Unknown{i + 1:d}", f"0x{u(data, 8 + 4 * i, 4):08x}")
              for i in (0, 1, 2, 3, 4, 5, 6)],
            show.line("Map offset", f"0x{u(data, 36, 4):08x}"),
            show.line("Map size", f"{u(data, 40, 4):d}"),
            show.line("Page size", f"{u(data, 44, 4):d}"),
            show.line("Metadata types block number", f"{u(data, 48, 4):d}"),
            show.line("Metadata values block number", f"{u(data, 52, 4):d}"),
            show.line("Unknown values 0x41 block number", f"{u(data, 56, 4):d}"),
            show.line("Metadata lists block number", f"{u(data, 60, 4):d}"),
            show.line("Metadata localized strings block number", f"{u(data, 64, 4):d}"),
            show.block("Unknown8", show.dump(data[68:324])),
            show.value("Path", path.rstrip("\0"))))
        if u(data, 36, 4) > 580:
            writer.WriteText(show.block(
                "Trailing data", show.dump(data[580:u(data, 36, 4)])))
    return (u(data, 36, 4), u(data, 40, 4), u(data, 48, 4), u(data, 52, 4),
            u(data, 56, 4), u(data, 60, 4), u(data, 64, 4))


# Files of a streams map.

def code_map_header(f, debug, writer):
    o = spotlight_storedb.SpotlightStreamsMapHeaderFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)
    return o.data_size, o.number_of_buckets, o.number_of_offsets


def spec_map_header(f, debug, writer):
    data = f.content
    missing(data, 56)
    if data[:8] != b"\0PataD\0\0":
        raise errors.ParseError("unsupported signature")
    if debug:
        writer.WriteText(show.structure(
            show.value("Signature", show.stream(data[:8])),
            show.line("Unknown1", f"0x{u(data, 8, 4):08x}"),
            show.line("Unknown2", f"0x{u(data, 12, 4):08x}"),
            show.line("Unknown3", f"0x{u(data, 16, 4):08x}"),
            show.line("Data size", f"{u(data, 20, 4):d}"),
            show.line("Number of buckets", f"{u(data, 24, 4):d}"),
            show.line("Number of offsets", f"{u(data, 28, 4):d}"),
            show.line("Copy of data size", f"{u(data, 32, 4):d}"),
            show.line("Copy of number of buckets", f"{u(data, 36, 4):d}"),
            show.line("Copy of number of offsets", f"{u(data, 40, 4):d}"),
            show.line("Unknown10", f"0x{u(data, 44, 4):08x}"),
            show.line("Unknown11", f"0x{u(data, 48, 4):08x}"),
            show.line("Unknown12", f"0x{u(data, 52, 4):08x}")))
        if len(data) > 56:
            writer.WriteText(show.block("Trailing data", show.dump(data[56:])))
    return u(data, 20, 4), u(data, 24, 4), u(data, 28, 4)


def code_map_offsets(f, size, count, debug, writer):
    o = spotlight_storedb.SpotlightStreamsMapOffsetsFile(
        size, count, debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)
    return o.ranges


def spec_map_offsets(f, size, count, debug, writer):
    """A stream ends where the next starts and the last at the end of the data."""
    data = f.content
    missing(data, 4 * count)
    offsets = numbers(data[:4 * count], 4)
    ranges = []
    last = 0
    index = 0
    for index, offset in enumerate(offsets):
        if index == 0:
            last = offset
            continue
        if debug:
            writer.WriteText(show.line(
                f"Range: {index:d}", f"0x{last:08x} - 0x{offset:08x} ({offset - last:d})"))
        ranges.append((last, offset - last))
        last = offset
    if last:
        if debug:
            writer.WriteText(show.line(
                f"Range: {index:d}", f"0x{last:08x} - 0x{size:08x} ({size - last:d})"))
        ranges.append((last, size - last))
    if debug:
        writer.WriteText("\n")
        if 4 * count < len(data):
            writer.WriteText(show.block("Trailing data", show.dump(data[4 * count:])))
    return ranges


def ranges_of(number):
    """The ranges of a streams map."""
    rng = random.Random(number)
    return [(rng.randrange(20), rng.randrange(8)) for _ in range(rng.randrange(5))]


def code_map_data(f, size, number, debug, writer):
    o = spotlight_storedb.SpotlightStreamsMapDataFile(
        size, ranges_of(number), debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)
    return o.stream_values


def spec_map_data(f, size, number, debug, writer):
    data = f.content[:size]
    missing(data, size)
    values = []
    for index, (offset, width) in enumerate(ranges_of(number)):
        value = data[offset:offset + width]
        if debug:
            writer.WriteText(show.block(
                f"Stream value: {index:d} at offset: 0x{offset:08x} of size: {width:d}",
                show.dump(value)))
        values.append(value)
    if debug and size < f.size:
        writer.WriteText(show.block("Trailing data", show.dump(f.content[size:])))
    return values


# Generated inputs.

def gen_lists(rng):
    data = b""
    for _ in range(rng.randrange(4)):
        pad = rng.randrange(4)
        values = b"".join(rng.randrange(9).to_bytes(4, "little")
                          for _ in range(rng.randrange(4)))
        data += rng.randbytes(4) + spot.encode(len(values) + pad) + bytes(pad) + values
    return {"used": 32 + len(data) + rng.choice([0] * 9 + [1, -3, -30]),
            "data": cut(rng, rng.randbytes(12) + data + rng.randbytes(3)),
            "number": rng.randrange(9)}


TEXTS = [b"", b"abc", b"\xff", b"d" * 40]


def gen_types(rng):
    data = b"".join(rng.randbytes(6) + rng.choice(TEXTS) + b"\0"
                    for _ in range(rng.randrange(4)))
    return {"used": 32 + len(data) + rng.choice([0] * 9 + [1, -3]),
            "data": cut(rng, rng.randbytes(12) + data)}


def gen_names(rng):
    data = b"".join(rng.randbytes(4) + rng.choice(TEXTS) + b"\0"
                    for _ in range(rng.randrange(4)))
    return {"used": 32 + len(data) + rng.choice([0] * 9 + [1, -3]),
            "data": cut(rng, rng.randbytes(12) + data)}


def gen_property_page(rng):
    kind, make = rng.choice([(0x11, gen_types), (0x21, gen_names), (0x81, gen_lists),
                             (0x41, gen_names), (0x10, gen_names)])
    values = make(rng)
    data = values["data"]
    return {"f": cut(rng, rng.randbytes(8) + pages.page(
        rng, kind, data, max(values["used"], 0)) + bytes(4) + data), "offset": 8,
            "number": rng.randrange(9)}


def gen_property_pages(rng):
    data = bytearray(rng.choice([1, 2, 3, 4]) * 0x1000 + rng.choice([0, 20, 100]))
    for offset in range(0, len(data) - 100, 0x1000):
        page = b"2pbd" + (60).to_bytes(4, "little") + (37).to_bytes(
            4, "little") + (0x21).to_bytes(4, "little") + bytes(4) + rng.choice(
                [0, 1, 2, 3]).to_bytes(4, "little") + bytes(8) + rng.randbytes(4) + b"\0"
        data[offset:offset + len(page)] = page
    return {"f": bytes(data), "block": rng.randrange(4)}


def map_page_data(rng):
    count = rng.randrange(3)
    size = 20 + 16 * count + rng.choice([0, 0, 5, -1])
    data = rng.choice([b"1mbd", b"2mbd"]) + size.to_bytes(4, "little") + count.to_bytes(
        4, "little") + rng.randbytes(8 + 16 * count)
    return data + bytes(max(size - len(data), 0))


def gen_map_values(rng):
    return {"f": cut(rng, rng.randbytes(40)), "offset": 4, "count": rng.randrange(3)}


def gen_map_page(rng):
    return {"f": cut(rng, b"abcd" + map_page_data(rng)), "offset": 4}


def gen_map_pages(rng):
    data = b"".join(map_page_data(rng) for _ in range(rng.randrange(3)))
    return {"f": cut(rng, b"abcd" + data), "offset": 4, "size": len(data)}


def gen_file_header(rng):
    return {"f": cut(rng, b"8tsd" + rng.randbytes(32) + rng.choice([9, 590]).to_bytes(
        4, "little") + rng.randbytes(284) + rng.choice(
            [b"/path".ljust(256, b"\0"), bytes(256), b"a" * 256, b"\xff" * 256])
            + rng.randbytes(20))}


def gen_map_header(rng):
    return {"f": cut(rng, b"\0PataD\0\0" + rng.randbytes(48) + rng.choice([b"", b"ab"]))}


def gen_map_offsets(rng):
    count = rng.randrange(5)
    return {"f": cut(rng, b"".join(rng.randrange(30).to_bytes(4, "little") for _ in range(
        count)) + rng.choice([b"", b"a"])), "size": rng.randrange(40),
            "count": count}


def gen_map_data(rng):
    return {"f": rng.randbytes(rng.randrange(30)), "size": rng.randrange(30),
            "number": rng.randrange(200)}


# Call-site contracts.

def storing(name, select, after=None):
    """Like show.effect and writes what is stored in a table."""
    def stored(interp, args):
        keys, _, writer = select(args)
        keys = [interp.getattr(k, "content") if isinstance(k, models.SFile)
                else k for k in keys]
        interp.call(interp.getattr(writer, "WriteText"), [
            interp.ctx.app(name + "_stored", tuple(keys), "str")], {})
        return after(interp, tuple(keys)) if after else None
    return show.effect(name, select, stored)


def page_fields(args):
    fields = args[1].fields
    return fields["property_table_type"], fields["used_page_size"], args[2]


def next_block(interp, keys):
    return interp.ctx.app("next_block", keys, "int", lo=0, hi=2 ** 32 - 1)


def map_size(interp, keys):
    return interp.ctx.app("map_page_size", keys, "int", lo=20)


def sequence_of(name, elements):
    def handler(interp, args, kwargs):
        ctx = interp.ctx

        def make():
            sym = core.fresh_name(name)
            size = ctx.fresh_int("size", lo=0).e
            return [core.Splice(sym, core.I(0), size, lambda i: elements(
                ctx, sym, (core.mkint(i),)))]
        return list(ctx.app(name, tuple(args), "list", make=make))
    return handler


STREAMS = {HERE + "streams_of": sequence_of(
    "streams", lambda ctx, sym, key: ctx.app("elem:" + sym, key, "bytes"))}
RANGES = {HERE + "ranges_of": sequence_of("ranges", lambda ctx, sym, key: (
    ctx.app("offset:" + sym, key, "int", lo=0), ctx.app("size:" + sym, key, "int", lo=0)))}
VALUES = {
    **{S + name: storing("page_values", lambda args: (
        page_fields(args), *pages.output(args))) for name in (
            "_ReadIndexPageValues", "_ReadMetadataAttributePageValues")},
    HERE + "page_values": storing("page_values", lambda args: (args[:3], *args[4:]))}
PAGE = {
    S + "_ReadPropertyPage": storing("property_page", lambda args: (
        args[1:3], *pages.output(args)), lambda interp, keys: (
            None, next_block(interp, keys))),
    HERE + "page_of": storing("property_page", show.function_input, next_block)}
MAP_VALUES = {
    S + "_ReadMapPageValues": storing("map_values", lambda args: (
        (args[2], args[3], args[1].fields["number_of_map_values"]), *pages.output(args))),
    HERE + "map_values": storing("map_values", show.function_input)}
MAP_PAGE = {
    S + "_ReadMapPage": storing("map_page", lambda args: (
        args[1:], *pages.output(args)), lambda interp, keys: core.SObj(
            object, {"page_size": map_size(interp, keys)})),
    HERE + "map_page": storing("map_page", show.function_input, map_size)}
SHOWN = {"debug": Bool(), "writer": Writer()}
NAMES = {**show.STUBS, **spot.INTEGER, **spot.TABLES}

CONTRACTS = [
    Contract("P22", "spotlight.lists", code_lists, spec_lists,
             {"used": Int(0, 2 ** 32 - 1), "data": Bytes(), "number": Int(0), **SHOWN},
             gen=gen_lists, targets=[S + "_ReadIndexPageValues"], stubs=NAMES),
    Contract("P22", "spotlight.types", code_types, spec_types,
             {"used": Int(0, 2 ** 32 - 1), "data": Bytes(), **SHOWN}, gen=gen_types,
             targets=[S + "_ReadMetadataAttributePageValues"], stubs=show.STUBS),
    Contract("P22", "spotlight.names", code_names, spec_names,
             {"used": Int(0, 2 ** 32 - 1), "data": Bytes(), **SHOWN}, gen=gen_names,
             targets=[S + "_ReadMetadataAttributePageValues"], stubs=show.STUBS),
    Contract("P22", "spotlight.stream_lists", code_stream_lists, spec_stream_lists,
             {"number": Int(0), "index": Int(3, 5), **SHOWN},
             targets=[S + "_ReadIndexStreamsMap"], stubs={**NAMES, **STREAMS}),
    Contract("P22", "spotlight.stream_types", code_stream_types, spec_stream_types,
             {"number": Int(0), **SHOWN}, stubs={**NAMES, **STREAMS},
             targets=[S + "_ReadMetadataAttributeStreamsMap"]),
    Contract("P22", "spotlight.stream_names", code_stream_names, spec_stream_names,
             {"number": Int(0), **SHOWN}, stubs={**NAMES, **STREAMS},
             targets=[S + "_ReadMetadataAttributeStreamsMap"]),
    Contract("P22", "spotlight.property_page", code_property_page, spec_property_page,
             {"f": File(), "offset": Int(0), "number": Int(0), **SHOWN},
             gen=gen_property_page, targets=[S + "_ReadPropertyPage"],
             stubs={**show.STUBS, **VALUES}),
    Contract("P22", "spotlight.property_pages", code_property_pages, spec_property_pages,
             {"f": File(), "block": Int(0, 2 ** 32 - 1), **SHOWN},
             gen=gen_property_pages, targets=[S + "_ReadPropertyPages"],
             stubs={**show.STUBS, **PAGE}),
    Contract("P22", "spotlight.map_values", code_map_values, spec_map_values,
             {"f": File(), "offset": Int(0), "count": Int(0, 2 ** 32 - 1), **SHOWN},
             gen=gen_map_values, targets=[S + "_ReadMapPageValues"], stubs=show.STUBS),
    Contract("P22", "spotlight.map_page", code_map_page, spec_map_page,
             {"f": File(), "offset": Int(0), **SHOWN}, gen=gen_map_page,
             targets=[S + "_ReadMapPage"], stubs={**show.STUBS, **MAP_VALUES}),
    Contract("P22", "spotlight.map_pages", code_map_pages, spec_map_pages,
             {"f": File(), "offset": Int(0), "size": Int(0), **SHOWN}, gen=gen_map_pages,
             targets=[S + "_ReadMapPages"], stubs={**show.STUBS, **MAP_PAGE}),
    Contract("P22", "spotlight.file_header", code_file_header, spec_file_header,
             {"f": File(), **SHOWN}, gen=gen_file_header,
             targets=[S + "_ReadFileHeader"], stubs=show.STUBS),
    Contract("P22", "spotlight.map_header", code_map_header, spec_map_header,
             {"f": File(), **SHOWN}, gen=gen_map_header, stubs=show.STUBS, targets=[
                 "dtformats.spotlight_storedb.SpotlightStreamsMapHeaderFile.ReadFileObject"]),
    Contract("P22", "spotlight.map_offsets", code_map_offsets, spec_map_offsets,
             {"f": File(), "size": Int(0, 2 ** 32 - 1), "count": Int(0, 2 ** 32 - 1),
              **SHOWN}, gen=gen_map_offsets, stubs=show.STUBS, targets=[
                  "dtformats.spotlight_storedb.SpotlightStreamsMapOffsetsFile"
                  ".ReadFileObject"]),
    Contract("P22", "spotlight.map_data", code_map_data, spec_map_data,
             {"f": File(), "size": Int(0, 2 ** 32 - 1), "number": Int(0), **SHOWN},
             gen=gen_map_data, stubs={**show.STUBS, **RANGES}, targets=[
                 spot.M + "ReadFileObject"]),
]

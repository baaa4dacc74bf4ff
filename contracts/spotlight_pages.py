"""Contracts of records and pages of Apple Spotlight store database files."""

import zlib

import lz4.block

from dfdatetime import posix_time
from dtformats import errors

from contracts import show
from contracts import spotlight as spot
from contracts.windows_records import cut, missing
from engine import core
from engine import models
from engine.speclib import Rec, u, until
from engine.verify import Bool, Bytes, Choice, Contract, File, Int, Writer

S = spot.S
HERE = "contracts.spotlight_pages."
store_file = spot.store_file
decimal = spot.decimal


# Records.

def code_header(data, debug, writer):
    h, size = store_file(debug, writer)._ReadRecordHeader(data, 0)
    return (h.data_size, h.identifier, h.flags, h.item_identifier, h.parent_identifier,
            h.last_update_time, size)


def spec_header(data, debug, writer):
    missing(data, 4)
    identifier, size = spot.spec_integer(data[4:])
    offset = 4 + size
    missing(data, offset + 1)
    item, parent, updated, size = spot.spec_integers(data[offset + 1:])
    decimal("Record data size", u(data, 0, 4), debug, writer)
    return (u(data, 0, 4), identifier, data[offset], item, parent, updated,
            offset + 1 + size)


def code_time(value, debug, writer):
    store_file(debug, writer)._DebugPrintPosixTimeValue("Last update time", value)


def time_text(value):
    """A number of microseconds since January 1, 1970."""
    if value == 0:
        return "Not set (0)"
    text = posix_time.PosixTimeInMicroseconds(timestamp=value).CopyToDateTimeString()
    return f"{text} UTC" if text else f"0x{value:08x}"


def spec_time(value, debug, writer):
    writer.WriteText(show.line("Last update time", time_text(value)))


def header_of(data, debug, writer):
    h, size = store_file(debug, writer)._ReadRecordHeader(data, 0)
    return h, size


def attribute_of(key, kind, code, data, debug, writer, number=0):
    o = store_file(debug, writer)
    o._metadata_values = spot.Table(number, "names")
    o._metadata_lists = spot.Table(number, "lists")
    o._metadata_localized_strings = spot.Table(number + 1, "lists")
    return o._ReadMetadataAttribute(
        Rec(key_name=key, property_type=kind, value_type=code), data)


def code_record(data, offset, number, debug, writer):
    o = store_file(debug, writer)
    o._metadata_types = spot.Table(number, "types")
    o._metadata_values = spot.Table(0, "names")
    o._metadata_lists = spot.Table(0, "lists")
    o._metadata_localized_strings = spot.Table(1, "lists")
    item = o._ReadRecord(data, offset)
    return (item.identifier, item.item_identifier, item.last_update_time,
            item.parent_identifier, item.attributes)


def spec_record(data, offset, number, debug, writer):
    """An attribute has the distance of its type to that of the attribute before it."""
    if debug:
        writer.WriteText(show.line("Record data offset", f"0x{offset:08x}"))
    start = offset - 20
    header, size = header_of(data[start:], debug, writer)
    end = start + 4 + header.data_size
    position = start + size
    attributes = {}
    count = 0
    index = 0
    while position < end:
        distance, size = spot.spec_integer(data[position:end])
        index += distance
        if debug:
            writer.WriteText(show.block(
                "Relative metadata attribute type index data",
                show.dump(data[position:position + size])))
            writer.WriteText(show.line(
                f"Relative metadata attribute: {count:d} type index", f"{distance:d}"))
            writer.WriteText(show.line(
                f"Metadata attribute: {count:d} type index", f"{index:d}"))
        position += size
        found = spot.type_of(number, index)
        if found is None:
            raise errors.ParseError("unknown type of attribute")
        key, kind, code = found
        attribute, size = attribute_of(key, kind, code, data[position:end], debug, writer)
        attributes[attribute.key] = attribute
        position += size
        count += 1
    return (header.identifier, header.item_identifier, header.last_update_time,
            header.parent_identifier, attributes)


class Descriptors:
    """Writes the records that are stored."""

    def __init__(self, writer):
        self.writer = writer

    def __setitem__(self, key, d):
        self.writer.WriteText(
            f"{key:d} {d.page_offset:d} {d.page_value_offset:d} {d.identifier:d} "
            f"{d.item_identifier:d} {d.last_update_time:d} {d.parent_identifier:d}")


def code_values(data, offset, debug, writer):
    o = store_file(debug, writer)
    o._record_descriptors = Descriptors(writer)
    o._ReadRecordPageValues(data, offset)


def spec_values(data, offset, debug, writer):
    """The records of a page follow each other."""
    start = 0
    while start < len(data):
        if debug:
            writer.WriteText(show.line("Record data offset", f"0x{start + 20:08x}"))
        h, _ = header_of(data[start:], debug, writer)
        size = h.data_size
        if debug:
            writer.WriteText(show.block(
                "Record data", show.dump(data[start + 4:start + 4 + size])))
            writer.WriteText(show.line(
                "Identifier" if h.identifier <= 1 else "File system identifier",
                f"{h.identifier:d}"))
            writer.WriteText(show.line("Flags", f"0x{h.flags:02x}"))
            writer.WriteText(show.line("Item identifier", f"0x{h.item_identifier:02x}"))
            writer.WriteText(show.line(
                "Parent identifier" if h.parent_identifier <= 1
                else "Parent file system identifier", f"{h.parent_identifier:d}"))
            writer.WriteText(show.line("Last update time", time_text(h.last_update_time)))
            writer.WriteText("\n")
        writer.WriteText(
            f"{h.identifier:d} {offset:d} {start + 20:d} {h.identifier:d} "
            f"{h.item_identifier:d} {h.last_update_time:d} {h.parent_identifier:d}")
        start += 4 + size


# Compressed data.

def code_block(data, previous, debug, writer):
    return store_file(debug, writer)._DecompressLZ4Block(0, data, previous)


def code_first_block(data, debug, writer):
    return store_file(debug, writer)._DecompressLZ4Block(0, data, None)


def lz4_data(data, size, previous):
    """Decompressed data or None if it is not valid."""
    try:
        return lz4.block.decompress(data, uncompressed_size=size, dict=previous)
    except (MemoryError, OverflowError, lz4.block.LZ4BlockError):
        return None


def spec_block(data, previous, debug, writer):
    missing(data, 12)
    size = u(data, 4, 4)
    stored_size = u(data, 8, 4)
    if debug:
        writer.WriteText(show.structure(
            show.value("Signature", show.stream(data[:4])),
            show.line("Uncompressed data size", f"{size:d}"),
            show.line("compressed data size", f"{stored_size:d}")))
    if data[:4] == b"bv4-":
        return data[8:8 + size], 8 + size
    if data[:4] != b"bv41":
        raise errors.ParseError("unsupported block")
    values = lz4_data(data[12:12 + stored_size], size, previous)
    if values is None:
        raise errors.ParseError("invalid data")
    return values, 12 + stored_size


def spec_first_block(data, debug, writer):
    return spec_block(data, None, debug, writer)


def code_blocks(data, debug, writer):
    return store_file(debug, writer)._DecompressLZ4PageData(data, 0)


def block_of(data, previous, debug, writer):
    return store_file(debug, writer)._DecompressLZ4Block(0, data, previous)


def spec_blocks(data, debug, writer):
    """Blocks up to a mark of the end, decompressed with the block before them."""
    offset = 0
    previous = None
    blocks = []
    while offset < len(data):
        marker = data[offset:offset + 4]
        if debug:
            writer.WriteText(show.block("LZ4 block marker", show.dump(marker)))
        if marker == b"bv4$":
            break
        previous, size = block_of(data[offset:], previous, debug, writer)
        offset += size
        blocks.append(previous)
    if marker != b"bv4$":
        raise errors.ParseError("missing end of blocks")
    return b"".join(blocks)


# Pages.

def code_page_header(f, offset, debug, writer):
    h, size = store_file(debug, writer)._ReadPropertyPageHeader(f, offset)
    return (h.page_size, h.used_page_size, h.property_table_type,
            h.uncompressed_page_size, size, f.tell())


def spec_page_header(f, offset, debug, writer):
    data = f.content
    page_header(data, offset, debug, writer)
    return (u(data, offset + 4, 4), u(data, offset + 8, 4), u(data, offset + 12, 4),
            u(data, offset + 16, 4), 20, offset + 20)


def page_header(data, offset, debug, writer):
    missing(data, offset + 20)
    if data[offset:offset + 4] != b"2pbd":
        raise errors.ParseError("unsupported signature")
    size = u(data, offset + 4, 4)
    if size <= 20:
        raise errors.ParseError("unsupported page size")
    if debug:
        writer.WriteText(show.line("Block number", f"{offset // 0x1000:d}"))
        writer.WriteText(show.line("Page number", f"{offset // size:d}"))
        writer.WriteText("\n")
        writer.WriteText(show.structure(
            show.value("Signature", show.stream(data[offset:offset + 4])),
            show.line("Page size", f"{size:d}"),
            show.line("Used page size", f"{u(data, offset + 8, 4):d}"),
            show.line("Property table type", f"0x{u(data, offset + 12, 4):08x}"),
            show.line("Uncompressed page size", f"{u(data, offset + 16, 4):d}")))


def code_record_page(f, offset, debug, writer):
    header, data = store_file(debug, writer)._ReadRecordPage(f, offset)
    return header.property_table_type, data


def page_blocks(data, debug, writer):
    return store_file(debug, writer)._DecompressLZ4PageData(data, 0)


def zlib_data(data):
    try:
        return zlib.decompress(data)
    except zlib.error:
        return None


def spec_record_page(f, offset, debug, writer):
    """The data of a page is stored as such, with LZ4 or with deflate compression."""
    content = f.content
    page_header(content, offset, debug, writer)
    kind = u(content, offset + 12, 4)
    if kind not in (9, 0x1009, 0x4009, 0x5009):
        raise errors.ParseError("unsupported type of page")
    data = content[offset + 20:offset + u(content, offset + 4, 4)]
    if len(data) == 0:
        raise errors.ParseError("missing page data")
    if u(content, offset + 16, 4) == 0:
        return kind, data
    if kind in (0x1009, 0x5009) and data[:4] in (b"bv41", b"bv4-"):
        return kind, page_blocks(data, debug, writer)
    values = None
    if data[0] == 0x78:
        values = zlib_data(data)
    elif debug:
        writer.WriteText(show.block("Data", show.dump(data)))
    if values is None:
        raise errors.ParseError("unsupported compressed data")
    return kind, values


# Generated inputs.

def record(rng, attributes=True):
    data = b"".join(spot.number(rng) for _ in range(1)) + rng.randbytes(1) + b"".join(
        spot.number(rng) for _ in range(3))
    if attributes:
        for _ in range(rng.randrange(5)):
            data += spot.encode(rng.randrange(12)) + rng.choice([
                spot.number(rng), spot.encode(3) + b"ab\0", b"\2\1\2"])
    size = len(data) + rng.choice([0] * 12 + [-1, 1])
    return size.to_bytes(4, "little") + data


def gen_header(rng):
    return {"data": cut(rng, record(rng))}


def gen_record(rng):
    return {"data": cut(rng, bytes(5) + record(rng) + rng.randbytes(5)), "offset": 25,
            "number": rng.randrange(40)}


def gen_values(rng):
    return {"data": cut(rng, b"".join(record(rng) for _ in range(rng.randrange(4)))),
            "offset": 0x1000}


def lz4_block(rng, previous, values=None):
    if values is None:
        values = rng.choice([b"", b"abc", b"abc" * 9, rng.randbytes(30), previous * 2])
    if rng.random() < 0.3:
        return b"bv4-" + len(values).to_bytes(4, "little") + values, values
    data = lz4.block.compress(values, store_size=False, dict=previous)
    size = len(values) + rng.choice([0] * 9 + [1, -1, 2 ** 30])
    return b"bv41" + (max(size, 0) % 2 ** 32).to_bytes(4, "little") + len(
        data).to_bytes(4, "little") + data, values


def gen_block(rng):
    previous = rng.choice([b"", b"abcabcabcabc", rng.randbytes(20)])
    data = lz4_block(rng, previous)[0] + b"bv4$" * rng.randrange(2)
    if rng.random() < 0.1:
        data = b"bv42" + data[4:]
    return {"data": cut(rng, data), "previous": previous}


def gen_first_block(rng):
    return {"data": cut(rng, lz4_block(rng, b"")[0])}


def blocks_data(rng):
    previous, data = b"", b""
    for _ in range(rng.randrange(1, 4)):
        block, previous = lz4_block(rng, previous)
        data += block
    return data + rng.choice([b"bv4$"] * 5 + [b"", b"bv4$abc"])


def gen_blocks(rng):
    return {"data": cut(rng, blocks_data(rng)) or b"a"}


def page(rng, kind, data, used=None):
    size = len(data) + 20
    return b"2pbd" + rng.choice([size] * 12 + [size - 1, 20]).to_bytes(4, "little") + (
        size if used is None else used).to_bytes(4, "little") + kind.to_bytes(4, "little")


def gen_page_header(rng):
    return {"f": cut(rng, rng.randbytes(8) + page(rng, 9, b"a" * 9) + rng.randbytes(5)),
            "offset": 8}


def gen_record_page(rng):
    data, size = record(rng), rng.choice([0, 9])
    if size:
        data = rng.choice([zlib.compress(data), blocks_data(rng), data, b"x" + data])
    return {"f": cut(rng, rng.randbytes(8) + page(rng, rng.choice(
        [9, 0x1009, 0x4009, 0x5009, 8, 0x1009]), data) + size.to_bytes(
            4, "little") + data), "offset": 8}


# Call-site contracts.

HEADER_VALUES = ("data_size", "identifier", "flags", "item_identifier",
                 "parent_identifier", "last_update_time")


def header_values(interp, data):
    ctx = interp.ctx
    values = {name: ctx.app("header_" + name, (data,), "int", lo=0)
              for name in HEADER_VALUES}
    size = ctx.app("header_size", (data,), "int", lo=9)
    ctx.assume(models.zi(size) <= models.zi(interp.seq_len(data)))
    return core.SObj(object, values), size


def attribute_values(interp, key, kind, code, data):
    ctx = interp.ctx
    keys = (key, kind, code, data)
    size = ctx.app("attribute_size", keys, "int", lo=0)
    return core.SObj(object, {
        "key": key, "property_type": kind, "value_type": code,
        "value": ctx.app("attribute_value", keys, "obj")}), size


def type_fields(args):
    t = args[1].fields
    return t["key_name"], t["property_type"], t["value_type"], args[2]


def output(args):
    return args[0].fields["_debug"], args[0].fields["_output_writer"]


def block_values(interp, args):
    ctx = interp.ctx
    return (ctx.app("block_values", tuple(args), "bytes"),
            ctx.app("block_size", tuple(args), "int", lo=8))


def library(name, keys, error):
    def handler(interp, args, kwargs):
        values = tuple(args) + tuple(kwargs[k] for k in keys)
        if not interp.ctx.decide(interp.ctx.app(name + "_ok", values, "bool")):
            interp.throw(error)
        return interp.ctx.app(name, values, "bytes")
    return handler


def blocks_values(interp, args):
    return interp.ctx.app("blocks_values", tuple(args), "bytes")


HEADER = {
    S + "_ReadRecordHeader": show.effect("header", lambda args: (
        args[1:2], *output(args)), lambda interp, args: header_values(interp, args[1])),
    HERE + "header_of": show.effect("header", lambda args: (args[:1], *args[1:]),
                                    lambda interp, args: header_values(interp, args[0]))}
ATTRIBUTE = {
    S + "_ReadMetadataAttribute": show.effect("attribute", lambda args: (
        type_fields(args), *output(args)), lambda interp, args: attribute_values(
            interp, *type_fields(args))),
    HERE + "attribute_of": show.effect("attribute", lambda args: (
        args[:4], *args[4:6]), lambda interp, args: attribute_values(interp, *args[:4]))}
TIME = {S + "_DebugPrintPosixTimeValue": show.printed("spotlight_time"),
        HERE + "time_text": show.pure_time("spotlight_time")}
LZ4 = {"lz4.block._block.decompress": library(
    "lz4", ("uncompressed_size", "dict"), lz4.block.LZ4BlockError)}
BLOCK = {
    S + "_DecompressLZ4Block": show.effect("lz4_block", lambda args: (
        args[2:], *output(args)), lambda interp, args: block_values(interp, args[2:])),
    HERE + "block_of": show.effect("lz4_block", show.function_input, lambda interp, args:
                                   block_values(interp, args[:2]))}
BLOCKS = {
    S + "_DecompressLZ4PageData": show.effect("lz4_page", lambda args: (
        args[1:2], *output(args)), lambda interp, args: blocks_values(interp, args[1:2])),
    HERE + "page_blocks": show.effect("lz4_page", show.function_input, lambda interp, args:
                                      blocks_values(interp, args[:1])),
    "zlib.decompress": library("zlib", (), zlib.error)}
SHOWN = {"debug": Bool(), "writer": Writer()}

CONTRACTS = [
    Contract("P22", "spotlight.header", code_header, spec_header,
             {"data": Bytes(), **SHOWN}, gen=gen_header,
             stubs={**show.STUBS, **spot.INTEGER}, targets=[S + "_ReadRecordHeader"]),
    Contract("P22", "spotlight.time", code_time, spec_time, {"value": Int(0), **SHOWN},
             targets=[S + "_DebugPrintPosixTimeValue"]),
    Contract("P22", "spotlight.record", code_record, spec_record,
             {"data": Bytes(), "offset": Int(20), "number": Int(0), **SHOWN},
             gen=gen_record, targets=[S + "_ReadRecord"],
             stubs={**show.STUBS, **spot.INTEGER, **spot.TABLES, **HEADER, **ATTRIBUTE}),
    Contract("P22", "spotlight.record_values", code_values, spec_values,
             {"data": Bytes(), "offset": Int(0), **SHOWN}, gen=gen_values,
             targets=[S + "_ReadRecordPageValues"],
             stubs={**show.STUBS, **HEADER, **TIME}),
    Contract("P22", "spotlight.lz4_block", code_block, spec_block,
             {"data": Bytes(), "previous": Bytes(), **SHOWN}, gen=gen_block,
             targets=[S + "_DecompressLZ4Block"], stubs={**show.STUBS, **LZ4}),
    Contract("P22", "spotlight.lz4_first_block", code_first_block, spec_first_block,
             {"data": Bytes(), **SHOWN}, gen=gen_first_block,
             targets=[S + "_DecompressLZ4Block"], stubs={**show.STUBS, **LZ4}),
    Contract("P22", "spotlight.lz4_page", code_blocks, spec_blocks,
             {"data": Bytes(min=1), **SHOWN}, gen=gen_blocks,
             targets=[S + "_DecompressLZ4PageData"], stubs={**show.STUBS, **BLOCK}),
    Contract("P22", "spotlight.page_header", code_page_header, spec_page_header,
             {"f": File(), "offset": Int(0), **SHOWN}, gen=gen_page_header,
             targets=[S + "_ReadPropertyPageHeader"], stubs=show.STUBS),
    Contract("P22", "spotlight.record_page", code_record_page, spec_record_page,
             {"f": File(), "offset": Int(0), **SHOWN}, gen=gen_record_page,
             targets=[S + "_ReadRecordPage"], stubs={**show.STUBS, **BLOCKS}),
]

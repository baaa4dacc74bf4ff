"""Contracts of an Apple Spotlight store database as a whole."""

from contracts import show
from contracts import spotlight as spot
from contracts import spotlight_pages as pages
from contracts import spotlight_tables as tables
from contracts.windows_records import cut
from engine import core
from engine.speclib import Rec
from engine.verify import Bool, Contract, File, Int, Writer

S = spot.S
HERE = "contracts.spotlight_store."


# Metadata items.

def descriptor_of(number, identifier):
    k = (number + identifier) % 5
    return None if k == 0 else (k // 2 * 8, 20 + k % 2)


def cached_page(number, offset):
    return None if (number // 5 + offset) % 3 else bytes(number % 4) + b"\5\0\0\0" * 3


class Known:
    """Records that are determined by a number."""

    def __init__(self, number):
        self.number = number

    def get(self, identifier):
        found = descriptor_of(self.number, identifier)
        if found is None:
            return None
        return Rec(page_offset=found[0], page_value_offset=found[1])


class Cache:
    """Pages that are determined by a number. Writes those that are stored."""

    def __init__(self, number, writer):
        self.number = number
        self.writer = writer

    def get(self, offset, default):
        data = cached_page(self.number, offset)
        return default if data is None else data

    def __setitem__(self, offset, data):
        self.writer.WriteText(f"{offset:d} " + show.dump(data))


def item_file(number, debug, writer):
    o = spot.store_file(debug, writer)
    o._metadata_types = spot.Table(number, "types")
    o._metadata_values = spot.Table(number, "names")
    o._metadata_lists = spot.Table(number, "lists")
    o._metadata_localized_strings = spot.Table(number + 1, "lists")
    return o


def code_item(f, identifier, number, debug, writer):
    o = item_file(number, debug, writer)
    o._file_object = f
    o._record_descriptors = Known(number)
    o._record_pages_cache = Cache(number, writer)
    return o.GetMetadataItemByIdentifier(identifier)


def page_data(f, offset, debug, writer):
    return spot.store_file(debug, writer)._ReadRecordPage(f, offset)[1]


def record_of(data, offset, number, debug, writer):
    return item_file(number, debug, writer)._ReadRecord(data, offset)


def spec_item(f, identifier, number, debug, writer):
    found = descriptor_of(number, identifier)
    if found is None:
        return None
    if debug:
        writer.WriteText(f"Retrieving record: {identifier:d} in page: "
                         f"0x{found[0]:08x} at offset: 0x{found[1]:04x}\n")
        writer.WriteText("\n")
    data = cached_page(number, found[0])
    if not data:
        data = page_data(f, found[0], debug, writer)
        writer.WriteText(f"{found[0]:d} " + show.dump(data))
    return record_of(data, found[1], number, debug, writer)


# The file.

class Stored:
    """A table that writes what is stored."""

    def __init__(self, name, writer):
        self.name = name
        self.writer = writer
        self.values = {}

    def __setitem__(self, key, value):
        self.writer.WriteText(f"{self.name:s} {key:d}")
        self.values[key] = value

    def get(self, key, default=None):
        return self.values.get(key, default)

    def keys(self):
        return [2, 1] + list(self.values)


def whole_file(f, number, debug, writer):
    o = tables.stream_file(number, debug, writer)
    o._file_size = f.size
    o._metadata_types = Stored("types", writer)
    o._metadata_values = Stored("names", writer)
    o._metadata_lists = Stored("lists", writer)
    o._metadata_localized_strings = Stored("localized", writer)
    o._record_descriptors = Stored("records", writer)
    o._record_pages_cache = Stored("pages", writer)
    return o


def code_file(f, number, debug, writer):
    whole_file(f, number, debug, writer).ReadFileObject(f)


def spec_file(f, number, debug, writer):
    """Tables are in pages of the file or, without a page, in the streams map of a kind."""
    o = whole_file(f, number, debug, writer)
    h = o._ReadFileHeader(f)
    o._ReadMapPages(f, h.map_offset, h.map_size)
    if h.metadata_types_block_number:
        o._ReadPropertyPages(f, h.metadata_types_block_number, o._metadata_types)
    else:
        o._ReadMetadataAttributeStreamsMap(1, o._metadata_types)
    if h.metadata_values_block_number:
        o._ReadPropertyPages(f, h.metadata_values_block_number, o._metadata_values)
    else:
        o._ReadMetadataAttributeStreamsMap(2, o._metadata_values)
    for block, index, table in (
            (h.unknown_values41_block_number, 3, {}),
            (h.metadata_lists_block_number, 4, o._metadata_lists),
            (h.metadata_localized_strings_block_number, 5,
             o._metadata_localized_strings)):
        if block:
            o._ReadPropertyPages(f, block, table)
        else:
            o._ReadIndexStreamsMap(index, table)
    for value in o._map_values:
        offset = value.block_number * 0x1000
        _, data = o._ReadRecordPage(f, offset)
        o._record_pages_cache[offset] = data
        o._ReadRecordPageValues(data, offset)
    if debug:
        for identifier in sorted(o._record_descriptors.keys()):
            o._GetMetadataItemByIdentifier(f, identifier)


# Generated inputs.

def gen_item(rng):
    record = bytes(rng.randrange(2)) + pages.record(rng)
    data = b"".join(pages.page(rng, 9, record) + bytes(4) + record for _ in range(1))
    return {"f": cut(rng, data + data), "identifier": rng.randrange(9),
            "number": rng.randrange(40)}


def some_page(rng, kind, values):
    data = rng.choice([0, 0, 0, 5]).to_bytes(4, "little") + values["data"][4:]
    return pages.page(rng, kind, data, max(values["used"], 0)) + bytes(4) + data


def gen_file(rng):
    """A file with its tables in pages or in streams maps."""
    count = rng.randrange(3)
    blocks = [b"".join([
        b"8tsd", bytes(32), (0x1000).to_bytes(4, "little"),
        (20 + 16 * count).to_bytes(4, "little"), bytes(4), *[
            rng.choice([0, i]).to_bytes(4, "little") for i in (2, 3, 4, 5, 6)],
        bytes(512)])]
    blocks.append(b"2mbd" + (20 + 16 * count).to_bytes(4, "little") + count.to_bytes(
        4, "little") + bytes(8) + b"".join(
            bytes(8) + rng.choice([7, 8]).to_bytes(4, "little") + bytes(4)
            for _ in range(count)))
    blocks.append(some_page(rng, 0x11, tables.gen_types(rng)))
    blocks.append(some_page(rng, 0x21, tables.gen_names(rng)))
    for _ in range(3):
        blocks.append(some_page(rng, 0x81, tables.gen_lists(rng)))
    for _ in range(2):
        data = b"".join(pages.record(rng, rng.random() < 0.3)
                        for _ in range(rng.randrange(1, 3)))
        blocks.append(pages.page(rng, 9, data) + bytes(4) + data)
    return {"f": b"".join(b.ljust(0x1000, b"\0") for b in blocks),
            "number": rng.randrange(100)}


# Call-site contracts.

def fields(interp, keys, kind, names):
    return core.SObj(object, {
        name: interp.ctx.app(f"{kind}_{name}", keys, "int", lo=0, hi=2 ** 32 - 1)
        for name in names})


def known(name, *kinds):
    """A value, or a pair of values, that is determined by a number or unknown."""
    def handler(interp, args, kwargs):
        ctx = interp.ctx
        if not ctx.decide(ctx.app(name + "_known", tuple(args), "bool")):
            return None
        values = tuple(ctx.app(f"{name}_{i:d}", tuple(args), kind, **limits)
                       for i, (kind, limits) in enumerate(kinds))
        return values if len(values) > 1 else values[0]
    return handler


def page_of(interp, keys):
    return interp.ctx.app("record_page", keys, "bytes")


def item_of(interp, keys):
    return interp.ctx.app("metadata_item", keys, "obj")


def named(value):
    return value.fields["name"] if isinstance(value, core.SObj) else "none"


def read_map(interp, args):
    blocks = tables.sequence_of("map_blocks", lambda ctx, sym, key: core.SObj(
        object, {"block_number": ctx.app(
            "elem:" + sym, key, "int", lo=0, hi=2 ** 32 - 1)}))
    args[0].fields["_map_values"] = blocks(
        interp, [interp.getattr(args[1], "content"), *args[2:]], {})


def storing_map(interp, args, kwargs):
    tables.storing("map_pages", lambda a: (a[1:], *pages.output(a)))(interp, args, kwargs)
    read_map(interp, args)


HEADER_FIELDS = (
    "map_offset", "map_size", "metadata_types_block_number",
    "metadata_values_block_number", "unknown_values41_block_number",
    "metadata_lists_block_number", "metadata_localized_strings_block_number")

ITEM = {
    HERE + "descriptor_of": known("descriptor", ("int", {"lo": 0}), ("int", {"lo": 20})),
    HERE + "cached_page": known("cached_page", ("bytes", {})),
    S + "_ReadRecordPage": tables.storing("record_page", lambda args: (
        args[1:], *pages.output(args)), lambda interp, keys: (
            None, page_of(interp, keys))),
    HERE + "page_data": tables.storing("record_page", show.function_input, page_of),
    S + "_ReadRecord": tables.storing("record", lambda args: (
        args[1:], *pages.output(args)), item_of),
    HERE + "record_of": tables.storing("record", lambda args: (
        args[:2], *args[3:]), item_of)}

PARTS = {
    S + "_ReadFileHeader": tables.storing("file_header", lambda args: (
        args[1:], *pages.output(args)), lambda interp, keys: fields(
            interp, keys, "file_header", HEADER_FIELDS)),
    S + "_ReadMapPages": storing_map,
    S + "_ReadPropertyPages": tables.storing("property_pages", lambda args: (
        (args[1], args[2], named(args[3])), *pages.output(args))),
    S + "_ReadMetadataAttributeStreamsMap": tables.storing("attribute_streams", lambda args: (
        (args[1], named(args[2])), *pages.output(args))),
    S + "_ReadIndexStreamsMap": tables.storing("index_streams", lambda args: (
        (args[1], named(args[2])), *pages.output(args))),
    S + "_ReadRecordPage": ITEM[S + "_ReadRecordPage"],
    S + "_ReadRecordPageValues": tables.storing("record_values", lambda args: (
        args[1:], *pages.output(args))),
    S + "_GetMetadataItemByIdentifier": tables.storing("item", lambda args: (
        args[1:], *pages.output(args)))}
SHOWN = {"debug": Bool(), "writer": Writer()}

CONTRACTS = [
    Contract("P22", "spotlight.item", code_item, spec_item,
             {"f": File(), "identifier": Int(0), "number": Int(0), **SHOWN},
             gen=gen_item, stubs={**show.STUBS, **ITEM},
             targets=[S + "_GetMetadataItemByIdentifier",
                      S + "GetMetadataItemByIdentifier"]),
    Contract("P22", "spotlight.file", code_file, spec_file,
             {"f": File(), "number": Int(0), **SHOWN}, gen=gen_file,
             stubs={**show.STUBS, **PARTS}, targets=[S + "ReadFileObject"]),
]

"""Contracts of the files that belong to Apple unified logging trace files."""

from dtformats import errors
from dtformats import unified_logging

from contracts import show
from contracts import spotlight_tables as tables
from contracts.unified_values import terminated
from contracts.windows_records import cut, missing
from engine import core
from engine.speclib import s, u, uuid_of
from engine.verify import Bool, Bytes, Contract, File, Int, Writer

D = "dtformats.unified_logging."
HERE = "contracts.unified_files."
BASE = "dtformats.data_format.BinaryDataFormat."


def reader(cls, f, debug, writer):
    o = cls(debug=debug, output_writer=writer)
    o._file_size = f.size
    return o


def time_text(value):
    return unified_logging.TimesyncDatabaseFile(
        )._FormatIntegerAsPosixTimeInNanoseconds(value)


def code_time(f, offset, debug, writer):
    o = reader(unified_logging.TimesyncDatabaseFile, f, debug, writer)
    record, size = o._ReadRecord(f, offset)
    values = (record.signature, record.record_size, record.timestamp,
              record.time_zone_offset, record.daylight_saving_flag)
    if record.signature == b"Ts":
        return values, size, record.kernel_time
    return (values, size, record.boot_identifier, record.timebase_numerator,
            record.timebase_denominator)


def spec_time(f, offset, debug, writer):
    """Gives a boot or a sync record of a timesync database."""
    data = f.content[offset:]
    missing(data, 2)
    signature = data[:2]
    if signature == b"\xb0\xbb":
        missing(data, 48)
        boot = uuid_of(data[8:24], "big")
        numerator = u(data, 24, 4)
        denominator = u(data, 28, 4)
        if debug:
            writer.WriteText(show.structure(
                show.value("Signature", show.stream(signature)),
                show.line("Record size", f"{u(data, 2, 2):d}"),
                show.line("Unknown1", f"0x{u(data, 4, 4):08x}"),
                show.line("Boot identifier", f"{boot!s}"),
                show.line("Timebase numerator", f"{numerator:d}"),
                show.line("Timebase denominator", f"{denominator:d}"),
                show.line("Timestamp", time_text(s(data, 32, 8))),
                show.line("Time zone offset", f"{s(data, 40, 4):d}"),
                show.line("Daylight saving flag", f"{u(data, 44, 4):d}")))
        return ((signature, u(data, 2, 2), s(data, 32, 8), s(data, 40, 4),
                 u(data, 44, 4)), 48, boot, numerator, denominator)
    if signature == b"Ts":
        missing(data, 32)
        if debug:
            writer.WriteText(show.structure(
                show.value("Signature", show.stream(signature)),
                show.line("Record size", f"{u(data, 2, 2):d}"),
                show.line("Unknown1", f"0x{u(data, 4, 4):08x}"),
                show.line("Kernel time", f"{u(data, 8, 8):d}"),
                show.line("Timestamp", time_text(s(data, 16, 8))),
                show.line("Time zone offset", f"{s(data, 24, 4):d}"),
                show.line("Daylight saving flag", f"{u(data, 28, 4):d}")))
        return ((signature, u(data, 2, 2), s(data, 16, 8), s(data, 24, 4),
                 u(data, 28, 4)), 32, u(data, 8, 8))
    raise errors.ParseError("unsupported signature")


def code_ranges(f, offset, version, count, debug, writer):
    o = reader(unified_logging.DSCFile, f, debug, writer)
    return range_values(o._ReadRangeDescriptors(f, offset, version, count))


def range_values(items):
    return [(item.range_offset, item.data_offset, item.range_size, item.uuid_index)
            for item in items]


def each_range(f, offset, version, count, debug, writer):
    """Gives the ranges of a shared-cache strings file."""
    if version != 1 and version != 2:
        raise errors.ParseError("unsupported version")
    for _ in range(count):
        data = f.content[offset:]
        if version == 1:
            missing(data, 16)
            index = u(data, 0, 4)
            range_offset = u(data, 4, 4)
            data_offset = u(data, 8, 4)
            size = u(data, 12, 4)
            offset += 16
        else:
            missing(data, 24)
            range_offset = u(data, 0, 8)
            data_offset = u(data, 8, 4)
            size = u(data, 12, 4)
            index = u(data, 16, 8)
            offset += 24
        if debug:
            writer.WriteText(show.structure(
                show.line("Data offset", f"0x{data_offset:08x}"),
                show.line("Range offset", f"0x{range_offset:08x}"),
                show.line("Range size", f"{size:d}"),
                show.line("UUID descriptor index", f"{index:d}")))
        item = unified_logging.DSCRange()
        item.data_offset = data_offset
        item.range_offset = range_offset
        item.range_size = size
        item.uuid_index = index
        yield item


def spec_ranges(f, offset, version, count, debug, writer):
    return range_values(each_range(f, offset, version, count, debug, writer))


def code_identifiers(f, offset, version, count, debug, writer):
    o = reader(unified_logging.DSCFile, f, debug, writer)
    return image_values(o._ReadUUIDDescriptors(f, offset, version, count))


def image_values(items):
    return [(item.text_offset, item.text_size, item.image_identifier, item.image_path)
            for item in items]


def each_image(f, offset, version, count, debug, writer):
    """Gives the images of a shared-cache strings file."""
    if version != 1 and version != 2:
        raise errors.ParseError("unsupported version")
    for _ in range(count):
        data = f.content[offset:]
        if version == 1:
            missing(data, 28)
            text_offset = u(data, 0, 4)
            rest = data[4:28]
            offset += 28
        else:
            missing(data, 32)
            text_offset = u(data, 0, 8)
            rest = data[8:32]
            offset += 32
        size = u(rest, 0, 4)
        identifier = uuid_of(rest[4:20], "big")
        path_offset = u(rest, 20, 4)
        if debug:
            writer.WriteText(show.structure(
                show.line("Text offset", f"0x{text_offset:08x}"),
                show.line("Text size", f"{size:d}"),
                show.line("Image identifier", f"{identifier!s}"),
                show.line("Path offset", f"0x{path_offset:08x}")))
        path = image_path(f, path_offset, debug, writer)
        item = unified_logging.DSCUUID()
        item.image_identifier = identifier
        item.text_offset = text_offset
        item.text_size = size
        item.image_path = path
        yield item


def spec_identifiers(f, offset, version, count, debug, writer):
    return image_values(each_image(f, offset, version, count, debug, writer))


def code_path(f, offset, debug, writer):
    o = reader(unified_logging.DSCFile, f, debug, writer)
    return o._ReadImagePath(f, offset)


def image_path(f, offset, debug, writer):
    """Gives the path of an image."""
    data = f.content[offset:]
    missing(data, 1)
    path, _ = terminated(data)
    if debug:
        writer.WriteText(show.line("Image path", path))
    return path


def code_string(f, offset, is_shared, debug, writer):
    if is_shared:
        o = reader(unified_logging.DSCFile, f, debug, writer)
    else:
        o = reader(unified_logging.UUIDTextFile, f, debug, writer)
    return o._ReadString(f, offset)


def spec_string(f, offset, is_shared, debug, writer):
    """Gives a format string."""
    data = f.content[offset:]
    missing(data, 1)
    text, _ = terminated(data)
    if debug:
        if is_shared:
            writer.WriteText(show.line("String", text))
        else:
            writer.WriteText(show.line("Format string", text))
    return text


def code_times(f, debug, writer):
    o = reader(unified_logging.TimesyncDatabaseFile, f, debug, writer)
    o._file_object = f
    return [(item.signature, item.record_size) for item in o.ReadRecords()]


class TimeRecord:
    def __init__(self, signature, record_size):
        self.signature = signature
        self.record_size = record_size


def time_record(f, offset, debug, writer):
    values = spec_time(f, offset, debug, writer)
    return TimeRecord(values[0][0], values[0][1]), values[1]


def each_record(f, debug, writer):
    offset = 0
    while offset < f.size:
        item, size = time_record(f, offset, debug, writer)
        if item.record_size < size:
            raise errors.ParseError("unsupported size of record")
        yield item
        offset += item.record_size


def spec_times(f, debug, writer):
    """Gives every record of a timesync database: each follows the one before it."""
    return [(item.signature, item.record_size)
            for item in each_record(f, debug, writer)]


class Descriptor:
    def __init__(self, offset, data_size):
        self.offset = offset
        self.data_size = data_size


def descriptors(table):
    """The entries of a strings file, of which the strings follow each other."""
    items = []
    start = 0
    for index in range(len(table) // 8):
        size = u(table, 8 * index + 4, 4)
        items.append((start, Descriptor(u(table, 8 * index, 4), size)))
        start += size
    return items


def code_lookup(f, table, reference, debug, writer):
    o = reader(unified_logging.UUIDTextFile, f, debug, writer)
    o._entry_descriptors = descriptors(table)
    o._file_object = f
    return o.GetString(reference)


def spec_lookup(f, table, reference, debug, writer):
    """Gives the string of the entry that a reference is in."""
    for start, item in descriptors(table):
        if reference < item.offset:
            continue
        if reference < item.offset + item.data_size:
            return spec_string(f, start + (reference - item.offset), False, debug, writer)
    return None


def shared_ranges(table):
    items = []
    for index in range(len(table) // 24):
        item = unified_logging.DSCRange()
        item.range_offset = u(table, 24 * index, 4)
        item.range_size = u(table, 24 * index + 4, 4)
        item.data_offset = u(table, 24 * index + 8, 4)
        item.text_offset = u(table, 24 * index + 12, 4)
        item.text_size = u(table, 24 * index + 16, 4)
        item.image_identifier = u(table, 24 * index + 20, 2)
        item.image_path = u(table, 24 * index + 22, 2)
        items.append(item)
    return items


def code_shared(f, table, reference, is_dynamic, debug, writer):
    o = reader(unified_logging.DSCFile, f, debug, writer)
    o.ranges = shared_ranges(table)
    o._file_object = f
    values = o.GetImageValues(reference, is_dynamic)
    if values is None:
        return None
    return values.identifier, values.path, values.string, values.text_offset


def spec_shared(f, table, reference, is_dynamic, debug, writer):
    """Gives the image and the string of the range that a reference is in."""
    for item in shared_ranges(table):
        if is_dynamic:
            first = item.text_offset
            size = item.text_size
        else:
            first = item.range_offset
            size = item.range_size
        if reference < first:
            continue
        if reference < first + size:
            text = "%s"
            if not is_dynamic:
                text = spec_string(f, item.data_offset + (reference - first), True,
                                   debug, writer)
            return item.image_identifier, item.image_path, text, item.text_offset
    return None


def code_header(f, debug, writer):
    o = reader(unified_logging.DSCFile, f, debug, writer)
    header = o._ReadFileHeader(f)
    return (header.major_format_version, header.number_of_ranges,
            header.number_of_uuids, f.tell())


def spec_header(f, debug, writer):
    """Gives the version and the numbers of ranges and images of a shared-cache strings
    file."""
    data = f.content
    missing(data, 16)
    if data[:4] != b"hcsd":
        raise errors.ParseError("unsupported signature")
    major = u(data, 4, 2)
    minor = u(data, 6, 2)
    if debug:
        writer.WriteText(show.structure(
            show.value("Signature", show.stream(data[:4])),
            show.line("Major format version", f"{major:d}"),
            show.line("Minor format version", f"{minor:d}"),
            show.line("Number of ranges", f"{u(data, 8, 4):d}"),
            show.line("Number of UUIDs", f"{u(data, 12, 4):d}")))
    if minor != 0 or major not in (1, 2):
        raise errors.ParseError("unsupported version")
    return major, u(data, 8, 4), u(data, 12, 4), 16


def code_footer(f, offset, debug, writer):
    o = reader(unified_logging.UUIDTextFile, f, debug, writer)
    o._file_footer = o._ReadFileFooter(f, offset)
    return o.GetImagePath()


def spec_footer(f, offset, debug, writer):
    """Gives the path of the image that the strings belong to."""
    data = f.content[offset:]
    missing(data, 1)
    path, _ = terminated(data)
    if debug:
        writer.WriteText(show.structure(show.value("Image path", path.rstrip("\0"))))
    return path


def code_strings(f, debug, writer):
    o = reader(unified_logging.UUIDTextFile, f, debug, writer)
    o.ReadFileObject(f)
    return len(o._entry_descriptors), o.GetImagePath()


def spec_strings(f, debug, writer):
    """Gives the number of entries and the path of the image, behind their strings."""
    data = f.content
    missing(data, 16)
    count = u(data, 12, 4)
    if data[:4] != b"\x99\x88\x77\x66":
        raise errors.ParseError("unsupported signature")
    missing(data, 16 + 8 * count)
    major = u(data, 4, 4)
    minor = u(data, 8, 4)
    if debug:
        text = "\n".join([
            f"\t[{i:03d}] offset: 0x{u(data, 16 + 8 * i, 4):08x}, data size: "
            f"{u(data, 20 + 8 * i, 4):d}" for i in range(count)])
        writer.WriteText(show.structure(
            show.value("Signature", show.stream(data[:4])),
            show.line("Major format version", f"{major:d}"),
            show.line("Minor format version", f"{minor:d}"),
            show.line("Number of entries", f"{count:d}"),
            show.placed("Entry descriptors", f"{text}\n", True)))
    if major != 2 or minor != 1:
        raise errors.ParseError("unsupported version")
    start = 16 + 8 * count
    for i in range(count):
        start += u(data, 20 + 8 * i, 4)
    path = spec_footer(f, start, debug, writer)
    return count, path


def gen_strings(rng):
    table = b""
    count = rng.choice([0, 1, 2])
    for _ in range(count):
        table += (rng.randrange(0, 9).to_bytes(4, "little")
                  + rng.randrange(0, 5).to_bytes(4, "little"))
    head = b"\x99\x88\x77\x66" + bytes([rng.choice([2, 2, 1]), 0, 0, 0,
                                        1, 0, 0, 0, count, 0, 0, 0])
    return {"f": cut(rng, head + table + b"ab\0%s\0ab\0/usr/lib\0")}


def gen_times(rng):
    data = b""
    for _ in range(rng.choice([0, 1, 2, 3])):
        if rng.random() < 0.5:
            data += b"\xb0\xbb" + bytes([rng.choice([48, 48, 48, 0, 47])]) + bytes(45)
        else:
            data += b"Ts" + bytes([rng.choice([32, 32, 32, 31])]) + bytes(29)
    return {"f": cut(rng, data)}


def gen_lookup(rng):
    table = b""
    for _ in range(rng.choice([0, 1, 2, 3])):
        for _ in range(rng.choice([2, 6])):
            table += rng.choice([0, 1, 2, 3, 4, 8]).to_bytes(4, "little")
    return {"f": cut(rng, b"abc\0%s\0ab\0"), "table": table,
            "reference": rng.randrange(0, 12)}


def gen_header(rng):
    data = b"hcsd" + bytes([rng.choice([1, 2, 3]), 0, rng.choice([0, 0, 1]), 0]) + (
        rng.randbytes(8))
    return {"f": cut(rng, data)}


def string_spec_input(args):
    return args[:3], args[3], args[4]


def gen_time(rng):
    data = b"\xb0\xbb" + rng.randbytes(46)
    if rng.random() < 0.5:
        data = b"Ts" + rng.randbytes(30)
    if rng.random() < 0.1:
        data = rng.randbytes(32)
    before = rng.choice([0, 3])
    return {"f": cut(rng, bytes(before) + data), "offset": before}


def gen_descriptors(rng):
    count = rng.choice([0, 1, 2])
    version = rng.choice([1, 1, 2, 2, 3])
    data = b""
    for _ in range(count):
        if version == 1:
            data += rng.randbytes(24) + bytes([rng.randrange(0, 80), 0, 0, 0])
        else:
            data += rng.randbytes(28) + bytes([rng.randrange(0, 80), 0, 0, 0])
    return {"f": cut(rng, data + b"/usr/lib\0\xff\0"), "offset": 0, "version": version,
            "count": count}


def gen_string(rng):
    return {"f": cut(rng, b"abc\0" + rng.choice([b"%s\0", b"\xff\0", b"a"])),
            "offset": rng.choice([0, 1, 3, 4])}


SHOWN = {"debug": Bool(), "writer": Writer()}
PLACE = {"f": File(), "offset": Int(0, 2 ** 40)}
TIME = {BASE + "_FormatIntegerAsPosixTimeInNanoseconds": show.pure_time("nanoseconds"),
        HERE + "time_text": show.pure_time("nanoseconds")}


def record_values(interp, f, offset):
    """A record is a function of the input."""
    keys = (interp.getattr(f, "content"), offset)
    record = interp.ctx.app("time_record", keys, "obj")
    record.attrs.update(
        record_size=interp.ctx.app("time_size", keys, "int", lo=0, hi=65535),
        signature=interp.ctx.app("time_signature", keys, "bytes"))
    return record, interp.ctx.app("time_read", keys, "int", lo=32, hi=48)


def text_value(interp, f, offset, is_shared):
    return interp.ctx.app("string", (interp.getattr(f, "content"), offset, is_shared),
                          "str")


RECORD = {
    D + "TimesyncDatabaseFile._ReadRecord": show.effect(
        "time_record", lambda args: (args[1:3], args[0].fields["_debug"],
                                     args[0].fields["_output_writer"]),
        lambda interp, args: record_values(interp, args[1], args[2])),
    HERE + "time_record": show.effect(
        "time_record", lambda args: (args[:2], *args[2:]),
        lambda interp, args: record_values(interp, args[0], args[1]))}


def string_effect(is_shared):
    return show.effect(
        "string", lambda args: ((args[1], args[2], is_shared),
                                args[0].fields["_debug"],
                                args[0].fields["_output_writer"]),
        lambda interp, args: text_value(interp, args[1], args[2], is_shared))


STRING = {
    D + "DSCFile._ReadString": string_effect(True),
    D + "UUIDTextFile._ReadString": string_effect(False),
    HERE + "spec_string": show.effect(
        "string", string_spec_input,
        lambda interp, args: text_value(interp, *args[:3]))}


def numbered(ctx, sym, key, names):
    return {name: ctx.app(name + ":" + sym, key, "int", lo=0) for name in names}


ENTRIES = {HERE + "descriptors": tables.sequence_of(
    "entries", lambda ctx, sym, key: (
        ctx.app("start:" + sym, key, "int", lo=0),
        core.SObj(Descriptor, numbered(ctx, sym, key, ("offset", "data_size")))))}
RANGES = {HERE + "shared_ranges": tables.sequence_of(
    "ranges", lambda ctx, sym, key: core.SObj(unified_logging.DSCRange, numbered(
        ctx, sym, key, ("range_offset", "range_size", "data_offset", "text_offset",
                        "text_size", "image_identifier", "image_path"))))}
COUNTED = {**PLACE, "version": Int(0, 65535), "count": Int(0, 2 ** 32 - 1), **SHOWN}

CONTRACTS = [
    Contract("P24", "unified.time_record", code_time, spec_time, {**PLACE, **SHOWN},
             gen=gen_time, stubs={**show.STUBS, **TIME},
             targets=[D + "TimesyncDatabaseFile._ReadRecord"]),
    Contract("P24", "unified.ranges", code_ranges, spec_ranges, COUNTED,
             gen=gen_descriptors, stubs=show.STUBS,
             targets=[D + "DSCFile._ReadRangeDescriptors"]),
    Contract("P24", "unified.image_path", code_path, image_path, {**PLACE, **SHOWN},
             gen=gen_string, stubs=show.STUBS, targets=[D + "DSCFile._ReadImagePath"]),
    Contract("P24", "unified.images", code_identifiers, spec_identifiers, COUNTED,
             gen=gen_descriptors, stubs=show.STUBS,
             targets=[D + "DSCFile._ReadUUIDDescriptors"]),
    Contract("P24", "unified.string_at", code_string, spec_string,
             {**PLACE, "is_shared": Bool(), **SHOWN}, gen=gen_string, stubs=show.STUBS,
             targets=[D + "DSCFile._ReadString", D + "UUIDTextFile._ReadString"]),
    Contract("P24", "unified.times", code_times, spec_times, {"f": File(), **SHOWN},
             gen=gen_times, stubs={**show.STUBS, **RECORD},
             targets=[D + "TimesyncDatabaseFile.ReadRecords"]),
    Contract("P24", "unified.lookup", code_lookup, spec_lookup,
             {"f": File(), "table": Bytes(), "reference": Int(0, 2 ** 64), **SHOWN},
             gen=gen_lookup, stubs={**show.STUBS, **STRING, **ENTRIES},
             targets=[D + "UUIDTextFile.GetString"]),
    Contract("P24", "unified.shared", code_shared, spec_shared,
             {"f": File(), "table": Bytes(), "reference": Int(0, 2 ** 64),
              "is_dynamic": Bool(), **SHOWN},
             gen=gen_lookup, stubs={**show.STUBS, **STRING, **RANGES},
             targets=[D + "DSCFile.GetImageValues"]),
    Contract("P24", "unified.shared_header", code_header, spec_header,
             {"f": File(), **SHOWN}, gen=gen_header, stubs=show.STUBS,
             targets=[D + "DSCFile._ReadFileHeader"]),
    Contract("P24", "unified.footer", code_footer, spec_footer, {**PLACE, **SHOWN},
             gen=gen_string, stubs=show.STUBS,
             targets=[D + "UUIDTextFile._ReadFileFooter", D + "UUIDTextFile.GetImagePath"]),
    Contract("P24", "unified.strings", code_strings, spec_strings,
             {"f": File(), **SHOWN}, gen=gen_strings, stubs=show.STUBS,
             targets=[D + "UUIDTextFile.ReadFileObject",
                      D + "UUIDTextFile._ReadFileHeader",
                      D + "UUIDTextFile._FormatArrayOfEntryDescriptors"]),
]

"""Contracts of macOS login item alias data and background item bookmark data."""

import z3

from dfdatetime import hfs_time
from dtformats import alias_data
from dtformats import bookmark_data
from dtformats import errors

from contracts import show
from contracts.windows_records import cut, missing, word
from engine import core, models
from engine.speclib import float_of, s, u
from engine.verify import Bool, Contract, File, Int, Ints, Writer

A = "dtformats.alias_data.MacOSLoginItemAliasData."
B = "dtformats.bookmark_data.MacOSBackgroundItemBookmarkData."
HERE = "contracts.bookmark_data."


def be(data, offset, size):
    return u(data, offset, size, "big")


def text_of(data, encoding):
    try:
        return data.decode(encoding)
    except UnicodeDecodeError:
        pass
    raise errors.ParseError("invalid characters")


# -- alias data ------------------------------------------------------------------------

def code_hfs_time(value):
    return alias_data.MacOSLoginItemAliasData()._FormatIntegerAsHFSTime64bit(value)


def hfs_time_text(value):
    if value == 0:
        return "Not set (0)"
    text = hfs_time.HFSTime(timestamp=value // 65536).CopyToDateTimeString()
    if not text:
        return f"0x{value:08x}"
    return f"{text}.{value % 65536 * 1000000 // 65536:06d} UTC"


def hfs_text(value):
    """Specified in formatting.py (property P06)."""
    return alias_data.MacOSLoginItemAliasData()._FormatIntegerAsHFSTime(value)


def code_alias_value(f, offset, debug, writer):
    o = alias_data.MacOSLoginItemAliasData(debug=debug, output_writer=writer)
    o._file_size = f.size
    value, size = o._ReadTaggedValue(f, offset)
    return value.value_tag, size


def spec_alias_value(f, offset, debug, writer):
    """Shows a tagged value, gives the tag and the size with padding."""
    data = f.content[offset:]
    missing(data, 4)
    tag = be(data, 0, 2)
    size = be(data, 2, 2)
    end = 4 + size + size % 2
    missing(data, end)
    if tag == 1:
        count = size // 4
        if debug:
            text = ", ".join([f"{be(data, 4 + 4 * i, 4):d}" for i in range(count)])
            writer.WriteText(show.structure(
                show.line("Value tag", f"0x{tag:04x}"),
                show.line("Value data size", f"{size:d}"),
                show.placed("Integers", text, False),
                show.block("Alignment padding", show.dump(b""))))
        return tag, end
    if tag in (0x0e, 0x0f):
        missing(data, 6)
        count = be(data, 4, 2)
        missing(data, 6 + 2 * count)
        text = text_of(data[6:6 + 2 * count], "utf-16-be")
        if debug:
            writer.WriteText(show.structure(
                show.line("Value tag", f"0x{tag:04x}"),
                show.line("Value data size", f"{size:d}"),
                show.line("Number of characters", f"{count:d}"),
                show.value("String", text.rstrip("\0")),
                show.block("Alignment padding", show.dump(b""))))
        return tag, max(end, 6 + 2 * count)
    value = data[4:4 + size]
    padding = data[4 + size:end]
    if tag in (0, 2, 6, 0x12, 0x13):
        text = text_of(value, "utf8")
        if debug:
            writer.WriteText(show.structure(
                show.line("Value tag", f"0x{tag:04x}"),
                show.line("Value data size", f"{size:d}"),
                show.value("String", text.rstrip("\0")),
                show.block("Alignment padding", show.dump(padding))))
    elif debug:
        writer.WriteText(show.structure(
            show.line("Value tag", f"0x{tag:04x}"),
            show.line("Value data size", f"{size:d}"),
            show.block("Value data", show.dump(value)),
            show.block("Alignment padding", show.dump(padding))))
    return tag, end


def code_alias(f, debug, writer):
    o = alias_data.MacOSLoginItemAliasData(debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)


def spec_alias(f, debug, writer):
    data = f.content
    missing(data, 8)
    record_size = be(data, 4, 2)
    version = be(data, 6, 2)
    if version not in (2, 3):
        raise errors.ParseError("unsupported version")
    if debug:
        writer.WriteText(show.structure(
            show.block("Application information", show.dump(data[:4])),
            show.line("Record size", f"{record_size:d}"),
            show.line("Format version", f"{version:d}")))
    if data[:4] != bytes(4):
        raise errors.ParseError("unsupported application information")
    if record_size != f.size:
        raise errors.ParseError("different size")
    if version == 2:
        missing(data, 122)
        if debug:
            writer.WriteText(show.structure(
                show.line("Alias type", f"{be(data, 8, 2):d}"),
                show.block("Volume name", show.dump(data[10:38])),
                show.line("Volume creation date and time", hfs_text(be(data, 38, 4))),
                show.block("File system type", show.dump(data[42:44])),
                show.block("Disk type", show.dump(data[44:46])),
                show.line("Parent file system identifier", f"{be(data, 46, 4):d}"),
                show.block("Target name", show.dump(data[50:114])),
                show.line("Target file system identifier", f"{be(data, 114, 4):d}"),
                show.line("Target creation date and time", hfs_text(be(data, 118, 4)))))
        position = 150
    else:
        missing(data, 58)
        if debug:
            writer.WriteText(show.structure(
                show.line("Alias type", f"{be(data, 8, 2):d}"),
                show.line("Volume creation date and time",
                          hfs_time_text(be(data, 10, 8))),
                show.block("File system type", show.dump(data[18:22])),
                show.line("Disk type", f"{be(data, 22, 2):d}"),
                show.line("Parent file system identifier", f"{be(data, 24, 4):d}"),
                show.line("Target file system identifier", f"{be(data, 28, 4):d}"),
                show.line("Target creation date and time",
                          hfs_time_text(be(data, 32, 8))),
                show.line("Volume flags", f"0x{be(data, 40, 4):04x}"),
                show.block("Unknown1", show.dump(data[44:58]))))
        position = 58
    while position < record_size:
        position += alias_value_size(f, position, debug, writer)


def alias_value_size(f, offset, debug, writer):
    return spec_alias_value(f, offset, debug, writer)[1]


def value_size(interp, f, offset):
    size = interp.ctx.app("alias_value_size", (interp.getattr(f, "content"), offset),
                          "int", lo=4)
    return size


def at(args):
    return args[1:3], args[0].fields["_debug"], args[0].fields["_output_writer"]


def spec_at(args):
    return args[:2], args[2], args[3]


VALUE = {A + "_ReadTaggedValue": show.effect("alias_value", at, lambda interp, args: (
             None, value_size(interp, args[1], args[2]))),
         HERE + "alias_value_size": show.effect(
             "alias_value", spec_at, lambda interp, args: value_size(
                 interp, args[0], args[1]))}


def gen_alias_values(rng, number):
    data = b""
    for _ in range(number):
        tag = rng.choice([0, 1, 2, 3, 6, 0x0e, 0x0f, 0x10, 0x12, 0x13, 0xffff])
        value = rng.choice([b"", b"abc", b"ab\0\0", b"\xc3\xa9", rng.randbytes(8)])
        if tag in (0x0e, 0x0f):
            text = rng.choice(["", "ab", "\u4e2d"]).encode("utf-16-be")
            value = rng.choice([len(text) // 2] * 5 + [9]).to_bytes(2, "big") + text
        size = rng.choice([len(value)] * 9 + [len(value) + 1])
        data += tag.to_bytes(2, "big") + size.to_bytes(2, "big") + value
        data += bytes(len(value) % 2)
    return data


def gen_alias_value(rng):
    head = rng.randbytes(rng.choice([0, 3]))
    return {"f": cut(rng, head + gen_alias_values(rng, 2)), "offset": len(head)}


def gen_alias(rng):
    version = rng.choice([2, 3, 2, 3, 2, 3, 4])
    time = (rng.choice([0, 0xd0000000]) + rng.getrandbits(20)) * rng.choice([0, 1, 1])
    part = rng.randbytes(4)
    if version == 2:
        data = (part[:2] + rng.randbytes(28) + time.to_bytes(4, "big") + part
                + rng.randbytes(72) + time.to_bytes(4, "big") + rng.randbytes(28))
    else:
        wide = time * 65536 + rng.getrandbits(16) * (time != 0)
        data = (part[:2] + wide.to_bytes(8, "big") + rng.randbytes(14)
                + rng.choice([wide, 0, 2**64 - 1]).to_bytes(8, "big") + rng.randbytes(18))
    data += gen_alias_values(rng, rng.choice([0, 1, 3]))
    size = len(data) + 8 + rng.choice([0] * 9 + [1])
    data = (rng.choice([bytes(4)] * 9 + [b"abcd"]) + size.to_bytes(2, "big")
            + version.to_bytes(2, "big") + data)
    return {"f": data if rng.random() < 0.8 else cut(rng, data)}


STUBS = {**show.STUBS,
         "dtformats.data_format.BinaryDataFormat._FormatIntegerAsHFSTime":
             show.pure_time("hfs_text"),
         HERE + "hfs_text": show.pure_time("hfs_text"),
         A + "_FormatIntegerAsHFSTime64bit": show.pure_time("hfs_time_text"),
         HERE + "hfs_time_text": show.pure_time("hfs_time_text")}

CONTRACTS = [
    Contract("P17", "alias.hfs_time", code_hfs_time, hfs_time_text,
             {"value": Int(0, 2**64 - 1)}, assumptions=[
                 "dfdatetime.hfs_time.HFSTime gives the date and time of a timestamp"],
             targets=[A + "_FormatIntegerAsHFSTime64bit"]),
    Contract("P17", "alias.value", code_alias_value, spec_alias_value,
             {"f": File(), "offset": Int(0), "debug": Bool(), "writer": Writer()},
             gen=gen_alias_value, stubs=STUBS, targets=[A + "_ReadTaggedValue"]),
    Contract("P17", "alias.file", code_alias, spec_alias,
             {"f": File(), "debug": Bool(), "writer": Writer()},
             gen=gen_alias, stubs={**STUBS, **VALUE},
             targets=[A + n for n in ("ReadFileObject", "_ReadRecordHeader",
                                      "_ReadRecordV2", "_ReadRecordV3")]),
]


# -- bookmark data ---------------------------------------------------------------------

def code_record(f, offset, debug, writer):
    o = bookmark_data.MacOSBackgroundItemBookmarkData(debug=debug, output_writer=writer)
    o._file_size = f.size
    record = o._ReadDataRecord(f, offset)
    kind = record.data_type
    if kind == 0x101:
        return kind, record.string
    if kind == 0x601:
        return kind, [value for value in record.integers]
    if 0x301 <= kind <= 0x304:
        return kind, record.integer
    if kind == 0x305 or kind == 0x306:
        return kind, record.floating_point
    return kind, record.data


def spec_record(f, offset, debug, writer):
    """Shows a data record, gives its type and its value."""
    data = f.content[offset:]
    missing(data, 8)
    size = u(data, 0, 4)
    kind = u(data, 4, 4)
    missing(data, 8 + size)
    if kind == 0x601:
        count = size // 4
        if debug:
            text = ", ".join([f"{u(data, 8 + 4 * i, 4):d}" for i in range(count)])
            writer.WriteText(show.structure(
                show.line("Data size", f"{size:d}"),
                show.line("Data type", f"0x{kind:08x}"),
                show.placed("Integers", text, False)))
        return kind, [u(data, 8 + 4 * i, 4) for i in range(count)]
    if kind == 0x101:
        value = text_of(data[8:8 + size], "utf8")
        line = show.value("String", value.rstrip("\0"))
    elif kind == 0x301:
        missing(data, 9)
        value = s(data, 8, 1)
        line = show.line("Integer", f"{value:d}")
    elif kind == 0x302:
        missing(data, 10)
        value = s(data, 8, 2)
        line = show.line("Integer", f"{value:d}")
    elif kind == 0x303:
        missing(data, 12)
        value = s(data, 8, 4)
        line = show.line("Integer", f"{value:d}")
    elif kind == 0x304:
        missing(data, 16)
        value = s(data, 8, 8)
        line = show.line("Integer", f"{value:d}")
    elif kind == 0x305:
        missing(data, 12)
        value = float_of(data[8:12], "little")
        line = show.line("Floating point", f"{value:f}")
    elif kind == 0x306:
        missing(data, 16)
        value = float_of(data[8:16], "little")
        line = show.line("Floating point", f"{value:f}")
    else:
        value = data[8:8 + size]
        line = show.block("Data", show.dump(value))
    if debug:
        writer.WriteText(show.structure(
            show.line("Data size", f"{size:d}"),
            show.line("Data type", f"0x{kind:08x}"),
            line))
    return kind, value


class Record:
    """A data record, which has one of the values."""

    def __init__(self, data_type):
        self.data_type = data_type
        self.data = None
        self.integer = None
        self.integers = None
        self.string = None


def data_record(f, offset, debug, writer):
    """A data record, its values are specified by bookmark.record."""
    kind, value = spec_record(f, offset, debug, writer)
    record = Record(kind)
    if kind == 0x101:
        record.string = value
    elif kind == 0x601:
        record.integers = value
    elif 0x301 <= kind <= 0x304:
        record.integer = value
    elif kind != 0x305 and kind != 0x306:
        record.data = value
    return record


class Values(dict):
    """The values of a data record, of which the type says which one is present."""

    TYPES = {"string": [(0x101, 0x101)], "integers": [(0x601, 0x601)],
             "integer": [(0x301, 0x304)], "floating_point": [(0x305, 0x306)]}

    def __init__(self, interp, key):
        super().__init__()
        self.interp = interp
        self.key = key
        self.kind = interp.ctx.app("record_type", key, "int", lo=0, hi=2**32 - 1)

    def has_type(self, types):
        return self.interp.ctx.decide(core.mkbool(z3.Or([
            z3.And(self.kind.e >= low, self.kind.e <= high) for low, high in types])))

    def __contains__(self, name):
        if name == "data":
            return not self.has_type(sum(self.TYPES.values(), []))
        return name == "data_type" or name in self.TYPES and self.has_type(self.TYPES[name])

    def __getitem__(self, name):
        ctx = self.interp.ctx
        if name == "data_type":
            return self.kind
        if name == "integers":
            return show.integers(self.interp, "record_integers", self.key, 2**32 - 1)
        if name == "integer":
            return ctx.app("record_integer", self.key, "int", lo=-2**63, hi=2**63 - 1)
        return ctx.app("record_" + name, self.key, {
            "string": "str", "data": "bytes", "floating_point": "float"}[name])


def record_of(interp, f, offset):
    return core.SObj(object, Values(interp, (interp.getattr(f, "content"), offset)))


RECORD = {B + "_ReadDataRecord": show.effect("bookmark_record", at, lambda interp, args: (
              record_of(interp, args[1], args[2]))),
          HERE + "data_record": show.effect(
              "bookmark_record", spec_at, lambda interp, args: record_of(
                  interp, args[0], args[1]))}


def code_bookmark(f, debug, writer):
    o = bookmark_data.MacOSBackgroundItemBookmarkData(debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)


def spec_bookmark(f, debug, writer):
    data = f.content
    missing(data, 48)
    size = u(data, 4, 4)
    if data[:4] not in (b"alis", b"book"):
        raise errors.ParseError("invalid signature")
    start = u(data, 12, 4)
    if debug:
        writer.WriteText(show.structure(
            show.value("Signature", show.stream(data[:4])),
            show.line("Size", f"{size:d}"),
            show.line("Unknown1", f"0x{u(data, 8, 4):08x}"),
            show.line("Data area offset", f"0x{start:08x}"),
            show.block("Unknown3", show.dump(data[16:48]))))
    if size != f.size:
        raise errors.ParseError("different size")
    if start != 48:
        raise errors.ParseError("unsupported offset")
    missing(data, 52)
    area_size = u(data, 48, 4)
    if debug:
        writer.WriteText(show.line("Data area size", f"{area_size:d}"))
        writer.WriteText("\n")
    toc = data[48 + area_size:]
    missing(toc, 20)
    count = u(toc, 16, 4)
    missing(toc, 20 + 12 * count)
    if u(toc, 4, 4) != 0xfffffffe:
        raise errors.ParseError("invalid table of contents")
    if debug:
        text = "\n".join([
            f"\ttag: 0x{u(toc, 20 + 12 * i, 4):04x}, data record offset: "
            f"0x{u(toc, 24 + 12 * i, 4):08x}, unknown1: 0x{u(toc, 28 + 12 * i, 4):08x}"
            for i in range(count)])
        writer.WriteText(show.structure(
            show.line("Entries data size", f"{u(toc, 0, 4):d}"),
            show.line("Unknown1", f"0x{u(toc, 4, 4):08x}"),
            show.line("Identifier", f"{u(toc, 8, 4):d}"),
            show.line("Next TOC offset", f"0x{u(toc, 12, 4):08x}"),
            show.line("Number of tagged values", f"{count:d}"),
            show.placed("Tagged values", f"{text}\n", True)))
    if u(toc, 12, 4) != 0:
        raise errors.ParseError("unsupported next table of contents")
    for i in range(count):
        tag = u(toc, 20 + 12 * i, 4)
        if debug:
            writer.WriteText(show.line("Value tag", f"0x{tag:04x}"))
        tagged_value(f, tag, 48 + u(toc, 24 + 12 * i, 4), debug, writer)


def tagged_value(f, tag, offset, debug, writer):
    record = data_record(f, offset, debug, writer)
    if record.data_type == 0x400:
        value = available(record, "data")
        missing(value, 8)
        if debug:
            writer.WriteText(show.line(
                "Cocoa timestamp", f"{float_of(value[:8], 'big'):f}"))
            writer.WriteText("\n")
    elif tag == 0x1004:
        strings = strings_at(f, available(record, "integers"), debug, writer)
        if debug:
            writer.WriteText(show.line("Path", "/".join(strings)))
            writer.WriteText("\n")
    elif tag == 0x1005:
        integers = integers_at(f, available(record, "integers"), debug, writer)
        if debug:
            writer.WriteText(show.line(
                "Integers array", ", ".join([f"{x:d}" for x in integers])))
            writer.WriteText("\n")
    elif tag in (0x1010, 0x2020):
        flags = available(record, "data")
        missing(flags, 24)
        if debug:
            writer.WriteText(show.structure(
                show.line("Flags", f"0x{u(flags, 0, 8):08x}"),
                show.line("Valid flags bitmask", f"0x{u(flags, 8, 8):08x}"),
                show.line("Unknown", f"0x{u(flags, 16, 8):08x}")))


def code_strings(f, offsets, debug, writer):
    o = bookmark_data.MacOSBackgroundItemBookmarkData(debug=debug, output_writer=writer)
    o._file_size = f.size
    return o._ReadStringsArray(f, 48, offsets)


def code_integers(f, offsets, debug, writer):
    o = bookmark_data.MacOSBackgroundItemBookmarkData(debug=debug, output_writer=writer)
    o._file_size = f.size
    return o._ReadIntegersArray(f, 48, offsets)


def strings_at(f, offsets, debug, writer):
    values = []
    for offset in offsets:
        values.append(available(data_record(f, 48 + offset, debug, writer), "string"))
    return values


def integers_at(f, offsets, debug, writer):
    values = []
    for offset in offsets:
        values.append(available(data_record(f, 48 + offset, debug, writer), "integer"))
    return values


def available(record, name):
    value = getattr(record, name, None)
    if value is None:
        raise errors.ParseError("unsupported data type")
    return value


def array_at(args):
    return (args[1], args[2], args[3]), args[0].fields["_debug"], args[0].fields[
        "_output_writer"]


def spec_array_at(args):
    return (args[0], 48, args[1]), args[2], args[3]


def array_effects(name, kind, **limits):
    def values(interp, f, offsets):
        return show.sequence(interp, name + "_values", (
            interp.getattr(f, "content"), offsets), kind, **limits)
    method = B + "_Read" + name.title() + "Array"
    return {method: show.effect(name, array_at, lambda interp, args: values(
                interp, args[1], args[3])),
            HERE + name + "_at": show.effect(name, spec_array_at, lambda interp, args: (
                values(interp, args[0], args[1])))}


ARRAYS = {**array_effects("strings", "str"),
          **array_effects("integers", "int", lo=-2**63, hi=2**63 - 1)}


def gen_data_record(rng, kind):
    data = rng.randbytes(rng.choice([0, 8, 24]))
    if kind == 0x101:
        data = rng.choice([b"", b"Users", b"a\0", b"\xc3\xa9", b"\xff", b"a\nb"])
    elif kind == 0x601:
        data = rng.randbytes(rng.choice([0, 4, 8, 6]))
    elif 0x301 <= kind <= 0x304:
        data = rng.randbytes(1 << (kind - 0x301))
    elif kind in (0x305, 0x306):
        data = b"\0\0\xc0\x40" * (1 if kind == 0x305 else 2)
    size = rng.choice([len(data)] * 12 + [len(data) + 4, 0])
    return size.to_bytes(4, "little") + kind.to_bytes(4, "little") + data


KINDS = (0x101, 0x601, 0x301, 0x302, 0x303, 0x304, 0x305, 0x306, 0x400, 0x200, 0x500)


def gen_record(rng):
    head = rng.randbytes(rng.choice([0, 3]))
    return {"f": cut(rng, head + gen_data_record(rng, rng.choice(KINDS))
                     + rng.choice([b"", b"abcdefgh"])), "offset": len(head)}


def gen_array(rng):
    data, offsets = bytes(48), []
    for _ in range(rng.choice([0, 1, 2, 3])):
        offsets.append(len(data) - 48 + (rng.random() < 0.05))
        data += gen_data_record(rng, rng.choice([0x101, 0x303, 0x304, 0x101, 0x303, 0x200]))
    return {"f": cut(rng, data), "offsets": offsets}


def gen_bookmark(rng):
    area, entries = b"", []

    def add(data):
        nonlocal area
        position = 4 + len(area)
        area += data
        return position
    for _ in range(rng.choice([0, 1, 2, 3])):
        tag = rng.choice([0x1004, 0x1005, 0x1010, 0x2020, 0x1040])
        kind = rng.choice(KINDS)
        if tag in (0x1004, 0x1005) and rng.random() < 0.9:
            parts = [add(gen_data_record(rng, rng.choice(
                [0x101] * 9 + [0x200] if tag == 0x1004 else [0x303, 0x304] * 5 + [0x101])))
                for _ in range(rng.choice([0, 1, 2]))]
            entries.append((tag, add((4 * len(parts)).to_bytes(4, "little")
                                     + b"\1\6\0\0" + b"".join(
                x.to_bytes(4, "little") for x in parts))))
        elif tag in (0x1010, 0x2020) and rng.random() < 0.8:
            entries.append((tag, add(b"\x18\0\0\0\1\2\0\0" + rng.randbytes(24))))
        elif rng.random() < 0.2:
            entries.append((tag, add(b"\x08\0\0\0\0\4\0\0\x41\xc0\0\0\0\0\0\0")))
        else:
            entries.append((tag, add(gen_data_record(rng, kind))))
    toc = word(rng) + rng.choice([b"\xfe\xff\xff\xff"] * 9 + [b"\xff\xff\xff\xff"])
    toc += word(rng) + rng.choice([bytes(4)] * 9 + [b"\1\0\0\0"])
    toc += len(entries).to_bytes(4, "little")
    for tag, position in entries:
        toc += tag.to_bytes(4, "little") + position.to_bytes(4, "little") + word(rng)
    body = (4 + len(area)).to_bytes(4, "little") + area + toc
    data = rng.choice([b"alis", b"book", b"book", b"nope"][:rng.choice([3, 4])])
    data += (48 + len(body) + rng.choice([0] * 9 + [1])).to_bytes(4, "little") + word(rng)
    data += rng.choice([48] * 9 + [47]).to_bytes(4, "little") + rng.randbytes(32) + body
    return {"f": data if rng.random() < 0.9 else cut(rng, data)}


CONTRACTS += [
    Contract("P17", "bookmark.record", code_record, spec_record,
             {"f": File(), "offset": Int(0), "debug": Bool(), "writer": Writer()},
             gen=gen_record, stubs=STUBS, targets=[B + "_ReadDataRecord"]),
    Contract("P17", "bookmark.strings", code_strings, strings_at,
             {"f": File(), "offsets": Ints(0), "debug": Bool(), "writer": Writer()},
             gen=gen_array, stubs={**STUBS, **RECORD},
             targets=[B + "_ReadStringsArray", B + "_GetDataRecordValue"]),
    Contract("P17", "bookmark.integers", code_integers, integers_at,
             {"f": File(), "offsets": Ints(0), "debug": Bool(), "writer": Writer()},
             gen=gen_array, stubs={**STUBS, **RECORD},
             targets=[B + "_ReadIntegersArray", B + "_GetDataRecordValue"]),
    Contract("P17", "bookmark.file", code_bookmark, spec_bookmark,
             {"f": File(), "debug": Bool(), "writer": Writer()}, gen=gen_bookmark,
             stubs={**STUBS, **RECORD, **ARRAYS}, targets=[B + n for n in (
                 "ReadFileObject", "_ReadHeader", "_ReadTableOfContents",
                 "_GetDataRecordValue", "_FormatArrayOfTaggedValues")]),
]

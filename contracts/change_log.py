"""Contracts of the Windows restore point change log format."""

from dtformats import errors
from dtformats import rp_change_log

from contracts import show
from contracts.windows_records import cut, missing, wide, word
from engine import models
from engine.speclib import find_terminator, u
from engine.verify import Bool, Bytes, Contract, File, Int, Writer

L = "dtformats.rp_change_log.RestorePointChangeLogFile."
HERE = "contracts.change_log."

RECORD_TYPES = {
    0: "RecordTypeLogHeader", 1: "RecordTypeLogEntry", 2: "RecordTypeVolumePath",
    3: "RecordTypeFirstPath", 4: "RecordTypeSecondPath", 5: "RecordTypeTempPath",
    6: "RecordTypeAclInline", 7: "RecordTypeAclFile", 8: "RecordTypeDebugInfo",
    9: "RecordTypeShortName"}


class Values:
    """Values of a record."""


def code_entry_header(record_size, record_type, signature, entry_type, entry_flags,
                      attributes, number, name_size, unknown, writer):
    o = rp_change_log.RestorePointChangeLogFile(debug=True, output_writer=writer)
    record = Values()
    record.record_size = record_size
    record.record_type = record_type
    record.signature = signature
    record.entry_type = entry_type
    record.entry_flags = entry_flags
    record.file_attribute_flags = attributes
    record.sequence_number = number
    record.process_name_size = name_size
    record.unknown2 = unknown
    o._DebugPrintChangeLogEntryRecord(record)


def record_header(record_size, record_type):
    return (show.line("Record size", f"{record_size:d}")
            + show.line("Record type",
                        f"{record_type:d} ({RECORD_TYPES.get(record_type, 'UNKNOWN')})"))


def flag(value, bit, name):
    return f"\t{name}\n" if value & bit else ""


def entry_types(value):
    name = "CHANGE_LOG_ENTRYTYPES_"
    return (flag(value, 0x1, name + "STREAMCHANGE") + flag(value, 0x2, name + "ACLCHANGE")
            + flag(value, 0x4, name + "ATTRCHANGE")
            + flag(value, 0x8, name + "STREAMOVERWRITE")
            + flag(value, 0x10, name + "FILEDELETE") + flag(value, 0x20, name + "FILECREATE")
            + flag(value, 0x40, name + "FILERENAME") + flag(value, 0x80, name + "DIRCREATE")
            + flag(value, 0x100, name + "DIRRENAME") + flag(value, 0x200, name + "DIRDELETE")
            + flag(value, 0x400, name + "MOUNTCREATE")
            + flag(value, 0x800, name + "MOUNTDELETE")
            + flag(value, 0x1000, name + "VOLUMEERROR")
            + flag(value, 0x2000, name + "STREAMCREATE")
            + flag(value, 0x10000, name + "NOOPTIMIZE") + flag(value, 0x20000, name + "ISDIR")
            + flag(value, 0x40000, name + "ISNOTDIR")
            + flag(value, 0x80000, name + "SIMULATEDELETE")
            + flag(value, 0x100000, name + "INPRECREATE")
            + flag(value, 0x200000, name + "OPENBYID"))


def entry_flags_text(value):
    name = "CHANGE_LOG_ENTRYFLAGS_"
    return (flag(value, 1, name + "TEMPPATH") + flag(value, 2, name + "SECONDPATH")
            + flag(value, 4, name + "ACLINFO") + flag(value, 8, name + "DEBUGINFO")
            + flag(value, 16, name + "SHORTNAME"))


def spec_entry_header(record_size, record_type, signature, entry_type, entry_flags,
                      attributes, number, name_size, unknown, writer):
    writer.WriteText(
        record_header(record_size, record_type)
        + show.line("Signature", f"0x{signature:08x}")
        + show.line("Entry type", f"0x{entry_type:08x}") + entry_types(entry_type) + "\n"
        + show.line("Entry flags", f"0x{entry_flags:08x}") + entry_flags_text(entry_flags)
        + "\n" + show.line("File attribute flags", f"0x{attributes:08x}")
        + show.line("Sequence number", f"{number:d}")
        + show.line("Process name size", f"{name_size:d}")
        + show.line("Unknown2", f"0x{unknown:08x}"))


def gen_entry_header(rng):
    out = {name: rng.getrandbits(32) for name in (
        "signature", "entry_type", "entry_flags", "attributes", "number", "name_size",
        "unknown")}
    return {"record_size": rng.getrandbits(9), "record_type": rng.randrange(11), **out}


def code_record(data, offset, debug, writer):
    o = rp_change_log.RestorePointChangeLogFile(debug=debug, output_writer=writer)
    return o._ReadRecord(data, offset)


def spec_record(data, offset, debug, writer):
    """Shows a record inside of a change log entry and gives its size."""
    rest = data[offset:]
    missing(rest, 8)
    size = u(rest, 0, 4)
    record_type = u(rest, 4, 4)
    record = rest[:size]
    text = ""
    if record_type in (4, 5, 9):
        end = find_terminator(record[8:], b"\0\0", 2)
        if end < 0:
            raise errors.ParseError("missing end of string")
        text = wide(record[8:8 + end])
    if debug:
        writer.WriteText(show.block("Record data", show.dump(record))
                         + record_header(size, record_type))
        if record_type == 4:
            writer.WriteText(show.line("Secondary path", text))
        elif record_type == 5:
            writer.WriteText(show.line("Backup filename", text))
        elif record_type == 9:
            writer.WriteText(show.line("Short filename", text))
        writer.WriteText("\n")
    return size


TEXTS = [b"", b"a\0", b"\\\0W\0", b"\x00\xd8", b"\n\0x\0"]


def gen_sub(rng):
    kind = rng.randrange(10)
    data = rng.choice(TEXTS * 3 + [word(rng)]) + rng.choice([b"\0\0"] * 9 + [b""])
    size = 8 + len(data) + rng.choice([0] * 9 + [-8, 4, -8 - len(data)])
    return max(size, 0).to_bytes(4, "little") + kind.to_bytes(4, "little") + data


def gen_record(rng):
    data = bytes(5) + gen_sub(rng) + gen_sub(rng) + word(rng)
    if rng.random() < 0.2:
        data = data[:rng.randrange(len(data))]
    return {"data": data, "offset": 5}


def code_entry(f, offset, debug, writer):
    o = rp_change_log.RestorePointChangeLogFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    f.seek(offset)
    entry = o._ReadChangeLogEntry(f)
    return (f.tell(), entry.entry_type, entry.entry_flags, entry.file_attribute_flags,
            entry.sequence_number, entry.process_name)


def spec_entry(f, offset, debug, writer):
    """Shows a change log entry, gives where it ends and its values."""
    rest = f.content[offset:]
    missing(rest, 72)
    size = u(rest, 0, 4)
    if debug:
        spec_entry_header(size, u(rest, 4, 4), u(rest, 8, 4), u(rest, 12, 4),
                          u(rest, 16, 4), u(rest, 20, 4), u(rest, 24, 8), u(rest, 64, 4),
                          u(rest, 68, 4), writer)
    if u(rest, 4, 4) != 1 or u(rest, 8, 4) != 0xABCDEF12:
        raise errors.ParseError("unsupported record")
    if size < 72:
        raise errors.ParseError("invalid size")
    missing(rest, size)
    data = rest[72:size]
    name_end = find_terminator(data, b"\0\0", 2)
    if name_end < 0:
        raise errors.ParseError("missing end of string")
    name = wide(data[:name_end])
    index = name_end + 2
    end = size - 76
    if debug:
        writer.WriteText(show.block("Record data", show.dump(data))
                         + show.line("Process name", name) + "\n"
                         + show.line("Sub record data offset", f"{index:d}")
                         + show.line("Sub record data size", f"{end - index:d}"))
        if index < end:
            writer.WriteText("\n")
    while index < end:
        record_size = spec_record(data, index, debug, writer)
        if record_size == 0:
            break
        index += record_size
    if len(data) < 4 or u(data, len(data) - 4, 4) != size:
        raise errors.ParseError("invalid copy of size")
    if debug:
        writer.WriteText(show.line("Copy of record size", f"{size:d}") + "\n")
    return (offset + size, u(rest, 12, 4), u(rest, 16, 4), u(rest, 20, 4), u(rest, 24, 8),
            name)


def next_entry(f, offset, debug, writer):
    values = spec_entry(f, offset, debug, writer)
    return values[0], values[1:]


def entry_values(entries):
    return [(entry.entry_type, entry.entry_flags, entry.file_attribute_flags,
             entry.sequence_number, entry.process_name) for entry in entries]


def gen_entry_data(rng):
    data = rng.choice(TEXTS) + rng.choice([b"\0\0"] * 9 + [b""])
    for _ in range(rng.choice([0, 1, 2])):
        data += gen_sub(rng)
    size = 76 + len(data)
    start = (size + rng.choice([0] * 20 + [1, -3, -99 - size])) % 2 ** 32
    head = start.to_bytes(4, "little") + rng.choice([1] * 20 + [2]).to_bytes(4, "little")
    head += rng.choice([b"\x12\xef\xcd\xab"] * 20 + [b"\x13\xef\xcd\xab"])
    return head + word(rng, 60) + data + rng.choice([size] * 20 + [size + 1]).to_bytes(
        4, "little")


def gen_entry(rng):
    return {"f": cut(rng, bytes(3) + gen_entry_data(rng) + bytes(rng.choice([0, 7]))),
            "offset": 3}


def code_file(f, debug, writer):
    o = rp_change_log.RestorePointChangeLogFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)
    return entry_values(o.entries)


def spec_file(f, debug, writer):
    data = f.content
    missing(data, 16)
    size = u(data, 0, 4)
    if debug:
        writer.WriteText(record_header(size, u(data, 4, 4))
                         + show.line("Signature", f"0x{u(data, 8, 4):08x}")
                         + show.line("Format version", f"{u(data, 12, 4):d}"))
    if u(data, 8, 4) != 0xABCDEF12 or u(data, 4, 4) != 0 or u(data, 12, 4) != 2:
        raise errors.ParseError("unsupported file")
    if size < 16:
        raise errors.ParseError("invalid size")
    missing(data, size)
    record = data[16:size]
    path = record[:-4]
    missing(path, 8)
    path_size = u(path, 0, 4)
    if path_size < 8:
        raise errors.ParseError("invalid size")
    missing(path, path_size)
    volume = wide(path[8:path_size])[:-1]
    if debug:
        writer.WriteText(show.block("Record data", show.dump(record))
                         + record_header(path_size, u(path, 4, 4))
                         + show.line("Volume path", volume) + "\n")
    if u(path, 4, 4) != 2:
        raise errors.ParseError("unsupported volume path")
    if debug:
        writer.WriteText(show.line("Copy of record size", f"{u(data, size - 4, 4):d}")
                         + "\n")
    if u(data, size - 4, 4) != size:
        raise errors.ParseError("invalid copy of size")
    entries = []
    offset = size
    while offset < len(data):
        offset, entry = next_entry(f, offset, debug, writer)
        entries.append(entry)
    return entries


def gen_file(rng):
    text = rng.choice(TEXTS) + b"\0\0"
    path = (8 + len(text) + rng.choice([0] * 20 + [1, -9])).to_bytes(4, "little")
    path += rng.choice([2] * 20 + [3]).to_bytes(4, "little") + text
    size = 20 + len(path)
    data = (size + rng.choice([0] * 20 + [1, -size])).to_bytes(4, "little")
    data += rng.choice([0] * 20 + [1]).to_bytes(4, "little") + b"\x12\xef\xcd\xab"
    data += rng.choice([2] * 20 + [3]).to_bytes(4, "little") + path
    data += rng.choice([size] * 20 + [3]).to_bytes(4, "little")
    for _ in range(rng.choice([0, 0, 1, 2])):
        data += gen_entry_data(rng)
    return {"f": cut(rng, data)}


I32 = Int(0, 2 ** 32 - 1)

CONTRACTS = [
    Contract("P14", "change_log.entry_header", code_entry_header, spec_entry_header,
             {"record_size": I32, "record_type": I32, "signature": I32, "entry_type": I32,
              "entry_flags": I32, "attributes": I32, "number": Int(0, 2 ** 64 - 1),
              "name_size": I32, "unknown": I32, "writer": Writer()},
             gen=gen_entry_header, stubs=show.STUBS,
             targets=[L + "_DebugPrintChangeLogEntryRecord",
                      L + "_DebugPrintRecordHeader"]),
]
CONTRACTS += [
    Contract("P14", "change_log.record", code_record, spec_record,
             {"data": Bytes(), "offset": Int(0), "debug": Bool(), "writer": Writer()},
             gen=gen_record, stubs=show.STUBS, targets=[L + "_ReadRecord"]),
]


def record_after(interp, args):
    data, offset = args[:2] if len(args) == 4 else args[1:3]
    return interp.ctx.app("change_log_record_size", (data, offset), "int", lo=0,
                          hi=2 ** 32 - 1)


RECORD = {
    L + "_ReadRecord": show.effect("change_log_record", show.method_input, record_after),
    HERE + "spec_record": show.effect(
        "change_log_record", show.function_input, record_after),
}

CONTRACTS += [
    Contract("P14", "change_log.entry", code_entry, spec_entry,
             {"f": File(), "offset": Int(0), "debug": Bool(), "writer": Writer()},
             gen=gen_entry, stubs={**show.STUBS, **RECORD},
             targets=[L + "_ReadChangeLogEntry"]),
]


def entry_input(args):
    o, f = args
    return [f, models.mkint(f.pos)], *show.method_input(args)[1:]


def entry_results(interp, f, offset):
    keys = (interp.getattr(f, "content"), offset)
    end = interp.ctx.app("change_log_end", keys, "int", lo=0)
    interp.ctx.assume(end.e >= models.zi(offset) + 72)
    interp.ctx.assume(end.e <= f.size)
    return end, interp.ctx.app("change_log_entry", keys)


def entry_after(interp, args):
    f = args[1]
    f.pos, entry = entry_results(interp, f, models.mkint(f.pos))
    return entry


ENTRY = {
    L + "_ReadChangeLogEntry": show.effect("change_log_entry", entry_input, entry_after),
    HERE + "next_entry": show.effect(
        "change_log_entry", show.function_input,
        lambda interp, args: entry_results(interp, *args[:2])),
    HERE + "entry_values": lambda interp, args, kwargs: args[0],
}

CONTRACTS += [
    Contract("P14", "change_log.file", code_file, spec_file,
             {"f": File(), "debug": Bool(), "writer": Writer()}, gen=gen_file,
             stubs={**show.STUBS, **ENTRY},
             targets=[L + "ReadFileObject", L + "_ReadFileHeader", L + "_ReadVolumePath",
                      L + "_ReadChangeLogEntries"]),
]

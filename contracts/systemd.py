"""Contracts of the systemd journal format."""

from dtformats import errors
from dtformats import systemd

from contracts import show
from contracts.windows_records import cut, missing, word
from engine import core
from engine import models
from engine.speclib import u
from engine.verify import Bool, Contract, File, Int, Writer

J = "dtformats.systemd.SystemdJournalFile."
HERE = "contracts.systemd."
FLAGS = {1: "OBJECT_COMPRESSED_XZ", 2: "OBJECT_COMPRESSED_LZ4"}
TYPES = {0: "OBJECT_UNUSED", 1: "OBJECT_DATA", 2: "OBJECT_FIELD", 3: "OBJECT_ENTRY",
         4: "OBJECT_DATA_HASH_TABLE", 5: "OBJECT_FIELD_HASH_TABLE",
         6: "OBJECT_ENTRY_ARRAY", 7: "OBJECT_TAG"}


def time_text(value):
    return systemd.SystemdJournalFile()._FormatIntegerAsPosixTimeInMicroseconds(value)


def spec_object(data, object_type, header_size, size, flags, debug, writer):
    """Values of an object header, the object has items of a size after its header."""
    missing(data, header_size)
    items_size = u(data, 8, 8) - header_size
    if items_size < 0:
        raise errors.ParseError("invalid size")
    number = items_size // size
    if number > 0:
        missing(data, header_size + items_size)
    if debug:
        flag = f"0x{data[1]:02x}"
        if data[1] != 0:
            flag = f"{flag} ({FLAGS.get(data[1], 'UNKNOWN')})"
        writer.WriteText(show.structure(
            show.line("Object type", f"{data[0]:d} ({TYPES.get(data[0], 'UNKNOWN')})"),
            show.line("Object flags", flag),
            show.block("Reserved", show.dump(data[2:8])),
            show.line("Data size", f"{u(data, 8, 8):d}")))
    if data[0] != object_type:
        raise errors.ParseError("unsupported type")
    if data[1] not in flags:
        raise errors.ParseError("unsupported flags")
    return number


def code_array(f, offset, debug, writer):
    o = systemd.SystemdJournalFile(debug=debug, output_writer=writer)
    entry_array = o._ReadEntryArrayObject(f, offset)
    offsets = []
    for entry_offset in entry_array.entry_object_offsets:
        offsets.append(entry_offset)
    return entry_array.next_entry_array_offset, offsets


def spec_array(f, offset, debug, writer):
    data = f.content[offset:]
    number = spec_object(data, 6, 24, 8, (0,), debug, writer)
    if debug:
        lines = []
        index = 0
        while index < number:
            lines.append(show.line(f"    Entry object offset: {index:d}",
                                   f"0x{u(data, 24 + 8 * index, 8):08x}"))
            index += 1
        writer.WriteText(show.structure(
            show.line("Next entry array offset", f"0x{u(data, 16, 8):08x}"),
            show.value("Entry object offsets", "".join(lines))))
    offsets = []
    index = 0
    while index < number:
        offsets.append(u(data, 24 + 8 * index, 8))
        index += 1
    return u(data, 16, 8), offsets


def code_entry(f, offset, debug, writer):
    o = systemd.SystemdJournalFile(debug=debug, output_writer=writer)
    entry = o._ReadEntryObject(f, offset)
    offsets = []
    for item in entry.entry_items:
        offsets.append(item.object_offset)
    return offsets


def spec_entry(f, offset, debug, writer):
    data = f.content[offset:]
    number = spec_object(data, 3, 64, 16, (0,), debug, writer)
    if debug:
        lines = []
        index = 0
        while index < number:
            lines.append(show.line(f"    Entry item: {index:d} object offset",
                                   f"0x{u(data, 64 + 16 * index, 8):08x}"))
            lines.append(show.line(f"    Entry item: {index:d} hash",
                                   f"0x{u(data, 72 + 16 * index, 8):08x}"))
            index += 1
        writer.WriteText(show.structure(
            show.line("Sequence number", f"{u(data, 16, 8):d}"),
            show.line("Real time", time_text(u(data, 24, 8))),
            show.line("Monotonic", f"0x{u(data, 32, 8):08x}"),
            show.block("Boot identifier", show.dump(data[40:56])),
            show.line("XOR hash", f"0x{u(data, 56, 8):08x}"),
            show.value("Entry items", "".join(lines))))
    offsets = []
    index = 0
    while index < number:
        offsets.append(u(data, 64 + 16 * index, 8))
        index += 1
    return offsets


def code_data(f, offset, debug, writer):
    o = systemd.SystemdJournalFile(debug=debug, output_writer=writer)
    return o._ReadDataObject(f, offset).data


def spec_data(f, offset, debug, writer):
    data = f.content[offset:]
    size = spec_object(data, 1, 64, 1, (0, 1, 2), debug, writer)
    if debug:
        writer.WriteText(show.structure(
            show.line("Hash", f"0x{u(data, 16, 8):08x}"),
            show.line("Next hash offset", f"0x{u(data, 24, 8):08x}"),
            show.line("Next field offset", f"0x{u(data, 32, 8):08x}"),
            show.line("Entry offset", f"0x{u(data, 40, 8):08x}"),
            show.line("Entry array offset", f"0x{u(data, 48, 8):08x}"),
            show.line("Number of entries", f"{u(data, 56, 8):d}")))
    return data[64 : 64 + size]


def code_file(f, debug, writer):
    o = systemd.SystemdJournalFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)
    return o._format_version


def spec_header(f, debug, writer):
    data = f.content
    missing(data, 208)
    if data[:8] != b"LPKSHHRH":
        raise errors.ParseError("unsupported signature")
    if debug:
        writer.WriteText(show.structure(
            show.value("Signature", show.stream(data[:8])),
            show.line("Compatible flags", f"0x{u(data, 8, 4):08x}"),
            show.line("Incompatible flags", f"0x{u(data, 12, 4):08x}"),
            show.line("State", f"0x{data[16]:02x}"),
            show.block("Reserved", show.dump(data[17:24])),
            show.block("File identifier", show.dump(data[24:40])),
            show.block("Machine identifier", show.dump(data[40:56])),
            show.block("Boot identifier", show.dump(data[56:72])),
            show.block("Sequence number identifier", show.dump(data[72:88])),
            show.line("Header size", f"{u(data, 88, 8):d}"),
            show.line("Arena size", f"{u(data, 96, 8):d}"),
            show.line("Data hash table offset", f"0x{u(data, 104, 8):08x}"),
            show.line("Data hash table size", f"{u(data, 112, 8):d}"),
            show.line("Field hash table offset", f"0x{u(data, 120, 8):08x}"),
            show.line("Field hash table size", f"{u(data, 128, 8):d}"),
            show.line("Tail object offset", f"0x{u(data, 136, 8):08x}"),
            show.line("Number of objects", f"{u(data, 144, 8):d}"),
            show.line("Number of entry objects", f"{u(data, 152, 8):d}"),
            show.line("Tail entry sequence number", f"0x{u(data, 160, 8):08x}"),
            show.line("Head entry sequence number", f"0x{u(data, 168, 8):08x}"),
            show.line("Entry array offset", f"0x{u(data, 176, 8):08x}"),
            show.line("Head entry real time", time_text(u(data, 184, 8))),
            show.line("Tail entry real time", time_text(u(data, 192, 8))),
            show.line("Tail entry monotonic", f"0x{u(data, 200, 8):08x}")))
    size = u(data, 88, 8)
    if size not in (208, 224, 240):
        raise errors.ParseError("unsupported header size")
    return {208: None, 224: 187, 240: 189}[size], u(data, 176, 8)


def spec_file(f, debug, writer):
    version, offset = spec_header(f, debug, writer)
    following, offsets = spec_array(f, offset, debug, writer)
    while following != 0:
        if following <= offset:
            raise errors.ParseError("entry arrays form a loop")
        offset = following
        following, more = spec_array(f, offset, debug, writer)
        offsets.extend(more)
    for entry_offset in offsets:
        if entry_offset != 0:
            for item_offset in spec_entry(f, entry_offset, debug, writer):
                spec_data(f, item_offset, debug, writer)
    return version


def gen_size(rng, size, items_size):
    size += items_size + rng.choice([0] * 12 + [1, 4, -8, -size])
    return size.to_bytes(8, "little")


def object_start(rng, object_type, size, items_size):
    return bytes([rng.choice([object_type] * 15 + [9, 2]),
                  rng.choice([0] * 15 + [1, 2, 7])]) + word(rng, 6) + gen_size(
                      rng, size, items_size)


def gen_array_data(rng, offsets, following):
    return object_start(rng, 6, 24, 8 * len(offsets)) + b"".join(
        offset.to_bytes(8, "little") for offset in [following] + offsets)


def gen_entry_data(rng, offsets):
    return object_start(rng, 3, 64, 16 * len(offsets)) + word(rng, 8) + (
        rng.getrandbits(50) * rng.getrandbits(1)).to_bytes(8, "little") + word(
            rng, 32) + b"".join(
                offset.to_bytes(8, "little") + word(rng, 8) for offset in offsets)


def gen_data_data(rng):
    size = rng.choice([0, 0, 5, 8])
    return object_start(rng, 1, 64, size) + word(rng, 48) + word(rng, 8)[:size]


def gen_object(make):
    def gen(rng):
        offset = rng.choice([0, 3])
        return {"f": cut(rng, bytes(offset) + make(rng)), "offset": offset}
    return gen


def some(rng):
    return [rng.getrandbits(16) for _ in range(rng.choice([0, 0, 1, 2, 3]))]


def gen_file(rng):
    size = 208
    data = b""
    items = []
    for _ in range(rng.choice([0, 1, 2])):
        items.append(size + len(data))
        data += gen_data_data(rng)
    entries = []
    for _ in range(rng.choice([0, 1, 2])):
        entries.append(size + len(data))
        data += gen_entry_data(rng, rng.choice([items, items, [], [5]]))
    entries = rng.choice([entries] * 4 + [entries + [0]])
    start = size + len(data)
    for k in range(rng.choice([0, 1, 1])):
        end = size + len(data) + 24 + 8 * len(entries)
        data += gen_array_data(rng, entries, end if rng.random() < 0.8 else start)
    data += gen_array_data(rng, entries, 0)
    header = rng.choice([b"LPKSHHRH"] * 9 + [b"LPKSHHRX"]) + word(rng, 80)
    header += rng.choice([208, 224, 240, 240, 240, 5]).to_bytes(8, "little") + word(rng, 80)
    header += start.to_bytes(8, "little")
    header += (rng.getrandbits(50) * rng.getrandbits(1)).to_bytes(8, "little") + word(rng, 16)
    return {"f": cut(rng, header[:192] + bytes(8) + header[200:] + data)}


class Values:
    """Values of an object."""


def array_result(interp, f, offset):
    """Next offset and entry offsets, there is no entry array at the end of the file."""
    keys = (interp.getattr(f, "content"), offset)
    interp.ctx.assume(models.zi(offset) < f.size)
    return (interp.ctx.app("journal_next", keys, "int", lo=0, hi=2 ** 64 - 1),
            show.integers(interp, "journal_entries", keys, 2 ** 64 - 1))


def code_array_result(interp, args):
    result = models.SObj(Values)
    result.fields["next_entry_array_offset"], result.fields["entry_object_offsets"] = (
        array_result(interp, args[1], args[2]))
    return result


def entry_result(interp, f, offset):
    return show.integers(interp, "journal_items",
                         (interp.getattr(f, "content"), offset), 2 ** 64 - 1)


def code_entry_result(interp, args):
    items = entry_result(interp, args[1], args[2])

    def item(offset):
        value = models.SObj(Values)
        value.fields["object_offset"] = offset
        return value
    result = models.SObj(Values)
    result.fields["entry_items"] = [
        core.Splice(x.sym, x.start, x.ln, lambda i, x=x: item(x.elem(i))) for x in items]
    return result


READ = {
    J + "_ReadEntryArrayObject": show.effect(
        "journal_array", show.method_input, code_array_result),
    HERE + "spec_array": show.effect(
        "journal_array", show.function_input,
        lambda interp, args: array_result(interp, *args[:2])),
    J + "_ReadEntryObject": show.effect(
        "journal_entry", show.method_input, code_entry_result),
    HERE + "spec_entry": show.effect(
        "journal_entry", show.function_input,
        lambda interp, args: entry_result(interp, *args[:2])),
    J + "_ReadDataObject": show.effect("journal_data", show.method_input),
    HERE + "spec_data": show.effect("journal_data", show.function_input),
}
SHOWN = {"debug": Bool(), "writer": Writer()}
AT = {"f": File(), "offset": Int(0, 2 ** 64 - 1), **SHOWN}
STUBS = {**show.STUBS,
         "dtformats.data_format.BinaryDataFormat._FormatIntegerAsPosixTimeInMicroseconds":
             show.pure_time("microseconds_text")}

CONTRACTS = [
    Contract("P13", "journal.entry_array", code_array, spec_array, AT,
             gen=gen_object(lambda rng: gen_array_data(rng, some(rng), 5)), stubs=STUBS,
             targets=[J + "_ReadEntryArrayObject", J + "_FormatEntryObjectOffsets",
                      J + "_FormatIntegerAsObjectFlags", J + "_FormatIntegerAsObjectType"]),
    Contract("P13", "journal.entry", code_entry, spec_entry, AT,
             gen=gen_object(lambda rng: gen_entry_data(rng, some(rng))), stubs=STUBS,
             targets=[J + "_ReadEntryObject", J + "_FormatEntryItems"]),
    Contract("P13", "journal.data", code_data, spec_data, AT,
             gen=gen_object(gen_data_data), stubs=STUBS, targets=[J + "_ReadDataObject"]),
    Contract("P13", "journal.file", code_file, spec_file, {"f": File(), **SHOWN},
             gen=gen_file, stubs={**STUBS, **READ}, targets=[J + "ReadFileObject", J + "_ReadFileHeader"]),
]

"""Contracts of Windows metafiles."""

from dtformats import errors
from dtformats import wemf

from contracts import show
from contracts.wemf_names import (
    EMF_RECORDS, MAP_MODES, RASTER_OPERATIONS, STOCK_OBJECTS, STRETCH_MODES, WMF_RECORDS)
from contracts.windows_records import cut, missing, word
from engine import core
from engine.speclib import u
from engine.verify import Bool, Contract, File, Int, Writer

E = "dtformats.wemf.EMFFile."
W = "dtformats.wemf.WMFFile."
HERE = "contracts.wemf."


def reader(cls, f, debug, writer):
    o = cls(debug=debug, output_writer=writer)
    o._file_size = f.size
    return o


def fields(record):
    return record.record_type, record.size, record.data_offset, record.data_size


# -- enhanced metafiles ----------------------------------------------------------------

def code_emf_record(f, offset, debug, writer):
    record = reader(wemf.EMFFile, f, debug, writer)._ReadRecord(f, offset)
    return fields(record)


def spec_emf_record(f, offset, debug, writer):
    """Shows a record, gives its type, size and the range of its data."""
    data = f.content[offset:]
    missing(data, 8)
    kind = u(data, 0, 4)
    size = u(data, 4, 4)
    if debug:
        writer.WriteText(show.line(
            "Record type", f"0x{kind:04x} ({EMF_RECORDS.get(kind, 'UNKNOWN'):s})"))
        writer.WriteText(show.line("Record size", f"{size:d}"))
        writer.WriteText("\n")
    if size < 8:
        raise errors.ParseError("unsupported size")
    if debug:
        data = data[8:size]
        if size > 8:
            writer.WriteText(show.block("Record data", show.dump(data)))
        if kind == 0x18:
            missing(data, 4)
            writer.WriteText(show.line("Color", f"0x{u(data, 0, 4):04x}"))
            writer.WriteText("\n")
        elif kind == 0x25:
            missing(data, 4)
            identifier = u(data, 0, 4)
            text = f"0x{identifier:08x}"
            if identifier in STOCK_OBJECTS:
                text = f"{text:s} ({STOCK_OBJECTS[identifier]:s})"
            writer.WriteText(show.line("Object identifier", text))
            writer.WriteText("\n")
    return kind, size, offset + 8, size - 8


def code_emf(f, debug, writer):
    reader(wemf.EMFFile, f, debug, writer).ReadFileObject(f)


def spec_emf(f, debug, writer):
    data = f.content
    missing(data, 108)
    size = u(data, 4, 4)
    if debug:
        kind = u(data, 0, 4)
        writer.WriteText(show.line(
            "Record type", f"0x{kind:04x} ({EMF_RECORDS.get(kind, 'UNKNOWN'):s})"))
        writer.WriteText(show.line("Record size", f"{size:d}"))
        writer.WriteText(show.line("Signature", f"0x{u(data, 40, 4):04x}"))
        writer.WriteText(show.line("Format version", f"0x{u(data, 44, 4):04x}"))
        writer.WriteText(show.line("File size", f"{u(data, 48, 4):d}"))
        writer.WriteText(show.line("Number of records", f"{u(data, 52, 4):d}"))
        writer.WriteText(show.line("Number of handles", f"{u(data, 56, 2):d}"))
        writer.WriteText(show.line("Unknown (reserved)", f"0x{u(data, 58, 2):04x}"))
        writer.WriteText(show.line("Description string size", f"{u(data, 60, 4):d}"))
        writer.WriteText(show.line(
            "Description string offset", f"0x{u(data, 64, 4):04x}"))
        writer.WriteText("\n")
    if size < 88:
        raise errors.ParseError("unsupported size of header record")
    while size < f.size:
        size += emf_record_size(f, size, debug, writer)


def emf_record_size(f, offset, debug, writer):
    return spec_emf_record(f, offset, debug, writer)[1]


# -- metafiles -------------------------------------------------------------------------

def code_wmf_record(f, offset, debug, writer):
    record = reader(wemf.WMFFile, f, debug, writer)._ReadRecord(f, offset)
    return fields(record)


def spec_wmf_record(f, offset, debug, writer):
    """Shows a record, gives its type, size and the range of its data."""
    data = f.content[offset:]
    missing(data, 6)
    count = u(data, 0, 4)
    size = count * 2
    kind = u(data, 4, 2)
    if debug:
        writer.WriteText(show.line("Record size", f"{count:d} ({size:d} bytes)"))
        writer.WriteText(show.line(
            "Record type", f"0x{kind:04x} ({WMF_RECORDS.get(kind, 'UNKNOWN'):s})"))
        writer.WriteText("\n")
    if size < 6:
        raise errors.ParseError("unsupported size")
    if debug:
        data = data[6:size]
        if size > 6:
            writer.WriteText(show.block("Record data", show.dump(data)))
        if kind == 0x103:
            missing(data, 2)
            mode = u(data, 0, 2)
            writer.WriteText(show.line(
                "Map mode", f"0x{mode:04x} ({MAP_MODES.get(mode, 'UNKNOWN'):s})"))
            writer.WriteText("\n")
        elif kind == 0x107:
            missing(data, 2)
            mode = u(data, 0, 2)
            writer.WriteText(show.line(
                "Stretch mode", f"0x{mode:04x} ({STRETCH_MODES.get(mode, 'UNKNOWN'):s})"))
            writer.WriteText("\n")
        elif kind == 0x127:
            missing(data, 2)
            writer.WriteText(show.line(
                "Number of saved device context", f"{u(data, 0, 2):d}"))
            writer.WriteText("\n")
        elif kind == 0x20b or kind == 0x20c:
            missing(data, 4)
            writer.WriteText(show.line("X coordinate", f"{u(data, 0, 2):d}"))
            writer.WriteText(show.line("Y coordinate", f"{u(data, 2, 2):d}"))
            writer.WriteText("\n")
        elif kind == 0xb41:
            missing(data, 20)
            code = u(data, 0, 4)
            writer.WriteText(show.line(
                "Raster operation",
                f"0x{code:08x} ({RASTER_OPERATIONS.get(code, 'UNKNOWN'):s})"))
            writer.WriteText(show.line("Source height", f"{u(data, 4, 2):d}"))
            writer.WriteText(show.line("Source width", f"{u(data, 6, 2):d}"))
            writer.WriteText(show.line("Source X coordinate", f"{u(data, 8, 2):d}"))
            writer.WriteText(show.line("Source Y coordinate", f"{u(data, 10, 2):d}"))
            writer.WriteText(show.line("Destination height", f"{u(data, 12, 2):d}"))
            writer.WriteText(show.line("Destination width", f"{u(data, 14, 2):d}"))
            writer.WriteText(show.line("Destination X coordinate", f"{u(data, 16, 2):d}"))
            writer.WriteText(show.line("Destination Y coordinate", f"{u(data, 18, 2):d}"))
            writer.WriteText("\n")
    return kind, size, offset + 6, size - 6


def code_wmf(f, debug, writer):
    reader(wemf.WMFFile, f, debug, writer).ReadFileObject(f)


def spec_wmf(f, debug, writer):
    data = f.content
    missing(data, 4)
    start = 0
    if data[:4] == b"\xd7\xcd\xc6\x9a":
        missing(data, 22)
        if debug:
            writer.WriteText(show.line("Signature", "0x9ac6cdd7"))
            writer.WriteText(show.line("Resource handle", f"0x{u(data, 4, 2):04x}"))
            writer.WriteText(show.block("Bounding box", show.dump(data[6:14])))
            writer.WriteText(show.line("Number of units per inch", f"{u(data, 14, 2):d}"))
            writer.WriteText(show.line("Unknown1", f"0x{u(data, 16, 4):08x}"))
            writer.WriteText(show.line("Checksum", f"0x{u(data, 20, 2):04x}"))
            writer.WriteText("\n")
        start = 22
    head = data[start:]
    missing(head, 18)
    if debug:
        writer.WriteText(show.line("File type", f"0x{u(head, 0, 2):04x}"))
        writer.WriteText(show.line("Record size", f"{u(head, 2, 2):d}"))
        writer.WriteText(show.line("Format version", f"{u(head, 4, 2):d}"))
        writer.WriteText(show.line("File size lower", f"{u(head, 6, 2):d}"))
        writer.WriteText(show.line("File size upper", f"{u(head, 8, 2):d}"))
        writer.WriteText(show.line("Maximum number of object", f"{u(head, 10, 2):d}"))
        writer.WriteText(show.line("Largest record size", f"{u(head, 12, 4):d}"))
        writer.WriteText(show.line("Number of records", f"{u(head, 16, 2):d}"))
        writer.WriteText("\n")
    if u(head, 0, 2) not in (1, 2):
        raise errors.ParseError("unsupported type of file")
    if u(head, 2, 2) != 9:
        raise errors.ParseError("unsupported size of header")
    position = start + 18
    while position < f.size:
        position += wmf_record_size(f, position, debug, writer)


def wmf_record_size(f, offset, debug, writer):
    return spec_wmf_record(f, offset, debug, writer)[1]


def record_effect(name, least, method):
    def size_of(interp, f, offset):
        return interp.ctx.app(name + "_size", (interp.getattr(f, "content"), offset),
                              "int", lo=least)

    def record(interp, args):
        size = size_of(interp, args[1], args[2])
        args[1].pos = interp.ctx.fresh_int("pos", lo=0)
        return core.SObj(object, {"size": size})
    return {method: show.effect(name, lambda args: (
                args[1:3], args[0].fields["_debug"], args[0].fields["_output_writer"]),
                record),
            HERE + name + "_size": show.effect(name, lambda args: (
                args[:2], args[2], args[3]), lambda interp, args: size_of(
                    interp, args[0], args[1]))}


EMF = record_effect("emf_record", 8, E + "_ReadRecord")
WMF = record_effect("wmf_record", 6, W + "_ReadRecord")


def emf_data(rng):
    kind = rng.choice([0x18, 0x25, 0x25, 0x46, 0x0e, 0x77, 0x7b, 0])
    data = rng.randbytes(rng.choice([4, 4, 0, 9, 3]))
    if kind == 0x25:
        data = rng.choice([0x80000000, 0x80000009, 0x80000013, 5]).to_bytes(
            4, "little")[:rng.choice([4, 4, 4, 2])]
    size = 8 + len(data) + rng.choice([0] * 20 + [1, -9])
    return kind.to_bytes(4, "little") + max(0, size).to_bytes(4, "little") + data


def wmf_data(rng):
    kind = rng.choice(
        [0x103, 0x107, 0x127, 0x20b, 0x20c, 0xb41, 0xb41, 0xb41, 0, 0x1e, 0x777])
    data = rng.randbytes(rng.choice([20, 4, 4, 2, 0, 1]))
    if kind in (0x103, 0x107) and data:
        data = rng.choice([1, 2, 4, 5, 8, 9]).to_bytes(2, "little")
    if kind == 0xb41:
        data = rng.choice([7, *RASTER_OPERATIONS]).to_bytes(4, "little") + rng.randbytes(
            rng.choice([16, 18, 16, 14]))
    size = (6 + len(data)) // 2 + rng.choice([0] * 20 + [1, -3])
    return max(0, size).to_bytes(4, "little") + kind.to_bytes(2, "little") + data


def gen_record(make):
    def gen(rng):
        head = rng.randbytes(rng.choice([0, 5]))
        return {"f": cut(rng, head + make(rng) + rng.choice([b"", b"abc"])),
                "offset": len(head)}
    return gen


def gen_emf(rng):
    data = rng.choice([1, 2]).to_bytes(4, "little") + rng.choice(
        [88, 108, 108, 112, 112, 87]).to_bytes(4, "little") + rng.randbytes(80)
    data += rng.choice([b"", bytes(20), bytes(24), bytes(24)])
    data += b"".join(emf_data(rng) for _ in range(rng.choice([1, 2, 3])))
    return {"f": data if rng.random() < 0.8 else cut(rng, data)}


def gen_wmf(rng):
    data = rng.choice([b"", b"\xd7\xcd\xc6\x9a" + rng.randbytes(18)])
    data += rng.choice([b"\1\0", b"\2\0"] * 4 + [b"\3\0"]) + rng.choice(
        [b"\x09\0"] * 9 + [b"\x0a\0"]) + word(rng) * 3 + b"\0\0"
    data += b"".join(wmf_data(rng) for _ in range(rng.choice([0, 1, 2, 3])))
    return {"f": data if rng.random() < 0.8 else cut(rng, data)}


CONTRACTS = [
    Contract("P20", "wemf.emf_record", code_emf_record, spec_emf_record,
             {"f": File(), "offset": Int(0), "debug": Bool(), "writer": Writer()},
             gen=gen_record(emf_data), stubs=show.STUBS,
             targets=[E + "_ReadRecord", E + "_ReadRecordData",
                      E + "_DebugPrintRecordHeader", "dtformats.wemf.Record.__init__"]),
    Contract("P20", "wemf.emf", code_emf, spec_emf,
             {"f": File(), "debug": Bool(), "writer": Writer()}, gen=gen_emf,
             stubs={**show.STUBS, **EMF}, targets=[
                 E + "ReadFileObject", E + "_ReadFileHeader", E + "_DebugPrintFileHeader"]),
    Contract("P20", "wemf.wmf_record", code_wmf_record, spec_wmf_record,
             {"f": File(), "offset": Int(0), "debug": Bool(), "writer": Writer()},
             gen=gen_record(wmf_data), stubs=show.STUBS,
             targets=[W + "_ReadRecord", W + "_ReadRecordData",
                      W + "_DebugPrintRecordHeader"]),
    Contract("P20", "wemf.wmf", code_wmf, spec_wmf,
             {"f": File(), "debug": Bool(), "writer": Writer()}, gen=gen_wmf,
             stubs={**show.STUBS, **WMF}, targets=[W + n for n in (
                 "ReadFileObject", "_ReadHeader", "_ReadPlaceable", "_DebugPrintHeader",
                 "_DebugPrintPlaceable")]),
]

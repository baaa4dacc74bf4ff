"""Contracts of the Windows recycle bin and restore point formats."""

from dtformats import errors
from dtformats import recycle_bin
from dtformats import recycler
from dtformats import rp_log

from contracts import show
from engine.speclib import Rec, find_terminator, u, until
from engine.verify import Bool, Contract, File, Writer

B = "dtformats.recycle_bin.RecycleBinMetadataFile."
R = "dtformats.recycler.RecyclerInfo2File."
P = "dtformats.rp_log.RestorePointLogFile."


def wide(data):
    """Text of UTF-16 little-endian characters."""
    try:
        return data.decode("utf-16-le")
    except UnicodeDecodeError:
        pass
    raise errors.ParseError("invalid characters")


def missing(data, size):
    if len(data) < size:
        raise errors.ParseError("missing data")


def code_recycle_bin(f, debug, writer):
    o = recycle_bin.RecycleBinMetadataFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)
    return o


def spec_recycle_bin(f, debug, writer):
    data = f.content
    missing(data, 24)
    if debug:
        writer.WriteText(
            show.line("Format version", f"{u(data, 0, 8):d}")
            + show.line("Original file size", f"{u(data, 8, 8):d}")
            + show.line("Deletion time", show.filetime_text(u(data, 16, 8))) + "\n")
    version = u(data, 0, 8)
    if version == 1:
        rest = data[24:]
        end = find_terminator(rest, b"\0\0", 2)
        if end < 0:
            raise errors.ParseError("missing end of string")
        name = wide(rest[:end])
    elif version == 2:
        missing(data, 28)
        size = u(data, 24, 4) * 2
        missing(data, 28 + size)
        name = wide(data[28 : 28 + size])
    else:
        raise errors.ParseError("unsupported version")
    name = name.rstrip("\0")
    if debug:
        writer.WriteText(show.line("Original filename", name) + "\n")
    return Rec(format_version=version, original_file_size=u(data, 8, 8),
               deletion_time=u(data, 16, 8), original_filename=name)


def code_recycler(f, debug, writer):
    o = recycler.RecyclerInfo2File(debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)


def ansi(data):
    try:
        return data.decode("cp1252")
    except UnicodeDecodeError:
        pass
    raise errors.ParseError("invalid characters")


def spec_recycler(f, debug, writer):
    data = f.content
    missing(data, 20)
    size = u(data, 12, 4)
    if debug:
        writer.WriteText(
            show.line("Unknown1", f"0x{u(data, 0, 4):08x}")
            + show.line("Number of file entries", f"{u(data, 4, 4):d}")
            + show.line("Unknown2", f"0x{u(data, 8, 4):08x}")
            + show.line("File entry size", f"{size:d}")
            + show.line("Unknown3", f"0x{u(data, 16, 4):08x}") + "\n")
    if size not in (280, 800):
        raise errors.ParseError("unsupported file entry size")
    offset = 20
    while offset < len(data):
        entry = data[offset : offset + size]
        missing(entry, size)
        if debug:
            writer.WriteText(
                show.value("Original filename (ANSI)", ansi(entry[:260]))
                + show.line("Index", f"{u(entry, 260, 4):d}")
                + show.line("Drive number", f"{u(entry, 264, 4):d}")
                + show.line("Deletion time", show.filetime_text(u(entry, 268, 8)))
                + show.line("Original file size", f"{u(entry, 276, 4):d}") + "\n")
        if size == 800:
            name = wide(until(entry[280:800], b"\0\0", 2))
            if debug:
                writer.WriteText(show.line("Original filename (Unicode)", name))
        if debug:
            writer.WriteText("\n")
        offset += size


EVENTS = {100: "BEGIN_SYSTEM_CHANGE", 101: "END_SYSTEM_CHANGE",
          102: "BEGIN_NESTED_SYSTEM_CHANGE", 103: "END_NESTED_SYSTEM_CHANGE"}
KINDS = {0: "APPLICATION_INSTALL", 1: "APPLICATION_UNINSTALL",
         10: "DEVICE_DRIVER_INSTALL", 12: "MODIFY_SETTINGS", 13: "CANCELLED_OPERATION"}


def code_log(f, debug, writer):
    o = rp_log.RestorePointLogFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)


def spec_log(f, debug, writer):
    data = f.content
    missing(data, 16)
    rest = data[16:]
    end = find_terminator(rest, b"\0\0", 2)
    if end < 0:
        raise errors.ParseError("missing end of string")
    text = wide(rest[:end])
    event = u(data, 0, 4)
    kind = u(data, 4, 4)
    if debug:
        writer.WriteText(
            show.line("Event type", f"0x{event:08x} ({EVENTS.get(event, 'UNKNOWN')})")
            + show.line("Restore point type",
                        f"0x{kind:08x} ({KINDS.get(kind, 'UNKNOWN')})")
            + show.line("Sequence number", f"0x{u(data, 8, 8):08x}")
            + show.line("Description", text) + "\n")
    offset = 16 + end + 2
    footer = len(data) - 8
    if footer < offset:
        raise errors.ParseError("missing data")
    if debug:
        writer.WriteText(
            show.block("Unknown1", show.dump(data[offset:footer]))
            + show.line("Creation time", show.filetime_text(u(data, footer, 8))) + "\n")


def word(rng, size=4):
    return rng.choice([0, 1, 2, 10, 100, 102, 103, 280, rng.getrandbits(8 * size)]
                      ).to_bytes(size, "little")


def text(rng):
    return rng.choice(["", "a", "C:\\file.txt", "\u00e9\u4e2d", "a\0b", "\0"])


def cut(rng, data):
    return data[: len(data) - rng.choice([0, 0, 0, 0, 1, 2, 8, 20])]


def stamp(rng):
    return rng.choice([0, 0x7FFFFFFFFFFFFFFF, 130000000000000000 + rng.getrandbits(40)]
                      ).to_bytes(8, "little")


def gen_recycle_bin(rng):
    version = rng.choice([1, 2, 1, 2, 3])
    raw = text(rng).encode("utf-16-le")
    if rng.random() < 0.2:
        raw += b"\x00\xd8"
    if version == 2:
        raw = (len(raw) // 2 + rng.choice([0, 0, 0, 1])).to_bytes(4, "little") + raw
        raw += rng.choice([b"", b"\0\0"])
    else:
        raw += rng.choice([b"\0\0", b"\0\0", b"\0\0zz", b""])
    return {"f": cut(rng, version.to_bytes(8, "little") + word(rng, 8) + stamp(rng) + raw)}


def gen_recycler(rng):
    size = rng.choice([280, 800, 800, 280, 281])
    data = word(rng) * 3 + size.to_bytes(4, "little") + word(rng)
    for _ in range(rng.choice([0, 1, 1, 2])):
        name = rng.choice([b"", b"C:\\a.txt", b"\xe9\x81", b"x" * 260, b"a\0\x81"])
        data += name.ljust(260, b"\0") + word(rng) + word(rng) + stamp(rng) + word(rng)
        if size >= 800:
            raw = text(rng).encode("utf-16-le")
            if rng.random() < 0.2:
                raw += b"\x00\xd8"
            data += (raw * rng.choice([1, 1, 300]))[:520].ljust(520, b"\0")
    return {"f": cut(rng, data)}


def gen_log(rng):
    raw = text(rng).encode("utf-16-le")
    if rng.random() < 0.1:
        raw += b"\x00\xd8"
    data = word(rng) + word(rng) + word(rng, 8) + raw + b"\0\0" + bytes(
        rng.choice([0, 0, 5, 20])) + stamp(rng)
    return {"f": cut(rng, data)}


PARAMS = {"f": File(), "debug": Bool(), "writer": Writer()}

CONTRACTS = [
    Contract("P08", "recycle_bin.file", code_recycle_bin, spec_recycle_bin, PARAMS,
             gen=gen_recycle_bin, stubs=show.STUBS,
             targets=[B + "ReadFileObject", B + "_ReadFileHeader",
                      B + "_ReadOriginalFilename"]),
    Contract("P08", "recycler.file", code_recycler, spec_recycler, PARAMS,
             gen=gen_recycler, stubs=show.STUBS,
             targets=[R + "ReadFileObject", R + "_ReadFileHeader", R + "_ReadFileEntry",
                      R + "_FormatANSIString"]),
    Contract("P08", "rp_log.file", code_log, spec_log, PARAMS, gen=gen_log,
             stubs=show.STUBS,
             targets=[P + "ReadFileObject", P + "_ReadFileHeader", P + "_ReadFileFooter",
                      P + "_DebugPrintFileHeader", P + "_DebugPrintFileFooter"]),
]

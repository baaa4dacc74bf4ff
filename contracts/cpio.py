"""Contracts of the copy in and out (CPIO) archive format."""

from dtformats import cpio
from dtformats import errors

from contracts import show
from contracts.windows_records import cut, missing
from engine.speclib import Rec, u
from engine.verify import Bool, Choice, Contract, File, Int, Str, Writer

A = "dtformats.cpio.CPIOArchiveFile."

ODC = (("device", 6, 6), ("inode", 12, 6), ("mode", 18, 6), ("uid", 24, 6),
       ("gid", 30, 6), ("links", 36, 6), ("special", 42, 6), ("time", 48, 11),
       ("path_size", 59, 6), ("size", 65, 11))
NEW = (("inode", 6), ("mode", 14), ("uid", 22), ("gid", 30), ("links", 38), ("time", 46),
       ("path_size", 94), ("size", 54), ("major", 62), ("minor", 70),
       ("special_major", 78), ("special_minor", 86), ("checksum", 102))


def number(text, base):
    """Value of a number of text, that has to be a number and not negative."""
    try:
        value = int(text, base)
    except ValueError:
        value = -1
    if value < 0:
        raise errors.ParseError("not a number")
    return value


NAMES = ("data_offset", "data_size", "group_identifier", "inode_number",
         "modification_time", "path", "mode", "size", "user_identifier")


def code_entry(f, offset, file_format, debug, writer):
    o = cpio.CPIOArchiveFile(debug=debug, output_writer=writer)
    o.file_format = file_format
    return entry_values(o._ReadFileEntry(f, offset))


def entry_values(e):
    return (e.data_offset, e.data_size, e.group_identifier, e.inode_number,
            e.modification_time, e.path, e.mode, e.size, e.user_identifier)


def code_binary(f, offset, big, debug, writer):
    return code_entry(f, offset, "bin-big-endian" if big else "bin-little-endian",
                      debug, writer)


def code_odc(f, offset, debug, writer):
    return code_entry(f, offset, "odc", debug, writer)


def code_new(f, offset, file_format, debug, writer):
    return code_entry(f, offset, file_format, debug, writer)


def spec_binary(f, offset, big, debug, writer):
    data = f.content[offset:]
    missing(data, 26)
    order = "big" if big else "little"
    device = u(data, 2, 2, order)
    inode = u(data, 4, 2, order)
    mode = u(data, 6, 2, order)
    uid = u(data, 8, 2, order)
    gid = u(data, 10, 2, order)
    time = u(data, 16, 2, order) * 65536 + u(data, 18, 2, order)
    path_size = u(data, 20, 2, order)
    size = u(data, 22, 2, order) * 65536 + u(data, 24, 2, order)
    if debug:
        writer.WriteText(
            show.line("Signature", f"0x{u(data, 0, 2, order):04x}")
            + show.line("Device number", f"{device:d}")
            + show.line("Inode number", f"{inode:d}")
            + show.line("Mode", f"{mode:o}")
            + show.line("User identifier (UID)", f"{uid:d}")
            + show.line("Group identifier (GID)", f"{gid:d}")
            + show.line("Number of links", f"{u(data, 12, 2, order):d}")
            + show.line("Special device number", f"{u(data, 14, 2, order):d}")
            + show.line("Modification time", f"{time:d}")
            + show.line("Path size", f"{path_size:d}")
            + show.line("File size", f"{size:d}"))
    path, start, end = placed(f, offset, 26, path_size, size, 2, debug, writer)
    return (start, size, gid, inode, time, path, mode, end - offset, uid)


def spec_odc(f, offset, debug, writer):
    data = f.content[offset:]
    missing(data, 76)
    device = number(data[6:12], 8)
    inode = number(data[12:18], 8)
    mode = number(data[18:24], 8)
    uid = number(data[24:30], 8)
    gid = number(data[30:36], 8)
    links = number(data[36:42], 8)
    special = number(data[42:48], 8)
    time = number(data[48:59], 8)
    path_size = number(data[59:65], 8)
    size = number(data[65:76], 8)
    if debug:
        writer.WriteText(
            show.line("Signature", f"{data[:6]!s}")
            + show.line("Device number", f"{device:d}")
            + show.line("Inode number", f"{inode:d}")
            + show.line("Mode", f"{mode:o}")
            + show.line("User identifier (UID)", f"{uid:d}")
            + show.line("Group identifier (GID)", f"{gid:d}")
            + show.line("Number of links", f"{links:d}")
            + show.line("Special device number", f"{special:d}")
            + show.line("Modification time", f"{time:d}")
            + show.line("Path size", f"{path_size:d}")
            + show.line("File size", f"{size:d}"))
    path, start, end = placed(f, offset, 76, path_size, size, 1, debug, writer)
    return (start, size, gid, inode, time, path, mode, end - offset, uid)


def spec_new(f, offset, file_format, debug, writer):
    data = f.content[offset:]
    missing(data, 110)
    inode = number(data[6:14], 16)
    mode = number(data[14:22], 16)
    uid = number(data[22:30], 16)
    gid = number(data[30:38], 16)
    links = number(data[38:46], 16)
    time = number(data[46:54], 16)
    path_size = number(data[94:102], 16)
    size = number(data[54:62], 16)
    major = number(data[62:70], 16)
    minor = number(data[70:78], 16)
    special_major = number(data[78:86], 16)
    special_minor = number(data[86:94], 16)
    checksum = number(data[102:110], 16)
    if debug:
        writer.WriteText(
            show.line("Signature", f"{data[:6]!s}")
            + show.line("Inode number", f"{inode:d}")
            + show.line("Mode", f"{mode:o}")
            + show.line("User identifier (UID)", f"{uid:d}")
            + show.line("Group identifier (GID)", f"{gid:d}")
            + show.line("Number of links", f"{links:d}")
            + show.line("Modification time", f"{time:d}")
            + show.line("File size", f"{size:d}")
            + show.line("Device major number", f"{major:d}")
            + show.line("Device minor number", f"{minor:d}")
            + show.line("Special device major number", f"{special_major:d}")
            + show.line("Special device minor number", f"{special_minor:d}")
            + show.line("Path size", f"{path_size:d}")
            + show.line("Checksum", f"0x{checksum:08x}"))
    path, start, end = placed(f, offset, 110, path_size, size, 4, debug, writer)
    return (start, size, gid, inode, time, path, mode, end - offset, uid)


def padding(offset, alignment):
    return (alignment - offset % alignment) % alignment


def placed(f, offset, header_size, path_size, size, alignment, debug, writer):
    """The path, and where the data and the entry start and end."""
    start = offset + header_size
    data = f.content[start : start + path_size]
    missing(data, path_size)
    path = text(data).partition("\0")[0]
    start += path_size
    aligned = start + padding(start, alignment)
    end = aligned + size
    if debug:
        writer.WriteText(
            show.block("Path data", show.dump(data))
            + show.line("Path", path)
            + show.block("Path alignment padding",
                         show.dump(f.content[start:aligned])))
        if padding(end, alignment) > 0:
            writer.WriteText(show.block("File data alignment padding", show.dump(
                f.content[end : end + padding(end, alignment)])))
        writer.WriteText("\n")
    return path, aligned, end + padding(end, alignment)


def text(data):
    try:
        return data.decode("utf8")
    except UnicodeDecodeError:
        pass
    raise errors.ParseError("invalid path")


def gen_number(rng, base, width, value):
    digits = f"{value:0{width}o}" if base == 8 else f"{value:0{width}X}"
    if rng.random() < 0.02:
        digits = rng.choice([f"-{value:0{width - 1}d}"[:width], "x" * width, " " * width])
    return digits[-width:].encode()


def gen_record(rng, file_format, path, size, offset):
    values = [rng.choice([0, 1, rng.getrandbits(15)]) for _ in range(11)]
    path_size = len(path)
    if file_format.startswith("bin"):
        order = "big" if "big" in file_format else "little"
        words = [0o070707] + values[:7] + [values[7], values[8], path_size, 0, size]
        data = b"".join((word & 0xFFFF).to_bytes(2, order) for word in words)
        alignment = 2
    elif file_format == "odc":
        values = values[:8] + [path_size, size]
        data = b"070707" + b"".join(gen_number(rng, 8, 11 if i in (7, 9) else 6, value)
                                    for i, value in enumerate(values))
        alignment = 1
    else:
        values = values[:6] + [size] + values[6:10] + [path_size, values[10]]
        data = b"070701" if file_format == "newc" else b"070702"
        data += b"".join(gen_number(rng, 16, 8, value) for value in values)
        alignment = 4
    data += path
    data += bytes(padding(offset + len(data), alignment))
    data += b"q" * size
    return data + bytes(padding(offset + len(data), alignment))


FORMATS = ("bin-big-endian", "bin-little-endian", "odc", "newc", "crc")
PATHS = (b"a\0", b"bc\0", b"file.txt", b"", b"\xc3\xa9\0", b"\xe9\0", b"x\ny\0z")


def gen_entry(*formats):
    def gen(rng):
        file_format = rng.choice(formats)
        offset = rng.choice([0, 0, 1, 2, 3])
        data = bytes(offset) + gen_record(rng, file_format, rng.choice(PATHS),
                                          rng.choice([0, 1, 2, 3, 9]), offset)
        values = {"f": cut(rng, data), "offset": offset}
        if file_format.startswith("bin"):
            values["big"] = "big" in file_format
        elif file_format != "odc":
            values["file_format"] = file_format
        return values
    return gen


def code_file(f, path, debug, writer):
    o = cpio.CPIOArchiveFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)
    e = o.GetFileEntryByPath(path)
    return (o.file_format, o.size, o.FileEntryExistsByPath(path),
            e if e is None else entry_values(e))


def read_entry(f, offset, file_format, debug, writer):
    """An entry."""
    if file_format.startswith("bin"):
        values = spec_binary(f, offset, "big" in file_format, debug, writer)
    elif file_format == "odc":
        values = spec_odc(f, offset, debug, writer)
    else:
        values = spec_new(f, offset, file_format, debug, writer)
    return Rec(**dict(zip(NAMES, values)))


def format_of(data):
    if data[:2] == b"\x71\xc7" and len(data) > 2:
        return "bin-big-endian"
    if data[:2] == b"\xc7\x71" and len(data) > 2:
        return "bin-little-endian"
    if data[:6] == b"070707":
        return "odc"
    if data[:6] == b"070701":
        return "newc"
    if data[:6] == b"070702":
        return "crc"
    raise errors.ParseError("unsupported format")


def spec_file(f, path, debug, writer):
    data = f.content
    file_format = format_of(data)
    entries = {}
    offset = 0
    while offset < len(data):
        entry = read_entry(f, offset, file_format, debug, writer)
        offset += entry.size
        if entry.path == "TRAILER!!!":
            break
        if entry.path not in entries:
            entries[entry.path] = entry
    return file_format, offset, path in entries, (
        entry_values(entries[path]) if path in entries else None)


def code_list(f, path, debug, writer):
    o = cpio.CPIOArchiveFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)
    values = []
    for entry in o.GetFileEntries(path):
        values.append(entry_values(entry))
    return values


def spec_list(f, path, debug, writer):
    data = f.content
    file_format = format_of(data)
    entries = {}
    offset = 0
    while offset < len(data):
        entry = read_entry(f, offset, file_format, debug, writer)
        offset += entry.size
        if entry.path == "TRAILER!!!":
            break
        if entry.path not in entries:
            entries[entry.path] = entry
    found = []
    for key, entry in entries.items():
        if key.startswith(path):
            found.append(entry)
    values = []
    for entry in found:
        values.append(entry_values(entry))
    return values


def gen_file(rng):
    file_format = rng.choice(FORMATS)
    data = b""
    for _ in range(rng.choice([1, 1, 2, 3])):
        data += gen_record(rng, file_format, rng.choice(PATHS[:4]),
                           rng.choice([0, 1, 2, 3, 9]), len(data))
    if rng.random() < 0.7:
        data += gen_record(rng, file_format, b"TRAILER!!!\0", 0, len(data)) + bytes(3)
    return {"f": cut(rng, data), "path": rng.choice(["a", "bc", "", "file.txt"])}


ENTRY = {"f": File(), "offset": Int(0, 2 ** 40)}
SHOWN = {"debug": Bool(), "writer": Writer()}

def entry_of(interp, keys):
    """An entry is a function of the input."""
    entry = interp.ctx.app("cpio_entry", keys, "obj")
    entry.attrs.update(size=interp.ctx.app("cpio_size", keys, "int", lo=26),
                       path=interp.ctx.app("cpio_path", keys, "str"))
    return entry


def code_parts(interp, args):
    return entry_of(interp, (interp.getattr(args[1], "content"), args[2],
                             args[0].fields["file_format"]))


def spec_parts(interp, args):
    return entry_of(interp, (interp.getattr(args[0], "content"), args[1], args[2]))


READ = {
    A + "_ReadFileEntry": show.effect(
        "cpio_entry", lambda args: ((args[1], args[2], args[0].fields["file_format"]),
                                    args[0].fields["_debug"],
                                    args[0].fields["_output_writer"]), code_parts),
    "contracts.cpio.read_entry": show.effect(
        "cpio_entry", show.function_input, spec_parts),
}

CONTRACTS = [
    Contract("P11", "cpio.binary_entry", code_binary, spec_binary,
             {**ENTRY, "big": Bool(), **SHOWN}, gen=gen_entry(*FORMATS[:2]),
             stubs=show.STUBS,
             targets=[A + "_ReadFileEntry", A + "_DebugPrintFileEntry"]),
    Contract("P11", "cpio.odc_entry", code_odc, spec_odc, {**ENTRY, **SHOWN},
             gen=gen_entry("odc"), stubs=show.STUBS, targets=[A + "_ReadFileEntry"]),
    Contract("P11", "cpio.new_entry", code_new, spec_new,
             {**ENTRY, "file_format": Choice("newc", "crc"), **SHOWN},
             gen=gen_entry("newc", "crc"), stubs=show.STUBS,
             targets=[A + "_ReadFileEntry"]),
    Contract("P11", "cpio.file", code_file, spec_file,
             {"f": File(), "path": Str(), **SHOWN}, gen=gen_file,
             stubs={**show.STUBS, **READ},
             targets=[A + "ReadFileObject", A + "_ReadFileEntries",
                      A + "GetFileEntryByPath", A + "FileEntryExistsByPath"]),
    Contract("P11", "cpio.list", code_list, spec_list,
             {"f": File(), "path": Str(), **SHOWN}, gen=gen_file,
             stubs={**show.STUBS, **READ}, targets=[A + "GetFileEntries"]),
]

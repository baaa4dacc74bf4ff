"""Contracts of Windows jump list files."""

from dtformats import data_range
from dtformats import errors
from dtformats import jump_list

from contracts import show
from contracts.windows_records import cut, missing, stamp, wide, word
from engine import core, models
from engine.speclib import float_of, s, u, uuid_of
from engine.verify import Bool, Choice, Contract, File, Int, Writer

A = "dtformats.jump_list.AutomaticDestinationsFile."
C = "dtformats.jump_list.CustomDestinationsFile."
E = "dtformats.jump_list.JumpListEntry."
HERE = "contracts.jump_list."

FOOTER = b"\xab\xfb\xbf\xba"
LNK = bytes.fromhex("0114020000000000c000000000000046")


# -- automatic destinations ------------------------------------------------------------

def automatic(debug, writer):
    return jump_list.AutomaticDestinationsFile(debug=debug, output_writer=writer)


def code_header(f, position, debug, writer):
    o = automatic(debug, writer)
    f.seek(position)
    o._ReadDestListHeader(f)
    return o._format_version, f.tell()


def spec_header(f, position, debug, writer):
    data = f.content[position:]
    missing(data, 32)
    version = u(data, 0, 4)
    if debug:
        writer.WriteText(show.structure(
            show.line("Format version", f"{version:d}"),
            show.line("Number of entries", f"{u(data, 4, 4):d}"),
            show.line("Number of pinned entries", f"{u(data, 8, 4):d}"),
            show.line("Unknown1", f"{float_of(data[12:16], 'little'):f}"),
            show.line("Last entry number", f"{u(data, 16, 4):d}"),
            show.line("Unknown2", f"0x{u(data, 20, 4):08x}"),
            show.line("Last revision number", f"{u(data, 24, 4):d}"),
            show.line("Unknown3", f"0x{u(data, 28, 4):08x}")))
    if version < 1 or version > 4:
        raise errors.ParseError("unsupported version")
    return version, position + 32


def code_entry(f, offset, version, debug, writer):
    o = automatic(debug, writer)
    o._format_version = version
    return o._ReadDestListEntry(f, offset)


def spec_entry(f, offset, version, debug, writer):
    """Shows an entry, gives its size."""
    data = f.content[offset:]
    missing(data, 88)
    hostname = ascii_text(data[72:88])
    missing(data, 112)
    if version == 1:
        missing(data, 114)
        count = u(data, 112, 2)
        size = 114 + 2 * count
        missing(data, size)
        path = wide(data[114:size])
    else:
        missing(data, 130)
        count = u(data, 128, 2)
        size = 130 + 2 * count + 4
        missing(data, size - 4)
        path = wide(data[130:size - 4])
        missing(data, size)
    if debug:
        start = [
            show.line("Unknown1", f"0x{u(data, 0, 8):08x}"),
            show.line("Droid volume identifier", str(uuid_of(data[8:24], "little"))),
            show.line("Droid file identifier", str(uuid_of(data[24:40], "little"))),
            show.line("Birth droid volume identifier",
                      str(uuid_of(data[40:56], "little"))),
            show.line("Birth droid file identifier", str(uuid_of(data[56:72], "little"))),
            show.value("Hostname", hostname.rstrip("\0")),
            show.line("Entry number", f"{u(data, 88, 4):d}"),
            show.line("Unknown2", f"0x{u(data, 92, 4):08x}"),
            show.line("Unknown3", f"{float_of(data[96:100], 'little'):f}"),
            show.line("Last modification time", show.filetime_text(u(data, 100, 8))),
            show.line("Pin status", f"{s(data, 108, 4):d}")]
        middle = [show.line("Path size", f"{count:d} characters ({count * 2:d} bytes)"),
                  show.value("Path", path.rstrip("\0"))]
        if version == 1:
            writer.WriteText(show.structure(*start, *middle))
        else:
            writer.WriteText(show.structure(
                *start,
                show.line("Unknown4", f"{s(data, 112, 4):d}"),
                show.line("Unknown5", f"0x{u(data, 116, 4):08x}"),
                show.line("Unknown6", f"0x{u(data, 120, 8):08x}"),
                *middle,
                show.line("Unknown7", f"0x{u(data, size - 4, 4):08x}")))
    return size


def ascii_text(data):
    try:
        return data.decode("ascii")
    except UnicodeDecodeError:
        pass
    raise errors.ParseError("invalid characters")


class Item:
    """The stream or the storage that has it."""

    def __init__(self, f, present):
        self.f = f
        self.name = "DestList"
        self.present = present
        self.size = f.size

    def get_sub_item_by_name(self, name):
        return self.f if self.present and name == self.name else None


def code_list(f, present, debug, writer):
    automatic(debug, writer)._ReadDestList(Item(f, present))


def spec_list(f, present, debug, writer):
    if not present:
        raise errors.ParseError("no stream")
    if f.size > 0:
        version, position = spec_header(f, 0, debug, writer)
        while position < f.size:
            position += spec_entry(f, position, version, debug, writer)


def code_no_root(debug, writer):
    automatic(debug, writer)._ReadDestList(None)


def spec_no_root(debug, writer):
    raise errors.ParseError("no root item")


def size_of(interp, f, *key):
    return interp.ctx.app("dest_entry_size", (interp.getattr(f, "content"), *key), "int",
                          lo=114)


def entry_at(args):
    o = args[0].fields
    return (*args[1:3], o["_format_version"]), o["_debug"], o["_output_writer"]


ENTRY = {A + "_ReadDestListEntry": show.effect(
             "dest_entry", entry_at, lambda interp, args: size_of(
                 interp, args[1], args[2], args[0].fields["_format_version"])),
         HERE + "spec_entry": show.effect(
             "dest_entry", lambda args: (args[:3], args[3], args[4]),
             lambda interp, args: size_of(interp, *args[:3]))}


def gen_dest_header(rng):
    return (rng.choice([1, 2, 3, 4, 1, 3, 0, 5]).to_bytes(4, "little") + word(rng) * 2
            + b"\0\0\xc0\x3f" + word(rng) * 4)


def gen_dest_entry(rng, version):
    path = rng.choice([b"", b"a\0b\0", b"a\0\0\0", b"\0\xd8", b"a\0\n\0b\0"])
    data = rng.randbytes(72) + rng.choice([b"host", b"host", b"", b"\xff"]).ljust(
        16, b"\0") + word(rng) * 2 + b"\0\0\xc0\x3f" + stamp(rng) + rng.randbytes(4)
    if version > 1:
        data += rng.randbytes(16)
    data += (len(path) // 2 + (rng.random() < 0.03)).to_bytes(2, "little") + path
    return data if version == 1 else data + word(rng)


def gen_header(rng):
    head = rng.randbytes(rng.choice([0, 5]))
    return {"f": cut(rng, head + gen_dest_header(rng)), "position": len(head)}


def gen_entry(rng):
    head = rng.randbytes(rng.choice([0, 5]))
    version = rng.choice([1, 2, 3, 4])
    return {"f": cut(rng, head + gen_dest_entry(rng, version)), "offset": len(head),
            "version": version}


def gen_list(rng):
    head = gen_dest_header(rng)
    data = head + b"".join(gen_dest_entry(rng, head[0]) for _ in range(rng.choice(
        [0, 1, 2, 3])))
    return {"f": rng.choice([b""] + [data] * 10) if rng.random() < 0.8 else cut(rng, data)}


# -- custom destinations ---------------------------------------------------------------

def custom(f, debug, writer):
    o = jump_list.CustomDestinationsFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    return o


def code_category(f, offset, debug, writer):
    header, size = custom(f, debug, writer)._ReadCategoryHeader(f, offset)
    return getattr(header, "number_of_entries", 0), size, f.tell()


def spec_category(f, offset, debug, writer):
    count, size = category(f, offset, debug, writer)
    return count, size, offset + size


def category(f, offset, debug, writer):
    """Shows a category, gives the number of entries and the size."""
    data = f.content[offset:]
    missing(data, 4)
    kind = u(data, 0, 4)
    if kind == 0:
        missing(data, 6)
        length = u(data, 4, 2)
        end = 6 + 2 * length
        missing(data, end)
        name = wide(data[6:end])
        missing(data, end + 4)
        count = u(data, end, 4)
        if debug:
            writer.WriteText(show.structure(
                show.line("Category type", "0 (Custom category)"),
                show.line("Number of characters", f"{length:d}"),
                show.value("Category name", name.rstrip("\0")),
                show.line("Number of entries", f"{count:d}")))
        return count, end + 4
    if kind == 1:
        missing(data, 8)
        if debug:
            writer.WriteText(show.structure(
                show.line("Category type", "1 (Known category)"),
                show.line("Category identifier", f"{u(data, 4, 4):d}")))
        return 0, 8
    if kind == 2:
        missing(data, 8)
        if debug:
            writer.WriteText(show.structure(
                show.line("Category type", "2 (User tasks)"),
                show.line("Number of entries", f"{u(data, 4, 4):d}")))
        return u(data, 4, 4), 8
    raise errors.ParseError("unsupported category type")


def code_lnk(f, offset, size, debug, writer):
    data = data_range.DataRange(f, data_offset=offset, data_size=size)
    entry = custom(f, debug, writer)._ReadJumpListEntry(data, offset)
    return entry.identifier, data.tell()


def spec_lnk(f, offset, size, debug, writer):
    entry, end = lnk_entry(f, offset, size, debug, writer)
    return entry.identifier, end


def lnk_entry(f, offset, size, debug, writer):
    """Reads an entry, which is a LNK file, gives the entry and its size."""
    if debug:
        writer.WriteText(f"Reading LNK file at offset: 0x{offset:08x}\n")
    data = data_range.DataRange(f, data_offset=offset, data_size=size)
    entry = jump_list.JumpListEntry(f"0x{offset:08x}")
    end = lnk_size(entry, data)
    if end < 0:
        raise errors.ParseError("not a LNK file")
    if debug:
        writer.WriteText("\n")
    return entry, end


def lnk_size(entry, data):
    """The size of a LNK file, less than 0 if it cannot be read."""
    try:
        entry.ReadFileObject(data)
    except OSError:
        return -1
    return data.tell()


def code_custom(f, debug, writer):
    o = custom(f, debug, writer)
    o.ReadFileObject(f)
    return [entry.identifier for entry in o.GetJumpListEntries()]


def spec_custom(f, debug, writer):
    data = f.content
    missing(data, 12)
    if u(data, 0, 4) != 2:
        raise errors.ParseError("unsupported version")
    count = u(data, 4, 4)
    if debug:
        writer.WriteText(show.structure(
            show.line("Format version", "2"),
            show.line("Number of categories", f"{count:d}"),
            show.line("Unknown1", f"0x{u(data, 8, 4):08x}")))
    entries = []
    position = 12
    for _ in range(count):
        number, size = category(f, position, debug, writer)
        position += size
        for _ in range(number):
            if f.size - position < 16:
                break
            guid = data[position:position + 16]
            if guid == LNK:
                position += 16
                entry, size = lnk_entry(f, position, f.size - position, debug, writer)
                entries.append(entry)
                position += size
            elif guid[:4] != FOOTER:
                raise errors.ParseError("unsupported entry")
        rest = data[position:]
        missing(rest, 4)
        if debug:
            writer.WriteText(show.structure(
                show.block("Signature", show.dump(rest[:4]))))
        if rest[:4] != FOOTER:
            raise errors.ParseError("invalid footer")
        position += 4
    if debug and position < f.size:
        writer.WriteText(show.block("Trailing data", show.dump(data[position:])))
    return [entry.identifier for entry in entries]


def category_of(interp, f, offset):
    ctx = interp.ctx
    key = interp.getattr(f, "content"), offset
    size = ctx.app("category_size", key, "int", lo=8)
    return ctx.app("category_entries", key, "int", lo=0, hi=2**32 - 1), size


def after_category(interp, args):
    count, size = category_of(interp, args[1], args[2])
    args[1].pos = core.mkint(models.zi(args[2]) + size.e)
    known = interp.ctx.app("category_known", (
        interp.getattr(args[1], "content"), args[2]), "bool")
    if interp.ctx.decide(core.mkbool(count.e == 0)) and interp.ctx.decide(known):
        return core.SObj(object, {}), size
    return core.SObj(object, {"number_of_entries": count}), size


def entry_of(interp, f, offset, size):
    ctx = interp.ctx
    key = interp.getattr(f, "content"), offset, size
    return ctx.app("lnk_entry", key, "obj"), ctx.app("lnk_size", key, "int", lo=0)


def range_key(data):
    fields = data.fields
    return fields["_file_object"], fields["data_offset"], fields["data_size"]


def lnk_at(args):
    f, offset, size = range_key(args[1])
    return (f, args[2], size, offset), args[0].fields["_debug"], args[0].fields[
        "_output_writer"]


def after_lnk(interp, args):
    entry, size = entry_of(interp, *range_key(args[1]))
    args[1].fields["_current_offset"] = size
    return entry


def read_lnk(interp, args, kwargs):
    """pylnk either reads the LNK file or raises an OSError."""
    f, offset, size = range_key(args[1])
    key = interp.getattr(f, "content"), offset, size
    if not interp.ctx.decide(interp.ctx.app("lnk_ok", key, "bool")):
        interp.throw(OSError)
    args[1].fields["_current_offset"] = interp.ctx.app("lnk_size", key, "int", lo=0)


def read_lnk_size(interp, args, kwargs):
    f, offset, size = range_key(args[1])
    key = interp.getattr(f, "content"), offset, size
    if not interp.ctx.decide(interp.ctx.app("lnk_ok", key, "bool")):
        return -1
    return interp.ctx.app("lnk_size", key, "int", lo=0)


LNK_FILE = {E + "ReadFileObject": read_lnk, HERE + "lnk_size": read_lnk_size}
ENTRIES = {
    C + "_ReadCategoryHeader": show.effect("category", lambda args: (
        args[1:3], args[0].fields["_debug"], args[0].fields["_output_writer"]),
        after_category),
    HERE + "category": show.effect("category", lambda args: (
        args[:2], args[2], args[3]), lambda interp, args: category_of(
            interp, args[0], args[1])),
    C + "_ReadJumpListEntry": show.effect("lnk", lnk_at, after_lnk),
    HERE + "lnk_entry": show.effect("lnk", lambda args: (
        (*args[:3], args[1]), args[3], args[4]), lambda interp, args: entry_of(
            interp, *args[:3]))}


def gen_category_data(rng, count):
    kind = rng.choice([0, 0, 2, 2, 1] + [3] * (rng.random() < 0.1))
    data = kind.to_bytes(4, "little")
    if kind == 0:
        name = rng.choice([b"", b"a\0b\0", b"a\0\0\0"] + [b"\0\xd8"] * (
            rng.random() < 0.1))
        data += (len(name) // 2).to_bytes(2, "little") + name
    if kind == 1:
        return data + word(rng), 0
    return data + count.to_bytes(4, "little"), count


def gen_category(rng):
    head = rng.randbytes(rng.choice([0, 5]))
    return {"f": cut(rng, head + gen_category_data(rng, 2)[0]), "offset": len(head)}


def lnk_data(rng):
    data = (76).to_bytes(4, "little") + LNK + bytes(56)
    return rng.choice([data] * 8 + [b"abc"])


def gen_lnk(rng):
    head = rng.randbytes(rng.choice([0, 5]))
    data = lnk_data(rng)
    return {"f": head + data + b"xyz", "offset": len(head), "size": len(data) + rng.choice(
        [0, 3])}


def gen_custom(rng):
    data = rng.choice([b"\2\0\0\0"] * 15 + [b"\1\0\0\0"])
    categories = b""
    number = rng.choice([0, 1, 2])
    for _ in range(number):
        part, count = gen_category_data(rng, rng.choice([0, 1, 2, 3]))
        categories += part
        for _ in range(count):
            entry = LNK + lnk_data(rng)
            categories += rng.choice([entry] * 9 + [FOOTER + bytes(12), bytes(16)])
        categories += rng.choice([FOOTER] * 9 + [b"abcd"])
    data += number.to_bytes(4, "little") + word(rng) + categories
    data += rng.choice([b"", b"", b"trailing"])
    return {"f": data if rng.random() < 0.8 else cut(rng, data)}


PYLNK = ["pylnk reads a LNK file from a range of a file, determined by its data and size, "
         "or raises an OSError"]

CONTRACTS = [
    Contract("P19", "jump.header", code_header, spec_header,
             {"f": File(), "position": Int(0), "debug": Bool(), "writer": Writer()},
             gen=gen_header, stubs=show.STUBS, targets=[A + "_ReadDestListHeader"]),
    Contract("P19", "jump.entry", code_entry, spec_entry,
             {"f": File(), "offset": Int(0), "version": Int(1, 4), "debug": Bool(),
              "writer": Writer()}, gen=gen_entry, stubs=show.STUBS,
             targets=[A + "_ReadDestListEntry", A + "_FormatIntegerAsPathSize"]),
    Contract("P19", "jump.list", code_list, spec_list,
             {"f": File(), "present": Bool(), "debug": Bool(), "writer": Writer()},
             gen=gen_list, stubs={**show.STUBS, **ENTRY}, targets=[A + "_ReadDestList"]),
    Contract("P19", "jump.no_root", code_no_root, spec_no_root,
             {"debug": Bool(), "writer": Writer()}, targets=[A + "_ReadDestList"]),
    Contract("P19", "jump.category", code_category, spec_category,
             {"f": File(), "offset": Int(0), "debug": Bool(), "writer": Writer()},
             gen=gen_category, stubs=show.STUBS,
             targets=[C + "_ReadCategoryHeader", C + "_FormatIntegerAsCategoryType"]),
    Contract("P19", "jump.lnk", code_lnk, spec_lnk,
             {"f": File(), "offset": Int(0), "size": Int(0), "debug": Bool(),
              "writer": Writer()}, gen=gen_lnk, stubs={**show.STUBS, **LNK_FILE},
             assumptions=PYLNK, targets=[C + "_ReadJumpListEntry"]),
    Contract("P19", "jump.custom", code_custom, spec_custom,
             {"f": File(), "debug": Bool(), "writer": Writer()}, gen=gen_custom,
             stubs={**show.STUBS, **ENTRIES}, assumptions=PYLNK,
             targets=[C + n for n in ("ReadFileObject", "_ReadFileHeader",
                                      "_ReadCategoryFooter", "GetJumpListEntries")]),
]

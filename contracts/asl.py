"""Contracts of the Apple System Log format."""

from dtformats import asl
from dtformats import errors

from contracts import show
from contracts.windows_records import cut, missing, word
from engine import models
from engine.speclib import s, u
from engine.verify import Bool, Contract, File, Int, Writer

A = "dtformats.asl.AppleSystemLogFile."
HERE = "contracts.asl."
RECORD_SIZE = 98


def part(f, offset, size):
    if offset < 0 or size < 0:
        raise errors.ParseError("invalid offset or size")
    data = f.content[offset : offset + size]
    missing(data, size)
    return data


def code_string(f, offset, debug, writer):
    o = asl.AppleSystemLogFile(debug=debug, output_writer=writer)
    return o._ReadRecordString(f, offset)


def spec_string(f, offset, debug, writer):
    if offset == 0:
        return None
    if offset >= 2 ** 63:
        return spec_inline(offset, debug, writer)
    data = f.content[offset:]
    missing(data, 6)
    size = u(data, 2, 4, "big")
    missing(data, 6 + size)
    try:
        text = data[6 : 6 + size].decode("utf-8")
    except UnicodeDecodeError:
        raise errors.ParseError("invalid string")
    if debug:
        writer.WriteText(show.structure(
            show.line("Unknown1", f"0x{u(data, 0, 2, 'big'):08x}"),
            show.line("String size", f"{size:d}"),
            show.value("String", text.rstrip("\0"))))
    return text.rstrip("\0")


def spec_inline(offset, debug, writer):
    """A string of at most 7 bytes that is stored in place of its offset."""
    if debug:
        writer.WriteText(show.line("Inline string flag", f"0x{offset >> 60:01x}"))
    size = offset >> 56 & 0x0F
    if offset >> 60 != 8 or size >= 8:
        raise errors.ParseError("invalid inline string")
    data = bytes([offset >> shift & 0xFF for shift in (48, 40, 32, 24, 16, 8, 0)])
    try:
        text = data[:size].decode("utf-8")
    except UnicodeDecodeError:
        raise errors.ParseError("invalid string")
    if debug:
        writer.WriteText(show.line("Inline string size", f"{size:d}")
                         + show.line("Inline string", text) + "\n")
    return text


def code_record(f, position, offset, debug, writer):
    o = asl.AppleSystemLogFile(debug=debug, output_writer=writer)
    f.seek(position)
    next_offset = o._ReadRecord(f, offset)
    return next_offset, f.tell()


def spec_record(f, position, offset, debug, writer):
    strings = part(f, position, offset - position)
    if debug:
        writer.WriteText(show.block("Record strings data", show.dump(strings)))
    data = part(f, offset, RECORD_SIZE)
    if debug:
        writer.WriteText(show.structure(
            show.line("Unknown1", f"0x{u(data, 0, 2, 'big'):08x}"),
            show.line("Data size", f"{u(data, 2, 4, 'big'):d}"),
            show.line("Next record offset", f"0x{u(data, 6, 8, 'big'):08x}"),
            show.line("Message identifier", f"0x{u(data, 14, 8, 'big'):08x}"),
            show.line("Written time", show.posix_text(u(data, 22, 8, "big"))),
            show.line("Written time nanoseconds", f"{u(data, 30, 4, 'big'):d}"),
            show.line("Alert level", f"{u(data, 34, 2, 'big'):d}"),
            show.line("Flags", f"0x{u(data, 36, 2, 'big'):04x}"),
            show.line("Process identifier (PID)", f"{u(data, 38, 4, 'big'):d}"),
            show.line("User identifier (UID)", f"{s(data, 42, 4, 'big'):d}"),
            show.line("Group identifier (GID)", f"{s(data, 46, 4, 'big'):d}"),
            show.line("Read user identifier (UID)", f"{s(data, 50, 4, 'big'):d}"),
            show.line("Read group identifier (GID)", f"{s(data, 54, 4, 'big'):d}"),
            show.line("Reference process identifier (PID)",
                      f"{u(data, 58, 8, 'big'):d}"),
            show.line("Hostname string offset", f"0x{u(data, 66, 8, 'big'):08x}"),
            show.line("Sender string offset", f"0x{u(data, 74, 8, 'big'):08x}"),
            show.line("Facility string offset", f"0x{u(data, 82, 8, 'big'):08x}"),
            show.line("Message string offset", f"0x{u(data, 90, 8, 'big'):08x}")))
    hostname = spec_string(f, u(data, 66, 8, "big"), debug, writer)
    sender = spec_string(f, u(data, 74, 8, "big"), debug, writer)
    facility = spec_string(f, u(data, 82, 8, "big"), debug, writer)
    message = spec_string(f, u(data, 90, 8, "big"), debug, writer)
    size = u(data, 2, 4, "big") + 6 - RECORD_SIZE
    if size % 8 != 0:
        raise errors.ParseError("invalid size")
    start = offset + RECORD_SIZE
    additional = part(f, start, size)
    if debug:
        writer.WriteText(show.block("Record additional data", show.dump(additional)))
    names = {}
    index = 0
    while index < size - 8:
        if debug:
            writer.WriteText(show.structure(
                show.line("Name string offset", f"0x{u(additional, index, 8, 'big'):08x}"),
                show.line("Value string offset",
                          f"0x{u(additional, index + 8, 8, 'big'):08x}")))
        name = spec_string(f, u(additional, index, 8, "big"), debug, writer)
        value = spec_string(f, u(additional, index + 8, 8, "big"), debug, writer)
        if name is not None:
            names[name] = value
        index += 16
    if debug:
        writer.WriteText(show.line("Hostname", hostname) + show.line("Sender", sender)
                         + show.line("Facility", facility)
                         + show.line("Message", message))
        for name, value in names.items():
            writer.WriteText(show.line(name, value))
        writer.WriteText("\n")
    return u(data, 6, 8, "big"), start + size


def code_file(f, debug, writer):
    o = asl.AppleSystemLogFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)


def spec_file(f, debug, writer):
    data = part(f, 0, 80)
    if data[:12] != b"ASL DB\0\0\0\0\0\0":
        raise errors.ParseError("unsupported signature")
    if debug:
        writer.WriteText(show.structure(
            show.value("Signature", show.stream(data[:12])),
            show.line("Format version", f"{u(data, 12, 4, 'big'):d}"),
            show.line("First log entry offset", f"0x{u(data, 16, 8, 'big'):08x}"),
            show.line("Creation time", show.posix_text(u(data, 24, 8, "big"))),
            show.line("Cache size", f"{u(data, 32, 4, 'big'):d}"),
            show.line("Last log entry offset", f"0x{u(data, 36, 8, 'big'):08x}"),
            show.block("Unknown1", show.dump(data[44:]))))
    offset = u(data, 16, 8, "big")
    if offset > 0:
        position = 80
        while offset < len(f.content):
            offset, position = spec_record(f, position, offset, debug, writer)
            if offset == 0:
                break


def gen_string(rng):
    text = rng.choice([b"", b"a", b"text\0", b"\0\0", b"\xff", b"x\ny", "\u00e9".encode()])
    if rng.random() < 0.5:
        size = rng.choice([len(text)] * 6 + [3, 8, 12])
        return {"f": cut(rng, b""), "offset": rng.choice([8] * 9 + [9]) << 60 | size << 56
                | int.from_bytes(text.ljust(7, b"\0")[:7], "big")}
    size = rng.choice([len(text)] * 9 + [len(text) + 1])
    return {"f": cut(rng, bytes(5) + size.to_bytes(4, "big") + text),
            "offset": rng.choice([3] * 9 + [0, 5, 99])}


def inline(rng):
    return rng.choice([0, 0x8161 << 48, 0x8162 << 48, 0x826100 << 40, 80, 80, 87, 2 ** 63,
                       0x88 << 56])


def gen_records(rng, offset, count):
    data = b""
    for index in range(count):
        number = rng.choice([0, 0, 1, 1, 2, 3])
        size = RECORD_SIZE - 6 + 16 * number + rng.choice([8] * 19 + [0, 4, -16])
        gap = rng.choice([0, 0, 3])
        following = offset + gap + size + 6 + rng.choice([0] * 8 + [3, -9])
        if index == count - 1 and rng.random() < 0.7:
            following = 0
        data += bytes(gap) + bytes(2) + size.to_bytes(4, "big") + following.to_bytes(8, "big")
        data += word(rng, 8) + bytes(3) + (rng.getrandbits(32) * rng.getrandbits(1)).to_bytes(5, "big")
        data += word(rng)
        data += bytes(rng.getrandbits(8) * rng.getrandbits(1) for _ in range(32))
        for _ in range(4 + 2 * number):
            data += inline(rng).to_bytes(8, "big")
        data += bytes(8)
        offset = following
    return data


def gen_record(rng):
    start = bytes(80) + b"\0\0\0\0\0\1a\0\0\0\0\0\2\xc3\xa9"
    return {"f": cut(rng, start + gen_records(rng, len(start), 1)),
            "position": rng.choice([len(start)] * 3 + [80, 96]),
            "offset": rng.choice([len(start)] * 9 + [96])}


def gen_file(rng):
    data = rng.choice([b"ASL DB\0\0\0\0\0\0"] * 9 + [b"ASL DB\0\0\0\0\0\1"]) + bytes(4)
    strings = b"\0\0\0\0\0\1a\0\0\0\0\0\2\xc3\xa9"
    data += rng.choice([80 + 15] * 9 + [0, 999]).to_bytes(8, "big") + bytes(56) + strings
    return {"f": cut(rng, data + gen_records(rng, len(data), rng.choice([0, 1, 2, 3])))}


def string_after(interp, args):
    """The string is a function of the contents and the offset, None at offset 0."""
    f, offset = args[-4:-2] if not isinstance(args[1], models.SFile) else args[1:3]
    keys = (interp.getattr(f, "content"), offset)
    text = interp.ctx.app("asl_string", keys, "str")
    text.parts[0].args[0].attrs["none"] = models.eq(interp, offset, 0)
    return text


def code_string_after(interp, args):
    args[1].pos = interp.ctx.fresh_int("asl_position", lo=0).e
    return string_after(interp, args)


STRING = {
    A + "_ReadRecordString": show.effect(
        "asl_string", show.method_input, code_string_after),
    HERE + "spec_string": show.effect("asl_string", show.function_input, string_after),
}
def record_input(args):
    return [args[1], models.mkint(args[1].pos), args[2]], *show.method_input(args)[1:]


def record_results(interp, f, position, offset):
    keys = (interp.getattr(f, "content"), position, offset)
    end = interp.ctx.app("asl_end", keys, "int", lo=RECORD_SIZE)
    interp.ctx.assume(models.zi(position) <= models.zi(offset))
    interp.ctx.assume(end.e >= models.zi(offset) + RECORD_SIZE)
    interp.ctx.assume(end.e <= f.size)
    return interp.ctx.app("asl_next", keys, "int", lo=0, hi=2 ** 64 - 1), end


def record_after(interp, args):
    following, args[1].pos = record_results(
        interp, args[1], models.mkint(args[1].pos), args[2])
    return following


RECORD = {
    A + "_ReadRecord": show.effect("asl_record", record_input, record_after),
    HERE + "spec_record": show.effect(
        "asl_record", show.function_input,
        lambda interp, args: record_results(interp, *args[:3])),
}
SHOWN = {"debug": Bool(), "writer": Writer()}

CONTRACTS = [
    Contract("P13", "asl.string", code_string, spec_string,
             {"f": File(), "offset": Int(0, 2 ** 64 - 1), **SHOWN}, gen=gen_string,
             stubs=show.STUBS, targets=[A + "_ReadRecordString"]),
    Contract("P13", "asl.record", code_record, spec_record,
             {"f": File(), "position": Int(0, 2 ** 64), "offset": Int(0, 2 ** 64 - 1),
              **SHOWN}, gen=gen_record, stubs={**show.STUBS, **STRING},
             targets=[A + "_ReadRecord", A + "_ReadRecordExtraField"]),
    Contract("P13", "asl.file", code_file, spec_file, {"f": File(), **SHOWN},
             gen=gen_file, stubs={**show.STUBS, **RECORD},
             targets=[A + "ReadFileObject", A + "_ReadFileHeader"]),
]

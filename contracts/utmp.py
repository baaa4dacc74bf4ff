"""Contracts of the utmp formats."""

from dtformats import errors
from dtformats import utmp

from contracts import show
from engine.speclib import s, u
from engine.verify import Bool, Bytes, Contract, File, Writer

L = "dtformats.utmp.LinuxLibc6UtmpFile."
M = "dtformats.utmp.MacOSXUtmpxFile."

LINUX_TYPES = {
    0: "EMPTY", 1: "RUN_LVL", 2: "BOOT_TIME", 3: "NEW_TIME", 4: "OLD_TIME",
    5: "INIT_PROCESS", 6: "LOGIN_PROCESS", 7: "USER_PROCESS", 8: "DEAD_PROCESS",
    9: "ACCOUNTING"}

MAC_TYPES = {
    0: "EMPTY", 1: "RUN_LVL", 2: "BOOT_TIME", 3: "OLD_TIME", 4: "NEW_TIME",
    5: "INIT_PROCESS", 6: "LOGIN_PROCESS", 7: "USER_PROCESS", 8: "DEAD_PROCESS",
    9: "ACCOUNTING", 10: "SIGNATURE", 11: "SHUTDOWN_TIME"}


def decoded(data):
    try:
        return data.decode("utf-8").rstrip("\0")
    except UnicodeDecodeError:
        return "INVALID"


def code_decode(data):
    return (utmp.LinuxLibc6UtmpFile()._DecodeString(data),
            utmp.MacOSXUtmpxFile()._DecodeString(data))


def spec_decode(data):
    return decoded(data), decoded(data)


def text_of(data):
    """A string of a fixed size field."""
    return decoded(data.replace(b"\0", b""))


def code_linux(f, debug, writer):
    o = utmp.LinuxLibc6UtmpFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)


def address(entry):
    if entry[352:364] == bytes(12):
        return f"{entry[348]:d}.{entry[349]:d}.{entry[350]:d}.{entry[351]:d}"
    return ":".join([f"{entry[348 + k] * 256 + entry[349 + k]:04x}"
                     for k in (0, 2, 4, 6, 8, 10, 12, 14)])


def show_linux(entry):
    kind = s(entry, 0, 4)
    return "".join([
        show.line("Type of login", f"0x{kind:08x} ({LINUX_TYPES.get(kind, 'UNKNOWN')})"),
        show.line("PID", f"{u(entry, 4, 4):d}"),
        show.line("Terminal", text_of(entry[8:40])),
        show.line("Terminal ID", f"{u(entry, 40, 4):d}"),
        show.line("Username", text_of(entry[44:76])),
        show.line("Hostname", text_of(entry[76:332])),
        show.line("Termination status", f"0x{s(entry, 332, 2):04x}"),
        show.line("Exit status", f"0x{s(entry, 334, 2):04x}"),
        show.line("Session", f"{s(entry, 336, 4):d}"),
        show.line("Timestamp", show.posix_text(s(entry, 340, 4))),
        show.line("Microseconds", f"{s(entry, 344, 4):d}"),
        show.line("IP address", address(entry)),
        show.block("Unknown1", show.dump(entry[364:384]))])


def spec_linux(f, debug, writer):
    data = f.content
    offset = 0
    while offset < len(data):
        entry = data[offset : offset + 384]
        if len(entry) < 384:
            raise errors.ParseError("missing data")
        if debug:
            writer.WriteText(show_linux(entry))
        offset += 384


def code_mac(f, debug, writer):
    o = utmp.MacOSXUtmpxFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)


def show_mac(entry):
    kind = s(entry, 296, 2)
    return "".join([
        show.line("Username", text_of(entry[:256])),
        show.line("Terminal ID", f"{u(entry, 256, 4):d}"),
        show.line("Terminal", text_of(entry[260:292])),
        show.line("PID", f"{u(entry, 292, 4):d}"),
        show.line("Type of login", f"0x{kind:04x} ({MAC_TYPES.get(kind, 'UNKNOWN')})"),
        show.line("Unknown1", f"0x{s(entry, 298, 2):04x}"),
        show.line("Timestamp", show.posix_text(s(entry, 300, 4))),
        show.line("Microseconds", f"{s(entry, 304, 4):d}"),
        show.line("Hostname", text_of(entry[308:564])),
        show.block("Unknown2", show.dump(entry[564:628]))])


def spec_mac(f, debug, writer):
    data = f.content
    entry = data[:628]
    if len(entry) < 628:
        raise errors.ParseError("missing data")
    if debug:
        writer.WriteText(show_mac(entry))
    if entry[:11] != b"utmpx-1.00\0" or s(entry, 296, 2) != 10:
        raise errors.ParseError("unsupported header")
    offset = 628
    while offset < len(data):
        entry = data[offset : offset + 628]
        if len(entry) < 628:
            raise errors.ParseError("missing data")
        if debug:
            writer.WriteText(show_mac(entry))
        offset += 628


def field(rng, size):
    text = rng.choice([b"", b"root", b"tty\xc3\xa9", b"\xff", b"a\0b", b"x" * size])
    return text[:size].ljust(size, b"\0")


def number(rng, size):
    return rng.choice([0, 1, 5, 10, 11, 255, 256, (1 << (8 * size - 1)), (
        1 << (8 * size)) - 1, rng.getrandbits(8 * size)]).to_bytes(size, "little")


def gen_linux(rng):
    data = b""
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        address = rng.choice([b"\x7f\0\0\1" + bytes(12), bytes(range(16)),
                              bytes(4) + b"\1" + bytes(11), bytes(15) + b"\1"])
        data += (rng.randint(0, 11).to_bytes(4, "little") + number(rng, 4)
                 + field(rng, 32) + number(rng, 4) + field(rng, 32) + field(rng, 256)
                 + number(rng, 2) + number(rng, 2) + number(rng, 4) + number(rng, 4)
                 + number(rng, 4) + address + field(rng, 20))
    return {"f": data[: len(data) - rng.choice([0, 0, 0, 1, 380])]}


def gen_mac(rng):
    data = b""
    for k in range(rng.choice([0, 1, 1, 2, 3])):
        name = field(rng, 256)
        kind = rng.randint(0, 12)
        if k == 0 and rng.random() < 0.9:
            name = b"utmpx-1.00\0".ljust(256, b"\0")
            kind = rng.choice([10, 10, 10, 9])
        data += (name + number(rng, 4) + field(rng, 32) + number(rng, 4)
                 + kind.to_bytes(2, "little") + number(rng, 2) + number(rng, 4)
                 + number(rng, 4) + field(rng, 256) + field(rng, 64))
    return {"f": data[: len(data) - rng.choice([0, 0, 0, 1, 620])]}


PARAMS = {"f": File(), "debug": Bool(), "writer": Writer()}

STUBS = {**show.STUBS, L + "_DecodeString": show.pure("utmp_string"),
         M + "_DecodeString": show.pure("utmp_string"),
         "contracts.utmp.decoded": show.pure("utmp_string")}

CONTRACTS = [
    Contract("P07", "utmp.strings", code_decode, spec_decode, {"data": Bytes()},
             gen=lambda rng: {"data": field(rng, 6)},
             targets=[L + "_DecodeString", M + "_DecodeString"]),
    Contract("P07", "utmp.linux", code_linux, spec_linux, PARAMS, gen=gen_linux,
             stubs=STUBS,
             targets=[L + "ReadFileObject", L + "_ReadEntries", L + "_DebugPrintEntry"]),
    Contract("P07", "utmp.macos", code_mac, spec_mac, PARAMS, gen=gen_mac,
             stubs=STUBS,
             targets=[M + "ReadFileObject", M + "_ReadEntries", M + "_DebugPrintEntry"]),
]

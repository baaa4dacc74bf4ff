"""Contracts of the Basic Security Module (BSM) event auditing file format."""

from dtformats import bsm
from dtformats import errors

from contracts import show
from contracts.bsm_events import EVENTS
from contracts.windows_records import cut, missing, word
from engine import core, models
from engine.speclib import find_terminator, s, u
from engine.verify import Bool, Contract, File, Int, Writer

B = "dtformats.bsm.BSMEventAuditingFile."
HERE = "contracts.bsm."


def code_event_type(value):
    return bsm.BSMEventAuditingFile()._FormatIntegerAsEventType(value)


def spec_event_type(value):
    return event_type(value)


def event_type(value):
    return f"0x{value:04x} ({EVENTS.get(value, 'UNKNOWN')})"


def be(data, offset, size):
    return u(data, offset, size, "big")


def ascii_text(data):
    try:
        return data.decode("ascii")
    except UnicodeDecodeError:
        pass
    raise errors.ParseError("invalid characters")


def address(data):
    """Text of an IPv4 or IPv6 address."""
    if len(data) == 4:
        return f"{data[0]:d}.{data[1]:d}.{data[2]:d}.{data[3]:d}"
    return (f"{be(data, 0, 2):04x}:{be(data, 2, 2):04x}:{be(data, 4, 2):04x}:"
            f"{be(data, 6, 2):04x}:{be(data, 8, 2):04x}:{be(data, 10, 2):04x}:"
            f"{be(data, 12, 2):04x}:{be(data, 14, 2):04x}")


def net_type(data, offset, size):
    """The size of an address, which is followed by the address."""
    value = be(data, offset, size)
    if value == 4:
        return 4
    if value == 16:
        return 16
    raise errors.ParseError("unsupported net type")


def code_token(f, offset, debug, writer):
    o = bsm.BSMEventAuditingFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    f.seek(offset)
    token = o._ReadToken(f, offset)
    if token.token_type in (0x14, 0x15, 0x74, 0x79):
        return f.tell(), token.token_type, token.record_size, token.format_version
    if token.token_type == 0x13:
        return f.tell(), token.token_type, token.record_size
    return f.tell(), token.token_type


def only(kinds):
    """The code for some of the types of tokens."""
    low, high = kinds

    def code(f, offset, debug, writer):
        if offset < f.size and not low <= f.content[offset] <= high:
            return None
        return code_token(f, offset, debug, writer)

    def spec(f, offset, debug, writer):
        if offset < f.size and not low <= f.content[offset] <= high:
            return None
        return spec_token(f, offset, debug, writer)
    return code, spec


def spec_token(f, offset, debug, writer):
    """Shows a token, gives where it ends and the values that records depend on."""
    data = f.content[offset:]
    missing(data, 1)
    kind = data[0]
    shown = show.line("Token type", f"0x{kind:02x}")
    if kind == 0x11:
        missing(data, 11)
        size = 11 + be(data, 9, 2)
        missing(data, size)
        name = ascii_text(data[11:size])
        if debug:
            writer.WriteText(show.structure(
                shown,
                show.line("Timestamp", show.posix_text(be(data, 1, 4))),
                show.line("Microseconds", f"{be(data, 5, 4):d}"),
                show.line("Name size", f"{be(data, 9, 2):d}"),
                show.value("Name", name.rstrip("\0"))))
    elif kind == 0x13:
        missing(data, 7)
        if be(data, 1, 2) != 0xb105:
            raise errors.ParseError("invalid signature")
        if debug:
            writer.WriteText(show.structure(
                shown,
                show.line("Signature", f"0x{be(data, 1, 2):04x}"),
                show.line("Record size", f"{be(data, 3, 4):d}")))
        return offset + 7, kind, be(data, 3, 4)
    elif kind in (0x14, 0x74):
        wide = 4
        if kind == 0x74:
            wide = 8
        size = 10 + 2 * wide
        missing(data, size)
        if debug:
            writer.WriteText(show.structure(
                shown,
                show.line("Record size", f"{be(data, 1, 4):d}"),
                show.line("Format version", f"{be(data, 5, 1):d}"),
                show.line("Event type", event_type(be(data, 6, 2))),
                show.line("Modifier", f"0x{be(data, 8, 2):04x}"),
                show.line("Timestamp", show.posix_text(be(data, 10, wide))),
                show.line("Microseconds", f"{be(data, 10 + wide, wide):d}")))
        return offset + size, kind, be(data, 1, 4), be(data, 5, 1)
    elif kind in (0x15, 0x79):
        wide = 4
        if kind == 0x79:
            wide = 8
        missing(data, 14)
        net = net_type(data, 10, 4)
        start = 14 + net
        size = start + 2 * wide
        missing(data, size)
        if debug:
            writer.WriteText(show.structure(
                shown,
                show.line("Record size", f"{be(data, 1, 4):d}"),
                show.line("Format version", f"{be(data, 5, 1):d}"),
                show.line("Event type", event_type(be(data, 6, 2))),
                show.line("Modifier", f"0x{be(data, 8, 2):04x}"),
                show.line("Net type", f"{net:d}"),
                show.line("IP address", address(data[14:14 + net])),
                show.line("Timestamp", show.posix_text(be(data, start, wide))),
                show.line("Microseconds", f"{be(data, start + wide, wide):d}")))
        return offset + size, kind, be(data, 1, 4), be(data, 5, 1)
    elif kind == 0x21:
        missing(data, 4)
        element = be(data, 2, 1)
        if element > 3:
            raise errors.ParseError("unsupported data type")
        size = 4 + be(data, 3, 1) * [1, 2, 4, 8][element]
        missing(data, size)
        if debug:
            writer.WriteText(show.structure(
                shown,
                show.line("Data format", f"0x{be(data, 1, 1):02x}"),
                show.line("Element data type", f"0x{element:02x}"),
                show.line("Number of elements", f"{be(data, 3, 1):d}"),
                show.block("Data", show.dump(data[4:size]))))
    elif kind == 0x22:
        size = 6
        missing(data, size)
        if debug:
            writer.WriteText(show.structure(
                shown,
                show.line("Object type", f"0x{be(data, 1, 1):02x}"),
                show.line("Object identifier", f"0x{be(data, 2, 4):08x}")))
    elif kind in (0x24, 0x26, 0x75, 0x77):
        wide = 4
        if kind in (0x75, 0x77):
            wide = 8
        size = 33 + wide
        missing(data, size)
        if debug:
            writer.WriteText(show.structure(
                shown, *subject_lines(data, wide),
                show.line("IP address", address(data[size - 4:size]))))
    elif kind in (0x7a, 0x7b, 0x7c, 0x7d):
        wide = 4
        if kind in (0x7c, 0x7d):
            wide = 8
        missing(data, 33 + wide)
        net = net_type(data, 29 + wide, 4)
        size = 33 + wide + net
        missing(data, size)
        if debug:
            writer.WriteText(show.structure(
                shown, *subject_lines(data, wide),
                show.line("Net type", f"{net:d}"),
                show.line("IP address", address(data[size - net:size]))))
    elif kind in (0x23, 0x28, 0x60):
        missing(data, 3)
        size = 3 + be(data, 1, 2)
        missing(data, size)
        text = ascii_text(data[3:size]).rstrip("\0")
        label = "Path"
        if kind == 0x28:
            label = "Text"
        elif kind == 0x60:
            label = "Name"
        if debug:
            writer.WriteText(show.structure(
                shown, show.line(label + " size", f"{be(data, 1, 2):d}"),
                show.value(label, text)))
    elif kind in (0x27, 0x72, 0x52):
        status = 1
        if kind == 0x52:
            status = 4
        wide = 4
        if kind == 0x72:
            wide = 8
        size = 1 + status + wide
        missing(data, size)
        if debug:
            writer.WriteText(show.structure(
                shown, show.line("Status", f"0x{be(data, 1, status):08x}"),
                show.line("Return value", f"0x{be(data, 1 + status, wide):08x}")))
    elif kind == 0x29:
        missing(data, 3)
        size = 3 + be(data, 1, 2)
        missing(data, size)
        if debug:
            writer.WriteText(show.structure(
                shown, show.line("Data size", f"{be(data, 1, 2):d}"),
                show.block("Data", show.dump(data[3:size]))))
    elif kind == 0x2a:
        size = 5
        missing(data, size)
        if debug:
            writer.WriteText(show.structure(
                shown, show.line("IP address", address(data[1:5]))))
    elif kind == 0x2b:
        size = 21
        missing(data, size)
        if debug:
            writer.WriteText(show.structure(
                shown,
                show.line("Source IP address", address(data[13:17])),
                show.line("Destination IP address", address(data[17:21]))))
    elif kind in (0x2c, 0x2f):
        size, label = 5, "Sequence number"
        if kind == 0x2c:
            size, label = 3, "Port number"
        missing(data, size)
        if debug:
            writer.WriteText(show.structure(
                shown, show.line(label, f"{be(data, 1, size - 1):d}")))
    elif kind in (0x2d, 0x71):
        wide = 4
        if kind == 0x71:
            wide = 8
        missing(data, 4 + wide)
        size = 4 + wide + be(data, 2 + wide, 2)
        missing(data, size)
        text = ascii_text(data[4 + wide:size]).rstrip("\0")
        if debug:
            writer.WriteText(show.structure(
                shown,
                show.line("Argument index", f"{be(data, 1, 1):d}"),
                show.line("Argument name", f"0x{be(data, 2, wide):08x}"),
                show.line("Argument value size", f"{be(data, 2 + wide, 2):d}"),
                show.value("Argument value", text)))
    elif kind == 0x32:
        size = 29
        missing(data, size)
        if debug:
            writer.WriteText(show.structure(
                shown,
                show.line("User identifier (UID)", f"{be(data, 1, 4):d}"),
                show.line("Group identifier (GID)", f"{be(data, 5, 4):d}"),
                show.line("Creator user identifier (UID)", f"{be(data, 9, 4):d}"),
                show.line("Creator group identifier (GID)", f"{be(data, 13, 4):d}"),
                show.line("Unknown1", f"0x{be(data, 17, 2):04x}"),
                show.line("Access mode", f"0x{be(data, 19, 2):04x}"),
                show.line("Unknown2", f"0x{be(data, 21, 2):04x}"),
                show.line("Slot sequence number", f"{be(data, 23, 2):d}"),
                show.line("Unknown3", f"0x{be(data, 25, 2):04x}"),
                show.line("Key", f"0x{be(data, 27, 2):04x}")))
    elif kind in (0x34, 0x3b):
        missing(data, 5)
        count = be(data, 1, 4)
        size = 5 + 4 * count
        missing(data, size)
        if debug:
            text = ", ".join([f"{be(data, 5 + 4 * i, 4):d}" for i in range(count)])
            writer.WriteText(show.structure(
                shown, show.line("Number of groups", f"{count:d}"),
                show.placed("Groups", text, False)))
    elif kind in (0x3c, 0x3d):
        missing(data, 5)
        count = be(data, 1, 4)
        size = 5
        strings = []
        for _ in range(count):
            rest = data[size:]
            end = find_terminator(rest, b"\0", 1)
            if end < 0:
                raise errors.ParseError("missing string")
            strings.append(ascii_text(rest[:end]))
            size += end + 1
        if debug:
            text = "".join([f"\t[{index:03d}] {string.rstrip(chr(0))}\n"
                            for index, string in enumerate(strings)])
            writer.WriteText(show.structure(
                shown, show.line("Number of strings", f"{count:d}"),
                show.placed("Strings", text, True)))
    elif kind in (0x3e, 0x73):
        wide = 4
        if kind == 0x73:
            wide = 8
        size = 25 + wide
        missing(data, size)
        if debug:
            writer.WriteText(show.structure(
                shown,
                show.line("Unknown1", f"0x{be(data, 1, 2):04x}"),
                show.line("File mode", f"0x{be(data, 3, 2):04x}"),
                show.line("User identifier (UID)", f"{s(data, 5, 4, 'big'):d}"),
                show.line("Group identifier (GID)", f"{s(data, 9, 4, 'big'):d}"),
                show.line("File system identifier", f"0x{be(data, 13, 4):08x}"),
                show.line("File identifier", f"0x{be(data, 17, 8):08x}"),
                show.line("Device", f"0x{be(data, 25, wide):08x}")))
    elif kind == 0x7e:
        size = 21
        missing(data, size)
        net = net_type(data, 1, 4)
        if debug:
            writer.WriteText(show.structure(
                shown, show.line("Net type", f"{net:d}"),
                show.line("IP address", address(data[5:21]))))
    elif kind == 0x7f:
        missing(data, 9)
        net = net_type(data, 5, 2)
        size = 11 + 2 * net
        missing(data, size)
        if debug:
            writer.WriteText(show.structure(
                shown,
                show.line("Socket domain", f"0x{be(data, 1, 2):04x}"),
                show.line("Socket type", f"0x{be(data, 3, 2):04x}"),
                show.line("Net type", f"{net:d}"),
                show.line("Local port", f"{be(data, 7, 2):d}"),
                show.line("Local IP address", address(data[9:9 + net])),
                show.line("Remote port", f"{be(data, 9 + net, 2):d}"),
                show.line("Remote IP address", address(data[11 + net:size]))))
    elif kind in (0x80, 0x81):
        net = 4
        if kind == 0x81:
            net = 16
        size = 5 + net
        missing(data, size)
        if debug:
            writer.WriteText(show.structure(
                shown,
                show.line("Socket family", f"0x{be(data, 1, 2):04x}"),
                show.line("Local port", f"{be(data, 3, 2):d}"),
                show.line("Local IP address", address(data[5:size]))))
    elif kind == 0x82:
        missing(data, 3)
        end = find_terminator(data[3:], b"\0", 1)
        if end < 0:
            raise errors.ParseError("missing path")
        path = ascii_text(data[3:3 + end])
        size = 4 + end
        if debug:
            writer.WriteText(show.structure(
                shown,
                show.line("Socket family", f"0x{be(data, 1, 2):04x}"),
                show.value("Socket path", path.rstrip("\0"))))
    else:
        raise errors.ParseError("unsupported token type")
    return offset + size, kind


def subject_lines(data, wide):
    return (
        show.line("Audit user identifier", f"{s(data, 1, 4, 'big'):d}"),
        show.line("Effective user identifier", f"{s(data, 5, 4, 'big'):d}"),
        show.line("Effective group identifier", f"{s(data, 9, 4, 'big'):d}"),
        show.line("Real user identifier", f"{s(data, 13, 4, 'big'):d}"),
        show.line("Real group identifier", f"{s(data, 17, 4, 'big'):d}"),
        show.line("Process identifier (PID)", f"{be(data, 21, 4):d}"),
        show.line("Session identifier", f"{be(data, 25, 4):d}"),
        show.line("Terminal port", f"{be(data, 29, wide):d}"))


HEADERS = (0x14, 0x15, 0x74, 0x79)
TRAILER = 0x13


def token_at(f, offset, debug, writer):
    """Where a token ends, its type, record size and format version."""
    values = spec_token(f, offset, debug, writer) + (0, 0)
    return values[0], values[1], values[2], values[3]


def code_record(f, offset, debug, writer):
    o = bsm.BSMEventAuditingFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    f.seek(offset)
    o._ReadRecord(f, offset)
    return f.tell()


def spec_record(f, offset, debug, writer):
    """A header, other tokens and a trailer that agrees on the size of the record."""
    position, kind, record_size, version = token_at(f, offset, debug, writer)
    if kind not in HEADERS:
        raise errors.ParseError("not a header")
    if version != 11:
        raise errors.ParseError("unsupported version")
    trailer_size = record_size
    while position < offset + record_size:
        position, kind, trailer_size, version = token_at(f, position, debug, writer)
        if kind == TRAILER:
            break
    if kind != TRAILER:
        raise errors.ParseError("missing trailer")
    if trailer_size != record_size:
        raise errors.ParseError("different size")
    return position


def code_file(f, debug, writer):
    o = bsm.BSMEventAuditingFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)


def spec_file(f, debug, writer):
    """Every byte of the file is part of exactly one record."""
    position = 0
    while position < f.size:
        position = record_at(f, position, debug, writer)


def record_at(f, offset, debug, writer):
    return spec_record(f, offset, debug, writer)


def position_after(interp, fname, f, offset):
    """A token or record is not empty and part of the file."""
    models.ctx_fact(interp.ctx, core.zi(offset) >= 0)
    end = interp.ctx.app(fname + "_end", (interp.getattr(f, "content"), offset), "int",
                         lo=1)
    size = f.size if core.z3.is_expr(f.size) else core.I(f.size)
    interp.ctx.assume(core.zi(end) > core.zi(offset))
    interp.ctx.assume(core.zi(end) <= size)
    return end


def token_values(interp, f, offset):
    end = position_after(interp, "bsm_token", f, offset)
    keys = (interp.getattr(f, "content"), offset)
    return (end, interp.ctx.app("bsm_kind", keys, "int", lo=0),
            interp.ctx.app("bsm_record_size", keys, "int", lo=0),
            interp.ctx.app("bsm_version", keys, "int", lo=0))


def code_token_values(interp, args):
    end, kind, size, version = token_values(interp, args[1], args[2])
    args[1].pos = end
    return core.SObj(object, {"token_type": kind, "record_size": size,
                              "format_version": version})


def code_record_end(interp, args):
    args[1].pos = position_after(interp, "bsm_record", args[1], args[2])


def at(args):
    return args[1:3], args[0].fields["_debug"], args[0].fields["_output_writer"]


def spec_at(args):
    return args[:2], args[2], args[3]


TOKEN = {B + "_ReadToken": show.effect("bsm_token", at, code_token_values),
         HERE + "token_at": show.effect("bsm_token", spec_at, lambda interp, args: (
             token_values(interp, args[0], args[1])))}
RECORD = {B + "_ReadRecord": show.effect("bsm_record", at, code_record_end),
          HERE + "record_at": show.effect("bsm_record", spec_at, lambda interp, args: (
              position_after(interp, "bsm_record", args[0], args[1])))}

KINDS = (0x11, 0x13, 0x14, 0x15, 0x21, 0x22, 0x23, 0x24, 0x26, 0x27, 0x28, 0x29, 0x2a, 0x2b,
         0x2c, 0x2d, 0x2f, 0x32, 0x34, 0x3b, 0x3c, 0x3d, 0x3e, 0x52, 0x60, 0x71, 0x72,
         0x73, 0x74, 0x75, 0x77, 0x79, 0x7a, 0x7b, 0x7c, 0x7d, 0x7e, 0x7f, 0x80, 0x81, 0x82)


def gen_one(rng, kind):
    def n(size):
        return rng.choice([0, 1, 2, 6144, rng.getrandbits(31), rng.getrandbits(8 * size)]
                          ).to_bytes(12, "big")[-size:]

    def net(size):
        value = rng.choice([4, 16] * 8 + [0, 5])
        return value.to_bytes(size, "big"), rng.randbytes(value)

    def text():
        return rng.choice([b"", b"/usr\0", b"abc", b"a\nb\0", b"\0\0", b"x" * 40] * 3 + [b"\xe9"])
    wide = 8 if kind > 0x70 and kind not in (0x7a, 0x7b) else 4  # gen
    time = (rng.getrandbits(31) if rng.random() < 0.8 else 0).to_bytes(wide, "big")
    data = bytes([kind])
    if kind in (0x11, 0x23, 0x28, 0x60, 0x2d, 0x71, 0x29):
        t = text()
        if kind == 0x11:
            data += (time + n(4))
        elif kind in (0x2d, 0x71):
            data += n(1) + n(wide)
        data += len(t).to_bytes(2, "big") + t
    elif kind == 0x13:
        data += rng.choice([b"\xb1\x05"] * 5 + [b"\xb1\x06"]) + n(4)
    elif kind in (0x14, 0x74, 0x15, 0x79):
        data += n(4) + rng.choice([b"\x0b", b"\x0a"]) + n(2) + n(2)
        if kind in (0x15, 0x79):
            a, b = net(4)
            data += a + b
        data += time + n(wide)
    elif kind == 0x21:
        k = rng.choice([0, 1, 2, 3, 4])
        c = rng.choice([0, 1, 3])
        data += n(1) + bytes([k, c]) + rng.randbytes(c << k)
    elif kind in (0x24, 0x26, 0x75, 0x77):
        data += rng.randbytes(28) + n(wide) + n(4)
    elif kind in (0x7a, 0x7b, 0x7c, 0x7d):
        a, b = net(4)
        data += rng.randbytes(28) + n(wide) + a + b
    elif kind in (0x34, 0x3b):
        c = rng.choice([0, 1, 4])
        data += c.to_bytes(4, "big") + rng.randbytes(4 * c)
    elif kind in (0x3c, 0x3d):
        c = rng.choice([0, 1, 3])
        data += c.to_bytes(4, "big") + b"".join(
            rng.choice([b"", b"ls", b"-la", b"a\nb"] * 4 + [b"\xe9"]) + b"\0" for _ in range(c))
    elif kind == 0x7e:
        data += net(4)[0] + rng.randbytes(16)
    elif kind == 0x7f:
        a, b = net(2)
        data += n(2) + n(2) + a + n(2) + b + n(2) + b[::-1]
    elif kind == 0x82:
        data += n(2) + rng.choice([b"/var/run\0", b"\0", b"abc", b"\xe9\0"])
    else:
        data += rng.randbytes(40)
    return data


def gen_token(kinds):
    known = [k for k in KINDS if kinds[0] <= k <= kinds[1]]

    def gen(rng):
        kind = rng.choice(known * 4 + [rng.randint(*kinds)])
        head = rng.randbytes(rng.choice([0, 3]))
        tail = rng.choice([b"", rng.randbytes(9)])
        return {"f": cut(rng, head + gen_one(rng, kind) + tail), "offset": len(head)}
    return gen


def gen_record_data(rng):
    head = gen_one(rng, rng.choice(HEADERS * 8 + KINDS))
    body = b"".join(gen_one(rng, rng.choice([k for k in KINDS if k != TRAILER]))
                    for _ in range(rng.choice([0, 1, 3])))
    size = len(head) + len(body) + 7 + rng.choice([0] * 12 + [1, -1, -8, 30])
    size = max(size, 0).to_bytes(4, "big")
    other = rng.choice([size] * 12 + [b"\0\0\0\0"])
    return (head[:1] + size + rng.choice([b"\x0b"] * 9 + [b"\x0a"]) + head[6:] + body
            + rng.choice([b"\x13\xb1\x05" + other] * 9 + [b""]))


def gen_record(rng):
    head = rng.randbytes(rng.choice([0, 3]))
    return {"f": cut(rng, head + gen_record_data(rng) + rng.choice([b"", rng.randbytes(9)])),
            "offset": len(head)}


def gen_file(rng):
    data = b"".join(gen_record_data(rng) for _ in range(rng.choice([0, 1, 2])))
    return {"f": cut(rng, data)}


STUBS = {**show.STUBS, B + "_FormatIntegerAsEventType": show.pure_time("event_type"),
         HERE + "event_type": show.pure_time("event_type")}

GROUPS = {"data": (0x00, 0x13), "header": (0x14, 0x14), "header_ex": (0x15, 0x15),
          "object": (0x16, 0x23), "process": (0x24, 0x28), "address": (0x29, 0x31),
          "groups": (0x32, 0x3b), "strings": (0x3c, 0x3d), "attributes": (0x3e, 0x71),
          "wide": (0x72, 0x74), "subject64": (0x75, 0x78), "header64_ex": (0x79, 0x79),
          "subject32_ex": (0x7a, 0x7b), "subject64_ex": (0x7c, 0x7d),
          "socket": (0x7e, 0x7f), "socket_address": (0x80, 0xff)}

TARGETS = [B + n for n in (
    "_ReadToken", "_ReadTokenType", "_FormatArrayOfIntegersAsIPAddress",
    "_FormatArrayOfStrings", "_FormatIntegerAsNetType")]

CONTRACTS = [
    Contract("P16", "bsm.event_type", code_event_type, spec_event_type,
             {"value": Int(0, 0xffff)}, targets=[B + "_FormatIntegerAsEventType"]),
]
for name, kinds in GROUPS.items():
    CONTRACTS.append(Contract(
        "P16", "bsm.token." + name, *only(kinds),
        {"f": File(), "offset": Int(0), "debug": Bool(), "writer": Writer()},
        gen=gen_token(kinds), stubs=STUBS, targets=TARGETS))
CONTRACTS += [
    Contract("P16", "bsm.record", code_record, spec_record,
             {"f": File(), "offset": Int(0), "debug": Bool(), "writer": Writer()},
             gen=gen_record, stubs={**STUBS, **TOKEN}, targets=[B + "_ReadRecord"]),
    Contract("P16", "bsm.file", code_file, spec_file,
             {"f": File(), "debug": Bool(), "writer": Writer()}, gen=gen_file,
             stubs={**STUBS, **RECORD}, targets=[B + "ReadFileObject"]),
]

"""Contracts of the values of Apple unified logging messages."""

import base64
import struct

from dtformats import errors
from dtformats import unified_logging

from contracts import unified_names
from contracts.windows_records import missing
from engine.speclib import find_terminator, numbers, s, u, uuid_of
from engine.verify import Bytes, Choice, Contract, Int

D = "dtformats.unified_logging."
UNSUPPORTED = "<decode: unsupported value>"
NAMES = {
    "ErrorCode": unified_names.ERRORS,
    "ExtendedErrorCode": unified_names.ERRORS,
    "LocationClientAuthorizationStatus": unified_names.AUTHORIZATION,
    "LocationSQLiteResult": unified_names.SQLITE,
    "MDNSProtocol": unified_names.PROTOCOLS,
    "MDNSReason": unified_names.REASONS,
    "MDNSResourceRecordType": unified_names.RECORD_TYPES,
    "OpenDirectoryError": unified_names.DIRECTORY_ERRORS,
    "OpenDirectoryMembershipType": unified_names.MEMBERS,
}
PLAIN = ("Boolean", "FileMode", "UnsignedInteger", "SignedInteger", "IPv4", "IPv6",
         "UUID", "MaskHash", "String", "LocationEscapeOnly",
         "SignpostTelemetryString", "SignpostDescriptionTime")


def decoder(kind):
    return getattr(unified_logging, kind + "FormatStringDecoder")()


def code_value(kind, value):
    return decoder(kind).FormatValue(value)


def spec_code(kind, value):
    """Gives the name of a code, or its number."""
    if kind == "LocationClientAuthorizationStatus":
        code = int.from_bytes(value, "little")
    elif len(value) != 4:
        return UNSUPPORTED
    else:
        code = u(value, 0, 4)
    name = NAMES[kind].get(code, f"<decode: unknown value: {code:d}>")
    if kind == "ExtendedErrorCode":
        return f"[{code:d}: {name}]"
    if kind in ("LocationClientAuthorizationStatus", "LocationSQLiteResult"):
        return f'"{name}"'
    return name


TYPES = {0x1000: "p", 0x2000: "c", 0x4000: "d", 0x6000: "b", 0xa000: "l", 0xc000: "s"}


def spec_mode(low, high):
    """Gives the kind of file and who may read, write and execute it."""
    mode = low + 256 * high
    text = TYPES.get(mode & 0xf000, "-")
    for shift in (6, 3, 0):
        bits = mode >> shift
        if bits & 4:
            text += "r"
        else:
            text += "-"
        if bits & 2:
            text += "w"
        else:
            text += "-"
        if bits & 1:
            text += "x"
        else:
            text += "-"
    return text


def code_mode(low, high):
    return decoder("FileMode").FormatValue(bytes([low, high]))


def code_boolean(value, false, true):
    return unified_logging.BooleanFormatStringDecoder(
        false_value=false, true_value=true).FormatValue(value)


def spec_boolean(value, false, true):
    if int.from_bytes(value, "little") == 0:
        return false
    return true


def spec_integer(kind, value):
    if len(value) not in (1, 2, 4, 8):
        return UNSUPPORTED
    number = int.from_bytes(value, "little", signed=kind == "SignedInteger")
    return f"{number:d}"


def spec_address(kind, value):
    if kind == "IPv4":
        if len(value) != 4:
            return UNSUPPORTED
        return f"{value[0]:d}.{value[1]:d}.{value[2]:d}.{value[3]:d}"
    if len(value) != 16:
        return UNSUPPORTED
    text = f"{u(value, 0, 2, 'big'):04x}"
    for offset in (2, 4, 6, 8, 10, 12, 14):
        text += ":" + f"{u(value, offset, 2, 'big'):04x}"
    return text


def code_socket(value):
    return decoder("SocketAddress").FormatValue(value)


def spec_socket(value):
    """Gives the address of a socket address structure (sockaddr_in, sockaddr_in6)
    that names no group of an IPv6 address that is 0, or only such groups."""
    size = len(value)
    if size == 0:
        return "<NULL>"
    if size == 16 and value[1] == 2:
        return f"{value[4]:d}.{value[5]:d}.{value[6]:d}.{value[7]:d}"
    if size == 28 and value[1] == 30:
        text = ""
        for offset in (8, 10, 12, 14, 16, 18, 20, 22):
            if offset > 8:
                text += ":"
            group = u(value, offset, 2, "big")
            if group:
                text += f"{group:04x}"
        if text == ":::::::":
            return "::"
        return text
    return UNSUPPORTED


FLAGS = ((0x400, "AA"), (0x200, "TC"), (0x100, "RD"), (0x80, "RA"), (0x20, "AD"),
         (0x10, "CD"))
OPERATIONS = {0: "Query", 1: "IQuery", 2: "Status", 3: "Unassigned", 4: "Notify",
              5: "Update", 6: "DSO"}
RESPONSES = {0: "NoError", 1: "FormErr", 2: "ServFail", 3: "NXDomain", 4: "NotImp",
             5: "Refused", 6: "YXDomain", 7: "YXRRSet", 8: "NXRRSet", 9: "NotAuth",
             10: "NotZone", 11: "DSOTypeNI"}


def dns_flags(flags):
    if flags & 0x8000:
        text = "R/"
    else:
        text = "Q/"
    text += OPERATIONS.get((flags >> 11) & 15, "?") + ", "
    names = []
    for bit, name in FLAGS:
        if flags & bit:
            names.append(name)
    text += ", ".join(names)
    return text + ", " + RESPONSES.get(flags & 15, "?")


def code_flags(value):
    flags = u(value, 0, 2)
    return decoder("MDNSDNSHeader")._FormatFlags(flags)


def spec_flags(value):
    return dns_flags(u(value, 0, 2))


def spec_dns(kind, value):
    if kind == "MDNSDNSCounters":
        if len(value) != 8:
            return UNSUPPORTED
        return (f"{u(value, 6, 2):d}/{u(value, 4, 2):d}/{u(value, 2, 2):d}/"
                f"{u(value, 0, 2):d}")
    if kind == "MDNSDNSHeader":
        if len(value) != 12:
            return UNSUPPORTED
        identifier = u(value, 0, 2, "big")
        flags = u(value, 2, 2, "big")
        text = flags_text(flags)
        return (f"id: 0x{identifier:04X} ({identifier:d}), flags: 0x{flags:04X} "
                f"({text}), counts: {u(value, 4, 2, 'big'):d}/"
                f"{u(value, 6, 2, 'big'):d}/{u(value, 8, 2, 'big'):d}/"
                f"{u(value, 10, 2, 'big'):d}")
    if len(value) != 8:
        return UNSUPPORTED
    identifier = u(value, 2, 2)
    flags = u(value, 0, 2)
    text = flags_text(flags)
    return (f"id: 0x{identifier:04X} ({identifier:d}), flags: 0x{flags:04X} "
            f"({text})")


def flags_text(flags):
    return dns_flags(flags)


def text_of(value):
    try:
        return value.decode("utf-8").rstrip("\0")
    except UnicodeDecodeError:
        return None


def spec_text(kind, value):
    if kind == "String" and len(value) == 0:
        return "(null)"
    text = text_of(value)
    if text is None:
        return UNSUPPORTED
    if kind == "LocationEscapeOnly":
        text = text.replace("/", "\\/")
        return f'"{text}"'
    if kind == "SignpostTelemetryString":
        return f"__##__signpost.telemetry#____#string1#_##_#{text}##__##"
    return text


def spec_time(kind, value):
    if len(value) != 8:
        return UNSUPPORTED
    return ("__##__signpost.description#____#begin_time#_##_#"
            f"{u(value, 0, 8):d}##__##")


def spec_mask(kind, value):
    if len(value) == 0:
        return "<mask.hash: (null)>"
    return f"<mask.hash: '{base64.b64encode(value).decode('ascii')}'>"


def spec_uuid(kind, value):
    if len(value) != 16:
        return UNSUPPORTED
    return f"{uuid_of(value, 'big')!s}".upper()


def spec_sid(kind, value):
    """Gives a security identifier as a string: S-revision-authority-parts."""
    if len(value) < 8:
        return UNSUPPORTED
    count = value[1]
    missing(value, 8 + 4 * count)
    parts = []
    for number in numbers(value[8:8 + 4 * count], 4):
        parts.append(f"{number:d}")
    joined = "-".join(parts)
    return f"S-{value[0]:d}-{u(value, 2, 6, 'big'):d}-{joined}"


MEMBERS = {
    0x23: ("user", True), 0x24: ("user", False), 0x44: ("group", False),
    0xa0: ("user", False), 0xa3: ("user", True), 0xa4: ("user", False),
    0xc3: ("group", True)}


def terminated(data):
    """Gives the string of which the terminator is the first 0, and its size."""
    end = find_terminator(data, b"\0", 1)
    if end < 0:
        raise errors.ParseError("missing terminator")
    try:
        return data[:end].decode("utf-8"), end + 1
    except UnicodeDecodeError as exception:
        raise errors.ParseError("not UTF-8") from exception


def spec_member(kind, value):
    if len(value) < 1:
        return UNSUPPORTED
    name, is_number = MEMBERS.get(value[0], (None, None))
    if name is not None and len(value) == 1:
        raise ValueError("missing value")
    if name is None:
        return f"ERROR: unsupported type: 0x{value[0]:02x}"
    if is_number:
        missing(value, 5)
        domain, _ = terminated(value[5:])
        return f"{name}: {s(value, 1, 4):d}@{domain}"
    member, size = terminated(value[1:])
    domain, _ = terminated(value[1 + size:])
    return f"{name}: {member}@{domain}"


def operator(flags, width, precision, specifier):
    return unified_logging.FormatStringOperator(
        flags=flags, precision=precision, specifier=specifier, width=width)


def code_number(value, flags, width, specifier):
    kind = "UnsignedInteger"
    if specifier in ("d", "D", "i"):
        kind = "SignedInteger"
    return decoder(kind).FormatValue(
        value, format_string_operator=operator(flags, width, None, specifier))


NUMBERS = {"d": "d", "D": "d", "i": "d", "u": "d", "U": "d", "x": "x", "X": "X",
           "o": "o", "O": "o", "p": "x"}


def spec_number(value, flags, width, specifier):
    """Shows a number the way printf does."""
    if len(value) not in (1, 2, 4, 8):
        return UNSUPPORTED
    signed = specifier in ("d", "D", "i")
    number = int.from_bytes(value, "little", signed=signed)
    pattern = "{0:"
    if flags == "-":
        pattern += "<"
    elif flags is not None:
        pattern += flags
    if width is not None:
        pattern += width
    text = (pattern + NUMBERS[specifier] + "}").format(number)
    if specifier == "p":
        return "0x" + text
    return text


def code_float(value, width, precision, specifier):
    return decoder("FloatingPoint").FormatValue(
        value, format_string_operator=operator(None, width, precision, specifier))


def spec_float(value, width, precision, specifier):
    """Shows a floating-point number the way printf does."""
    if len(value) not in (4, 8):
        return UNSUPPORTED
    pattern = "{0:"
    if width is not None:
        pattern += width
    if precision is not None:
        pattern += precision
    if specifier in ("a", "A"):
        pattern += "f}"
    else:
        pattern += specifier + "}"
    if len(value) == 4:
        return pattern.format(struct.unpack("<f", value)[0])
    return pattern.format(struct.unpack("<d", value)[0])


def code_string(value, flags, width, precision, specifier):
    return decoder("String").FormatValue(
        value, format_string_operator=operator(flags, width, precision, specifier))


def spec_string(value, flags, width, precision, specifier):
    """Shows a string the way printf does: a width fills it with spaces, a precision
    cuts it."""
    if len(value) == 0:
        return "(null)"
    text = text_of(value)
    if text is None:
        return UNSUPPORTED
    pattern = "{0:"
    if flags == "-":
        pattern += "<"
    elif width is not None:
        pattern += ">"
    if width is not None:
        pattern += width
    if precision is not None:
        pattern += precision
    return (pattern + "s}").format(text)


def code_signpost(kind, value, width, specifier):
    return decoder(kind).FormatValue(
        value, format_string_operator=operator(None, width, None, specifier))


SIGNPOSTS = {
    "SignpostDescriptionAttribute": "__##__signpost.description#____#attribute#_##_#",
    "SignpostTelemetryNumber": "__##__signpost.telemetry#____#number1#_##_#"}


def spec_signpost(kind, value, width, specifier):
    """Gives the value of a signpost, marked with what it is."""
    if len(value) == 0:
        text = ""
    elif specifier in ("a", "e", "f", "G"):
        if len(value) == 4:
            text = f"{struct.unpack('<f', value)[0]:.16g}"
        elif len(value) == 8:
            text = f"{struct.unpack('<d', value)[0]:.16g}"
        else:
            text = UNSUPPORTED
    elif specifier in ("@", "s", "S"):
        text = spec_string(value, None, width, None, specifier)
    elif specifier in ("n", "P"):
        text = UNSUPPORTED
    else:
        text = spec_number(value, None, width, specifier)
    return SIGNPOSTS[kind] + text + "##__##"


def spec_location(kind, value):
    if len(value) != 8:
        return UNSUPPORTED
    if u(value, 4, 4):
        restricted = "true"
    else:
        restricted = "false"
    return (f'{{"locationRestricted":{restricted},'
            f'"locationServicesEnabledStatus":{u(value, 0, 4):d}}}')


def base64_of(interp, args, kwargs):
    return interp.ctx.app("base64", (args[0],), "bytes")


def uuid_made(interp, args, kwargs):
    return interp.ctx.app("uuid:big", (kwargs["bytes"],), "uuid")


def gen_sized(*sizes):
    def gen(rng):
        size = rng.choice(sizes + (rng.randrange(0, 20),))
        if rng.random() < 0.5:
            return {"value": bytes(rng.choice([0, 1, 2, 5, 30, 255, rng.randrange(256)])
                                   for _ in range(size))}
        return {"value": rng.randrange(0, 260).to_bytes(2, "little")[:size]
                + bytes(max(0, size - 2))}
    return gen


def gen_text(rng):
    return {"value": rng.choice([b"", b"\0", b"a/b\0", b"abc", b"\xc3\xa9\0\0", b"\xff",
                                 b"/", b"a\0b\0", bytes(8), bytes(range(8))])}


def gen_signpost(rng):
    return {"value": rng.choice([b"", b"a\0", b"\xff", rng.randbytes(4),
                                 rng.randbytes(8)])}


def gen_sid(rng):
    count = rng.choice([0, 1, 2, 5])
    data = bytes([1, count]) + rng.randbytes(6 + 4 * count)
    if rng.random() < 0.2:
        data = data[:rng.randrange(len(data))]
    return {"value": data}


def gen_member(rng):
    kind = rng.choice(list(MEMBERS) + [0, 1])
    data = bytes([kind])
    if kind & 0x3 == 3:
        data += rng.randbytes(4)
    else:
        data += rng.choice([b"user\0", b"\xc3\xa9\0", b"\0"])
    data += rng.choice([b"local\0", b"\0", b"x"])
    return {"value": data}


def targets(*kinds):
    return [D + kind + "FormatStringDecoder.FormatValue" for kind in kinds]


def contract(name, spec, kinds, gen, **more):
    return Contract("P23", "unified." + name, code_value, spec,
                    {"kind": Choice(*kinds), "value": Bytes()}, gen=gen,
                    targets=targets(*kinds), **more)


OPERATOR = D + "FormatStringOperator.GetPythonFormatString"

CONTRACTS = [
    contract("code", spec_code, tuple(NAMES), gen_sized(4)),
    *[Contract("P23", f"unified.file_mode_{first:02x}", code_mode, spec_mode,
               {"low": Choice(*range(first, first + 32)), "high": Int(0, 255)},
               gen=lambda rng, first=first: {"low": first + rng.randrange(32),
                                             "high": rng.randrange(256)},
               targets=targets("FileMode")) for first in range(0, 256, 32)],
    Contract("P23", "unified.boolean", code_boolean, spec_boolean,
             {"value": Bytes(), "false": Choice("false", "NO", "no"),
              "true": Choice("true", "YES", "yes")},
             gen=gen_sized(1, 4), targets=targets("Boolean")),
    contract("integer", spec_integer, ("SignedInteger", "UnsignedInteger"),
             gen_sized(1, 2, 4, 8)),
    contract("address", spec_address, ("IPv4", "IPv6"), gen_sized(4, 16)),
    Contract("P23", "unified.socket_address", code_socket, spec_socket,
             {"value": Bytes()}, gen=lambda rng: {"value": rng.choice([
                 b"", b"\0", bytes([16, 2]) + rng.randbytes(14),
                 bytes([28, 30]) + rng.randbytes(26), bytes([28, 30]) + bytes(26),
                 bytes([28, 30]) + bytes(20) + rng.randbytes(6),
                 bytes([28, 2]) + bytes(26)])},
             targets=targets("SocketAddress")),
    Contract("P23", "unified.dns_flags", code_flags, spec_flags,
             {"value": Bytes(min=2)}, gen=lambda rng: {"value": rng.randbytes(2)},
             targets=[D + "BaseMDNSDNSStructureFormatStringDecoder._FormatFlags"]),
    contract("dns", spec_dns,
             ("MDNSDNSCounters", "MDNSDNSHeader", "MDNSDNSIdentifierAndFlags"),
             gen_sized(8, 12)),
    contract("location", spec_location, ("LocationClientManagerState",), gen_text),
    contract("text", spec_text,
             ("String", "LocationEscapeOnly", "SignpostTelemetryString"), gen_text),
    contract("time", spec_time, ("SignpostDescriptionTime",), gen_text),
    Contract("P23", "unified.uuid", code_value, spec_uuid,
             {"kind": Choice("UUID"), "value": Bytes()}, gen=gen_sized(16),
             stubs={"uuid.UUID": uuid_made}, targets=targets("UUID")),
    contract("mask_hash", spec_mask, ("MaskHash",), gen_text,
             stubs={"base64.b64encode": base64_of}),
    contract("security_identifier", spec_sid, ("WindowsNTSecurityIdentifier",), gen_sid),
    contract("member", spec_member, ("OpenDirectoryMembershipDetails",), gen_member),
    Contract("P23", "unified.number", code_number, spec_number,
             {"value": Bytes(), "flags": Choice(None, "0", "-"),
              "width": Choice(None, "8"), "specifier": Choice(*NUMBERS)},
             gen=lambda rng: {"value": rng.randbytes(rng.choice([1, 2, 3, 4, 8])),
                              "width": rng.choice(["8", None])},
             targets=[*targets("SignedInteger", "UnsignedInteger"), OPERATOR]),
    Contract("P23", "unified.float", code_float, spec_float,
             {"value": Bytes(), "width": Choice(None, "12"),
              "precision": Choice(None, ".2", ".0"),
              "specifier": Choice("f", "F", "e", "E", "g", "G")},
             gen=lambda rng: {"value": rng.randbytes(rng.choice([4, 8, 3]))},
             targets=[*targets("FloatingPoint"), OPERATOR]),
    Contract("P23", "unified.string", code_string, spec_string,
             {"value": Bytes(), "flags": Choice(None, "-"), "width": Choice("10", None),
              "precision": Choice(None, ".3"), "specifier": Choice("s", "@", "S")},
             gen=gen_text, targets=[*targets("String"), OPERATOR]),
    Contract("P23", "unified.signpost", code_signpost, spec_signpost,
             {"kind": Choice(*SIGNPOSTS), "value": Bytes(), "width": Choice(None, "8"),
              "specifier": Choice("a", "f", "G", "@", "s", "n", "u", "x", "p", "o",
                                  "d", "i")},
             gen=gen_signpost,
             targets=[*targets(*SIGNPOSTS), *(
                 D + kind + "FormatStringDecoder._GetStringValue"
                 for kind in SIGNPOSTS), OPERATOR]),
]

"""Contracts of the CUPS Internet Printing Protocol (IPP) format."""

from dtformats import cups_ipp
from dtformats import errors

from contracts import show
from contracts.windows_records import cut, missing, word
from engine import models
from engine.speclib import s, u
from engine.verify import Bool, Contract, File, Int, Str, Writer

C = "dtformats.cups_ipp.CupsIppFile."

TAGS = {
    1: "operation-attributes-tag", 2: "job-attributes-tag", 3: "end-of-attributes-tag",
    4: "printer-attributes-tag", 5: "unsupported-attributes-tag",
    15: "chunking-end-of-attributes-tag", 19: "no-value", 33: "integer",
    34: "boolean", 35: "enum", 48: "octetString", 49: "dateTime", 50: "resolution",
    51: "rangeOfInteger", 53: "textWithLanguage", 54: "nameWithLanguage",
    65: "textWithoutLanguage", 66: "nameWithoutLanguage", 68: "keyword", 69: "uri",
    70: "uriScheme", 71: "charset", 72: "naturalLanguage", 73: "mimeMediaType"}


def date_is_valid(value):
    """Whether the date and time of RFC 2579 exists, without leap seconds."""
    year, month, day = u(value, 0, 2, "big"), value[2], value[3]
    if not 1 <= month <= 12:
        return False
    days = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][month - 1]
    if month == 2 and year % 4 == 0 and (year % 100 != 0 or year % 400 == 0):
        days = 29
    return (1 <= day <= days and value[4] < 24 and value[5] < 60 and value[6] < 60
            and value[7] < 10 and value[8:9] in (b"+", b"-") and value[9] < 14
            and value[10] < 60)


def date_text(value):
    return (f"{u(value, 0, 2, 'big'):04d}-{value[2]:02d}-{value[3]:02d} "
            f"{value[4]:02d}:{value[5]:02d}:{value[6]:02d}.{value[7]:d}")


class DateTime:
    """Call-site contract of dfdatetime.rfc2579_date_time.RFC2579DateTime."""

    def __init__(self, values):
        year = values[0]
        self.value = bytes([year // 256, year % 256, *values[1:7], ord(values[7]),
                            values[8], values[9]])
        if not date_is_valid(self.value):
            raise ValueError("invalid date and time")

    def CopyToDateTimeString(self):
        return date_text(self.value)


def date_stub(interp, args, kwargs):
    return interp.call(DateTime, [kwargs["rfc2579_date_time_tuple"]], {})


def text_of(data, charset):
    try:
        return data.decode(charset)
    except (LookupError, ValueError):
        pass
    raise errors.ParseError("invalid text")


def code_attribute(f, offset, charset, debug, writer):
    o = cups_ipp.CupsIppFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    o._last_charset_attribute = charset
    f.seek(offset)
    o._ReadAttribute(f)
    return f.tell(), o._last_charset_attribute


def spec_attribute(f, offset, charset, debug, writer):
    """Shows an attribute, gives where it ends and the character set of strings."""
    rest = f.content[offset:]
    missing(rest, 3)
    tag = s(rest, 0, 1)
    name_size = s(rest, 1, 2, "big")
    if name_size < 0:
        raise errors.ParseError("invalid size")
    start = 5 + name_size
    missing(rest, start)
    name = text_of(rest[3:3 + name_size], "utf8")
    value_size = s(rest, start - 2, 2, "big")
    if value_size < 0:
        raise errors.ParseError("invalid size")
    missing(rest, start + value_size)
    value = rest[start:start + value_size]
    if debug:
        writer.WriteText(show.structure(
            show.line("Tag value", f"0x{tag:02x} ({TAGS.get(tag, 'UNKNOWN')})"),
            show.line("Name size", f"{name_size:d}"),
            show.value("Name", name.rstrip("\0")),
            show.line("Value data size", f"{value_size:d}"),
            show.block("Value data", show.dump(value))))
    shown = None
    if tag in (0x21, 0x23):
        missing(value, 4)
        shown = f"{s(value, 0, 4, 'big'):d}"
    elif tag == 0x22:
        if value not in (b"\0", b"\1"):
            raise errors.ParseError("unsupported boolean")
        shown = "True" if value == b"\1" else "False"
    elif tag == 0x31:
        missing(value, 11)
        if not date_is_valid(value[:11]):
            raise errors.ParseError("invalid date and time")
        shown = date_text(value[:11])
    elif tag in (0x41, 0x42):
        shown = text_of(value, charset)
    elif 0x44 <= tag <= 0x49:
        shown = text_of(value, "ascii")
        if tag == 0x47:
            charset = shown
    if debug:
        if shown is not None:
            writer.WriteText(show.line("Value", shown))
        writer.WriteText("\n")
    return offset + start + value_size, charset


def code_file(f, debug, writer):
    o = cups_ipp.CupsIppFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)


def spec_file(f, debug, writer):
    data = f.content
    missing(data, 8)
    if debug:
        writer.WriteText(show.structure(
            show.line("Major format version", f"{s(data, 0, 1):d}"),
            show.line("Minor format version", f"{s(data, 1, 1):d}"),
            show.line("Operation identifier", f"0x{s(data, 2, 2, 'big'):04x}"),
            show.line("Request identifier", f"0x{s(data, 4, 4, 'big'):08x}")))
    charset = "ascii"
    offset = 8
    tag = 0
    while tag != 3:
        missing(data, offset + 1)
        tag = s(data, offset, 1)
        if tag >= 16:
            offset, charset = spec_attribute(f, offset, charset, debug, writer)
        elif tag in (1, 2, 3, 4, 5):
            offset += 1
        else:
            raise errors.ParseError("unsupported delimiter tag")


def attribute_input(args):
    o, f = args
    return [f, models.mkint(f.pos), o.fields["_last_charset_attribute"]], \
        *show.method_input(args)[1:]


def attribute_results(interp, f, offset, charset):
    keys = (interp.getattr(f, "content"), offset, charset)
    end = interp.ctx.app("cups_end", keys, "int", lo=5)
    interp.ctx.assume(end.e >= models.zi(offset) + 5)
    interp.ctx.assume(end.e <= f.size)
    return end, interp.ctx.app("cups_charset", keys, "str")


def attribute_after(interp, args):
    o, f = args
    f.pos, o.fields["_last_charset_attribute"] = attribute_results(
        interp, f, models.mkint(f.pos), o.fields["_last_charset_attribute"])


ATTRIBUTE = {
    C + "_ReadAttribute": show.effect("cups_attribute", attribute_input, attribute_after),
    "contracts.cups_ipp.spec_attribute": show.effect(
        "cups_attribute", show.function_input,
        lambda interp, args: attribute_results(interp, *args[:3])),
}


def gen_attribute(rng):
    charset = rng.choice(["ascii", "utf-8", "utf-16-le", "", "nope", "x\0"])
    data = gen_attributes(rng, rng.choice([1, 1, 2]))
    return {"f": cut(rng, bytes(3) + data), "offset": 3, "charset": charset}


def gen_attributes(rng, number):
    data = b""
    for _ in range(number):
        tag = rng.choice([1, 2, 4, 5, 0x10, 0x13, 0x21, 0x22, 0x23, 0x31, 0x31, 0x32, 0x30, 0x41,
                          0x42, 0x44, 0x47, 0x47, 0x49] * 3 + [0, 6, 0x80, 0xff])
        data += bytes([tag])
        if tag < 16:
            continue
        name = rng.choice([b"", b"name", b"\xc3\xa9"] * 5 + [b"\xe9"])
        value = rng.choice([b"", b"\0", b"\1", b"text", b"a\nb", b"\xc3\xa9"] * 2 + [b"\xe9"])
        if tag in (0x21, 0x23):
            value = word(rng)
        elif tag == 0x22:
            value = rng.choice([b"\0", b"\1"] * 4 + [b"", b"\2"])
        elif tag == 0x31:
            value = bytes([rng.choice([0, 7]), rng.getrandbits(8), rng.randint(1, 12),
                           rng.randint(1, 31), rng.randint(0, 23), 5, 59, rng.randint(0, 9),
                           rng.choice(b"+-"), rng.randint(0, 13), 0, 0][:rng.choice(
                               [11, 11, 11, 12, 10])])
            if rng.random() < 0.3:
                k = rng.randrange(2, 10)
                value = value[:k] + bytes([rng.choice([0, 60, 255, 24, 10, 14])]) + value[k + 1:]
        elif tag == 0x47:
            value = rng.choice([b"utf-8", b"iso-8859-1", b"ascii", b"utf-16-le", b"", b"nope",
                                b"x\0", b"hex"])
        sizes = [rng.choice([len(x)] * 30 + [len(x) + 1, -1]) for x in (name, value)]
        data += sizes[0].to_bytes(2, "big", signed=True) + name
        data += sizes[1].to_bytes(2, "big", signed=True) + value
    return data


def gen_file(rng):
    data = word(rng, 8) + gen_attributes(rng, rng.choice([0, 1, 2, 5]))
    return {"f": cut(rng, data + rng.choice([b"\3", b"\3", b"\3x", b""]))}


STUBS = {**show.STUBS,
         "dfdatetime.rfc2579_date_time.RFC2579DateTime": date_stub,
         "contracts.cups_ipp.date_is_valid": show.pure("rfc2579_valid", "bool"),
         "contracts.cups_ipp.date_text": show.pure_time("rfc2579_text")}

CONTRACTS = [
    Contract("P14", "cups.attribute", code_attribute, spec_attribute,
             {"f": File(), "offset": Int(0), "charset": Str(), "debug": Bool(),
              "writer": Writer()}, gen=gen_attribute,
             stubs=STUBS, assumptions=[
                 "dfdatetime checks and shows a date and time of RFC 2579"],
             targets=[C + "_ReadAttribute", C + "_ReadIntegerValue",
                      C + "_ReadStringValue", C + "_ReadBooleanValue",
                      C + "_ReadDateTimeValue", C + "_FormatTagValue"]),
    Contract("P14", "cups.file", code_file, spec_file,
             {"f": File(), "debug": Bool(), "writer": Writer()}, gen=gen_file,
             stubs={**show.STUBS, **ATTRIBUTE},
             targets=[C + "ReadFileObject", C + "_ReadHeader",
                      C + "_ReadAttributesGroup"]),
]

"""Contracts of the text shown for values."""

from dfdatetime import filetime
from dfdatetime import hfs_time
from dfdatetime import posix_time

from dtformats import data_format
from dtformats import output_writers

from engine.verify import (Bool, Bytes, Choice, Contract, Int, Ints, IntList, Param, Str,
                           Writer)

T = "dtformats.data_format.BinaryDataFormat."
W = "dtformats.output_writers.StdoutWriter."


def code_integer(value):
    o = data_format.BinaryDataFormat()
    return (o._FormatIntegerAsDecimal(value), o._FormatIntegerAsHexadecimal2(value),
            o._FormatIntegerAsHexadecimal4(value), o._FormatIntegerAsHexadecimal8(value),
            o._FormatIntegerAsOffset(value))


def spec_integer(value):
    return ((f"{value:d}", False), (f"0x{value:02x}", False), (f"0x{value:04x}", False),
            (f"0x{value:08x}", False), f"{value:d} (0x{value:08x})")


def code_arrays(values):
    o = data_format.BinaryDataFormat()
    return o._FormatArrayOfIntegersAsDecimals(values)


def spec_arrays(values):
    return ", ".join([f"{value:d}" for value in values]), False


def code_offsets(values):
    o = data_format.BinaryDataFormat()
    return o._FormatArrayOfIntegersAsOffsets(values)


def spec_offsets(values):
    return ", ".join([f"{value:d} (0x{value:08x})" for value in values]), False


def code_ipv4(values):
    return data_format.BinaryDataFormat()._FormatArrayOfIntegersAsIPv4Address(values)


def spec_ipv4(values):
    if len(values) != 4:
        return None, False
    return f"{values[0]:d}.{values[1]:d}.{values[2]:d}.{values[3]:d}", False


def code_ipv6(values):
    return data_format.BinaryDataFormat()._FormatArrayOfIntegersAsIPv6Address(values)


def spec_ipv6(values):
    if len(values) != 16:
        return None, False
    return ":".join([f"{values[k] * 256 + values[k + 1]:04x}"
                     for k in (0, 2, 4, 6, 8, 10, 12, 14)]), False


def shown_time(cls, value):
    """The date and time of a timestamp, or the value where there is none."""
    text = cls(timestamp=value).CopyToDateTimeString()
    if text:
        return f"{text} UTC"
    return f"0x{value:08x}"


def code_filetime(value):
    return data_format.BinaryDataFormat()._FormatIntegerAsFiletime(value)


def spec_filetime(value):
    if value == 0:
        return "Not set (0)", False
    if value == 0x7FFFFFFFFFFFFFFF:
        return "Never (0x7fffffffffffffff)", False
    return shown_time(filetime.Filetime, value), False


KINDS = {
    "_FormatIntegerAsHFSTime": hfs_time.HFSTime,
    "_FormatIntegerAsPosixTime": posix_time.PosixTime,
    "_FormatIntegerAsPosixTimeInMicroseconds": posix_time.PosixTimeInMicroseconds,
    "_FormatIntegerAsPosixTimeInNanoseconds": posix_time.PosixTimeInNanoseconds,
}


def code_times(value, kind):
    return getattr(data_format.BinaryDataFormat(), kind)(value)


def spec_times(value, kind):
    if value == 0:
        return "Not set (0)"
    return shown_time(KINDS[kind], value)


def code_print_times(value, description, writer):
    o = data_format.BinaryDataFormat(output_writer=writer)
    o._DebugPrintFiletimeValue(description, value)
    o._DebugPrintPosixTimeValue(description, value)
    o._DebugPrintDecimalValue(description, value)


def spec_print_times(value, description, writer):
    if value == 0:
        writer.WriteText(aligned(description, "Not set (0)"))
        writer.WriteText(aligned(description, "Not set (0)"))
    else:
        if value == 0x7FFFFFFFFFFFFFFF:
            writer.WriteText(aligned(description, "Never (0x7fffffffffffffff)"))
        else:
            writer.WriteText(aligned(description, shown_time(filetime.Filetime, value)))
        writer.WriteText(aligned(description, shown_time(posix_time.PosixTime, value)))
    writer.WriteText(aligned(description, f"{value:d}"))


def code_stream(stream, string, number):
    o = data_format.BinaryDataFormat()
    return o._FormatStreamAsString(stream), o._FormatString(string)


ESCAPES = {k: "\\x%02x" % k for k in range(256) if k < 32 or k > 126}


def spec_stream(stream, string, number):
    return stream.decode("latin1").translate(ESCAPES), string.rstrip("\x00")


def aligned(description, value):
    """A line with the value in the tab-aligned column."""
    return f"{description}{chr(9) * (9 - len(description) // 8)}: {value!s}\n"


def code_value(description, value, text):
    o = data_format.BinaryDataFormat()
    return o._FormatValue(description, value), o._FormatValue(description, text)


def spec_value(description, value, text):
    return aligned(description, value), aligned(description, text)


def code_print(description, value, data, text, writer):
    o = data_format.BinaryDataFormat(output_writer=writer)
    o._DebugPrintValue(description, value)
    o._DebugPrintText(text)
    silent = data_format.BinaryDataFormat()
    silent._DebugPrintValue(description, value)
    silent._DebugPrintText(text)
    silent._DebugPrintData(description, data)


def spec_print(description, value, data, text, writer):
    writer.WriteText(aligned(description, value))
    writer.WriteText(text)


class Shown(data_format.BinaryDataFormat):
    """A format with callbacks of every kind."""

    def _FormatPair(self, value):
        return value, False

    def _FormatPairBelow(self, value):
        return value, True

    def _FormatText(self, value):
        return value

    def _FormatTwoLines(self, value):
        return f"{value:s}\nsecond\n", False

    def _FormatTwoLinesBelow(self, value):
        return f"{value:s}\nsecond\n", True

    def _FormatParagraph(self, value):
        return f"{value:s}\n\n"


class Holder:
    """A structure object."""

    def __init__(self, first, second):
        self.first = first
        self.second = second


CALLBACKS = ["_FormatPair", "_FormatPairBelow", "_FormatText", "_FormatTwoLines",
             "_FormatTwoLinesBelow", "_FormatParagraph", None, "_FormatMissing"]


def code_structure(first, second, one, two, label, missing, writer):
    o = Shown(output_writer=writer)
    info = [("first", label, one), ("absent", "Absent", "_FormatText"),
            ("second", "Second value", two)]
    o._DebugPrintStructureObject(Holder(first, None if missing else second), info)


def entry(label, text, callback):
    if callback in ("_FormatTwoLines", "_FormatTwoLinesBelow"):
        text = f"{text}\nsecond\n"
    elif callback == "_FormatParagraph":
        text = f"{text}\n\n"
    if "\n" not in text:
        return aligned(label, text)
    # text of more than one line starts on the next line unless told otherwise
    if callback in ("_FormatPair", "_FormatTwoLines"):
        return f"{label}{chr(9) * (9 - len(label) // 8)}: {text}"
    return f"{label}:\n{text}"


def spec_structure(first, second, one, two, label, missing, writer):
    last = entry(label, first, one)
    text = last
    if not missing:
        last = entry("Second value", second, two)
        text += last
    if last[-2:] != "\n\n":
        text += "\n"
    writer.WriteText(text)


def code_unlabelled(first, one, writer):
    o = Shown(output_writer=writer)
    o._DebugPrintStructureObject(Holder(first, None), [("first", None, one)])


def spec_unlabelled(first, one, writer):
    if one == "_FormatParagraph":
        writer.WriteText(f"{first}\n\n")
    else:
        writer.WriteText(f"{first}\nsecond\n\n")


def code_many(first, one, label, count, writer):
    o = Shown(output_writer=writer)
    info = [("first", label, one)] * count
    o._DebugPrintStructureObject(Holder(first, None), info)


def spec_many(first, one, label, count, writer):
    entries = [entry(label, first, one) for _ in range(count)]
    if not entries or not entries[-1] or entries[-1][-2:] != "\n\n":
        entries.append("\n")
    writer.WriteText("".join(entries))


class Sink(output_writers.StdoutWriter):
    """Keeps what is written."""

    def __init__(self, writer):
        self.writer = writer

    def WriteText(self, text):
        self.writer.WriteText(text)


def code_stdout(description, value, writer):
    Sink(writer).WriteValue(description, value)


def spec_stdout(description, value, writer):
    width = len(description.replace("\t", " " * 8))
    writer.WriteText(f"{description}{chr(9) * (9 - width // 8)}: {value!s}\n")


WORDS = ["", "A", "Value", "Seven77", "Eight888", "A long description of a value",
         "x" * 63, "x" * 64, "y" * 80]


def gen_description(rng):
    return rng.choice(WORDS)


def gen_value(rng):
    return {"description": gen_description(rng)}


def gen_time(rng):
    return {"value": rng.choice([0, 1, 0x7FFFFFFFFFFFFFFF, 2**31 - 1, 2**31, 2**32 - 1, -1,
                                 rng.getrandbits(33), 1500000000000000,
                                 116444736000000001]),
            "description": gen_description(rng)}


def gen_time_kind(rng):
    kind = rng.choice(sorted(KINDS))
    value = rng.choice([0, 1, 2**31 - 1, 2**31, 2**32 - 1, rng.getrandbits(32), -1])
    if kind.endswith("seconds"):
        value *= rng.choice([1, 1000, 100000])
    return {"kind": kind, "value": value}


def gen_structure(rng):
    return {"one": rng.choice(CALLBACKS), "two": rng.choice(CALLBACKS),
            "first": rng.choice(["", "abc", "a\nb", "a\n", "\n\n"]),
            "second": rng.choice(["", "x", "x\ny", "x\n\n"]),
            "label": rng.choice(["First", "x" * 9])}


def gen_octets(n):
    def gen(rng):
        return {"values": [rng.choice([0, 1, 9, 10, 127, 255]) for _ in range(
            rng.choice([0, 1, n - 1, n, n, n, n, n + 1]))]}
    return gen


def gen_array(rng):
    return {"values": [rng.choice([0, 1, 10, 2**31, 2**40]) for _ in range(
        rng.choice([0, 1, 2, 3, 9]))]}


def gen_stream(rng):
    return {"stream": bytes(rng.choice([0, 9, 10, 31, 32, 65, 126, 127, 128, 160, 254, 255])
                            for _ in range(rng.randint(0, 6))),
            "string": rng.choice(["", "a", "a\0", "a\0b\0\0", "\0"])}


TIMES = [T + name for name in KINDS]

CONTRACTS = [
    Contract("P06", "formatting.integer", code_integer, spec_integer, {"value": Int()},
             targets=[T + n for n in (
                 "_FormatIntegerAsDecimal", "_FormatIntegerAsHexadecimal2",
                 "_FormatIntegerAsHexadecimal4", "_FormatIntegerAsHexadecimal8",
                 "_FormatIntegerAsOffset")]),
    Contract("P06", "formatting.decimals", code_arrays, spec_arrays,
             {"values": Ints(lo=0)}, gen=gen_array,
             targets=[T + "_FormatArrayOfIntegersAsDecimals"]),
    Contract("P06", "formatting.offsets", code_offsets, spec_offsets,
             {"values": Ints(lo=0)}, gen=gen_array,
             targets=[T + "_FormatArrayOfIntegersAsOffsets"]),
    Contract("P06", "formatting.ipv4", code_ipv4, spec_ipv4,
             {"values": Ints(lo=0, hi=255)}, gen=gen_octets(4),
             targets=[T + "_FormatArrayOfIntegersAsIPv4Address"]),
    Contract("P06", "formatting.ipv6", code_ipv6, spec_ipv6,
             {"values": Ints(lo=0, hi=255)}, gen=gen_octets(16),
             targets=[T + "_FormatArrayOfIntegersAsIPv6Address"]),
    Contract("P06", "formatting.filetime", code_filetime, spec_filetime,
             {"value": Int()}, gen=gen_time, targets=[T + "_FormatIntegerAsFiletime"]),
    Contract("P06", "formatting.times", code_times, spec_times,
             {"value": Int(), "kind": Choice(*KINDS)}, gen=gen_time_kind,
             targets=TIMES),
    Contract("P06", "formatting.print_times", code_print_times, spec_print_times,
             {"value": Int(), "description": Str(), "writer": Writer()}, gen=gen_time,
             targets=[T + "_DebugPrintFiletimeValue", T + "_DebugPrintPosixTimeValue",
                      T + "_DebugPrintDecimalValue"]),
    Contract("P06", "formatting.stream", code_stream, spec_stream,
             {"stream": Bytes(), "string": Str(), "number": Int()}, gen=gen_stream,
             targets=[T + "_FormatStreamAsString", T + "_FormatString"]),
    Contract("P06", "formatting.value", code_value, spec_value,
             {"description": Str(), "value": Int(), "text": Str()}, gen=gen_value,
             targets=[T + "_FormatValue"]),
    Contract("P06", "formatting.print", code_print, spec_print,
             {"description": Str(), "value": Int(), "data": Bytes(), "text": Str(),
              "writer": Writer()}, gen=gen_value,
             targets=[T + "_DebugPrintValue", T + "_DebugPrintText"]),
    Contract("P06", "formatting.structure", code_structure, spec_structure,
             {"first": Str(), "second": Str(), "one": Choice(*CALLBACKS),
              "two": Choice(*CALLBACKS), "label": Str(), "missing": Bool(),
              "writer": Writer()}, gen=gen_structure,
             targets=[T + "_FormatStructureObject", T + "_DebugPrintStructureObject"]),
    Contract("P06", "formatting.unlabelled", code_unlabelled, spec_unlabelled,
             {"first": Str(), "one": Choice("_FormatTwoLines", "_FormatTwoLinesBelow",
                                            "_FormatParagraph"), "writer": Writer()},
             gen=lambda rng: {"first": rng.choice(["", "abc", "a\n"])},
             targets=[T + "_FormatStructureObject"]),
    Contract("P06", "formatting.many", code_many, spec_many,
             {"first": Str(), "one": Choice(*CALLBACKS), "label": Str(),
              "count": Int(lo=0, cap=5), "writer": Writer()},
             gen=gen_structure, targets=[T + "_FormatStructureObject"]),
    Contract("P06", "formatting.stdout", code_stdout, spec_stdout,
             {"description": Str(), "value": Int(), "writer": Writer()}, gen=gen_value,
             targets=[W + "WriteValue"]),
]

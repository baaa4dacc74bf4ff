"""Contracts of the time zone information format."""

import ast

import z3

from dtformats import errors
from dtformats import tzif

from contracts import show
from contracts.windows_records import cut, missing
from engine import models
from engine.speclib import s, u
from engine.verify import Bool, Contract, File, Int, Writer

T = "dtformats.tzif.TimeZoneInformationFile."


NAMES = ("number_of_utc_time_indicators", "number_of_standard_time_indicators",
         "number_of_leap_seconds", "number_of_transition_times",
         "number_of_local_time_types", "time_zone_abbreviation_strings_size")
POSITIONS = (20, 24, 28, 32, 36, 40)


class Header:
    """The numbers of a file header."""

    def __init__(self, numbers, version):
        self.number_of_utc_time_indicators = numbers[0]
        self.number_of_standard_time_indicators = numbers[1]
        self.number_of_leap_seconds = numbers[2]
        self.number_of_transition_times = numbers[3]
        self.number_of_local_time_types = numbers[4]
        self.time_zone_abbreviation_strings_size = numbers[5]
        self.format_version = version


def part(f, offset, size):
    data = f.content[offset : offset + size]
    missing(data, size)
    return data


def spec_header(f, offset, debug, writer):
    data = part(f, offset, 44)
    if debug:
        writer.WriteText(
            show.line("Signature", f"{data[:4]!s}")
            + show.line("Format version", f"0x{data[4]:02x}")
            + show.block("Unknown1", show.dump(data[5:20]))
            + show.line("Number of UTC time indicators", f"{u(data, 20, 4, 'big'):d}")
            + show.line("Number of standard time indicators",
                        f"{u(data, 24, 4, 'big'):d}")
            + show.line("Number of leap seconds", f"{u(data, 28, 4, 'big'):d}")
            + show.line("Number of transition times", f"{u(data, 32, 4, 'big'):d}")
            + show.line("Number of local time types", f"{u(data, 36, 4, 'big'):d}")
            + show.line("Time zone abbreviation strings size",
                        f"{u(data, 40, 4, 'big'):d}") + "\n")
    if data[:4] != b"TZif":
        raise errors.ParseError("unsupported signature")
    if data[4] not in (0, 0x32, 0x33):
        raise errors.ParseError("unsupported version")
    return Header([u(data, position, 4, "big") for position in POSITIONS], data[4])


def code_header(f, offset, debug, writer):
    o = tzif.TimeZoneInformationFile(debug=debug, output_writer=writer)
    header = o._ReadFileHeader(f, file_offset=offset)
    return (header.number_of_utc_time_indicators,
            header.number_of_standard_time_indicators, header.number_of_leap_seconds,
            header.number_of_transition_times, header.number_of_local_time_types,
            header.time_zone_abbreviation_strings_size, header.format_version, f.tell())


def shown_header(f, offset, debug, writer):
    header = spec_header(f, offset, debug, writer)
    return (header.number_of_utc_time_indicators,
            header.number_of_standard_time_indicators, header.number_of_leap_seconds,
            header.number_of_transition_times, header.number_of_local_time_types,
            header.time_zone_abbreviation_strings_size, header.format_version,
            offset + 44)


def code_transitions(f, offset, number, is_64bit, debug, writer):
    o = tzif.TimeZoneInformationFile(debug=debug, output_writer=writer)
    f.seek(offset)
    header = Header([0, 0, 0, number, 0, 0], 0)
    if is_64bit:
        o._ReadTransitionTimes64bit(f, header)
    else:
        o._ReadTransitionTimes32bit(f, header)
    return f.tell()


def spec_transitions(f, offset, number, is_64bit, debug, writer):
    size = 8 if is_64bit else 4
    times = part(f, offset, size * number)
    if number == 0:
        raise errors.ParseError("missing transition times")
    if debug:
        index = 0
        if is_64bit:
            while index < number:
                writer.WriteText(show.line(f"Transition time: {index:d}",
                                           f"{s(times, 8 * index, 8, 'big'):d}"))
                index += 1
        else:
            while index < number:
                writer.WriteText(show.line(f"Transition time: {index:d}",
                                           f"{s(times, 4 * index, 4, 'big'):d}"))
                index += 1
        writer.WriteText("\n")
    return offset + size * number


def code_types(f, offset, number, debug, writer):
    o = tzif.TimeZoneInformationFile(debug=debug, output_writer=writer)
    f.seek(offset)
    o._ReadTransitionTimeIndex(f, Header([0, 0, 0, number, 0, 0], 0))
    return f.tell()


def spec_types(f, offset, number, debug, writer):
    types = part(f, offset, number)
    if number == 0:
        raise errors.ParseError("missing types")
    if debug:
        index = 0
        while index < number:
            writer.WriteText(show.line(f"Type of local time: {index:d}",
                                       f"{types[index]:d}"))
            index += 1
        writer.WriteText("\n")
    return offset + number


def code_information(f, offset, is_64bit, debug, writer):
    o = tzif.TimeZoneInformationFile(debug=debug, output_writer=writer)
    if is_64bit:
        f.seek(offset)
        o._ReadTimeZoneInformation64bit(f)
        return f.tell()
    if offset == 0:
        o._ReadTimeZoneInformation32bit(f)
        return f.tell(), o.format_version
    return None


def spec_information(f, offset, is_64bit, debug, writer):
    if not is_64bit and offset != 0:
        return None
    header = spec_header(f, offset, debug, writer)
    end = offset + 44
    number = header.number_of_transition_times
    if number > 0:
        end = spec_transitions(f, end, number, is_64bit, debug, writer)
        end = spec_types(f, end, number, debug, writer)
    end = spec_part(f, end, 6 * header.number_of_local_time_types,
                    "Local time types table data", debug, writer)
    end = spec_part(f, end, header.time_zone_abbreviation_strings_size,
                    "Timezeone abbreviation strings data", debug, writer)
    end = spec_part(f, end, (12 if is_64bit else 8) * header.number_of_leap_seconds,
                    "Leap second records data", debug, writer)
    end = spec_part(f, end, header.number_of_standard_time_indicators,
                    "Standard time indicators data", debug, writer)
    end = spec_part(f, end, header.number_of_utc_time_indicators,
                    "UTC time indicators data", debug, writer)
    if is_64bit:
        return end
    return end, header.format_version


def spec_part(f, offset, size, label, debug, writer):
    data = part(f, offset, size)
    if debug:
        writer.WriteText(show.block(label, show.dump(data)))
    return offset + size


def code_file(f, debug, writer):
    o = tzif.TimeZoneInformationFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)
    return o.format_version


def spec_file(f, debug, writer):
    end, version = spec_information(f, 0, False, debug, writer)
    if version >= 0x32:
        end = spec_information(f, end, True, debug, writer)
        if debug:
            writer.WriteText(show.block("Time zone string", show.dump(f.content[end:])))
    return version


def gen_block(rng, version, size):
    counts = [rng.choice([0, 0, 1, 2, 5]) for _ in range(6)]
    data = rng.choice([b"TZif"] * 19 + [b"TZiF"]) + bytes([version]) + bytes(15)
    data += b"".join(n.to_bytes(4, "big") for n in counts)
    total = counts[3] * (size + 1) + counts[4] * 6 + counts[5] + counts[2] * (
        size + 4) + counts[1] + counts[0]
    return data + bytes(rng.getrandbits(8) for _ in range(total))


def gen_information(rng):
    is_64bit = rng.random() < 0.5
    offset = rng.choice([0, 0, 5]) if is_64bit else 0
    return {"f": cut(rng, bytes(offset) + gen_block(
        rng, rng.choice([0, 0x32, 0x33, 0x34]), 8 if is_64bit else 4)),
        "offset": offset, "is_64bit": is_64bit}


def gen_file(rng):
    version = rng.choice([0, 0x32, 0x33, 0x33, 0x32, 1])
    data = gen_block(rng, version, 4) + gen_block(rng, version, 8)
    return {"f": cut(rng, data + rng.choice([b"", b"\nUTC0\n"]))}


def gen_header(rng):
    offset = rng.choice([0, 0, 7])
    return {"f": cut(rng, bytes(offset) + gen_block(
        rng, rng.choice([0, 0x32, 0x33, 0x34]), 4)), "offset": offset}


def gen_transitions(rng):
    number = rng.choice([0, 1, 2, 5])
    return {"f": cut(rng, bytes(rng.getrandbits(8) for _ in range(9 * number + 3))),
            "offset": 3, "number": number}


def supported_version(ctx, keys):
    version = ctx.app("tzif_version", keys, "int", lo=0, hi=0x33)
    ctx.assume(z3.Or(version.e == 0, version.e >= 0x32))
    return version


def header_stub(interp, f, offset, debug, writer):
    """The header is a function of the contents and the offset."""
    def after(interp, _):
        ctx = interp.ctx
        header = ctx.app("tzif_header", keys, "obj")
        for name in NAMES:
            header.attrs[name] = ctx.app("tzif_" + name, keys, "int", lo=0, hi=2 ** 32 - 1)
        header.attrs["format_version"] = supported_version(ctx, keys)
        return header
    keys = (interp.getattr(f, "content"), offset)
    return show.effect("tzif_header", lambda args: (list(keys), debug, writer), after)(
        interp, (), {})


def code_header_stub(interp, args, kwargs):
    offset = kwargs.get("file_offset", 0)
    header = header_stub(interp, args[1], offset, *show.method_input(args)[1:])
    args[1].pos = models.binop(interp, ast.Add(), models.mkint(offset), 44)
    return header


def numbered_at(*names):
    """Contents and position of the file and the number of transitions of the header."""
    def select(args):
        number = args[2].attrs["number_of_transition_times"]
        return [args[1], models.mkint(args[1].pos), number, *names], args[0].fields[
            "_debug"], args[0].fields["_output_writer"]
    return select


def moved(item):
    """The position after the values of all transitions."""
    def after(interp, args):
        number = args[2].attrs["number_of_transition_times"]
        args[1].pos = models.binop(
            interp, ast.Add(), models.mkint(args[1].pos),
            models.binop(interp, ast.Mult(), item, number))
    return after


def moved_from(item):
    def after(interp, args):
        size = (8 if interp.ctx.decide(args[3]) else 4) if item is None else item
        return models.binop(interp, ast.Add(), args[1],
                            models.binop(interp, ast.Mult(), size, args[2]))
    return after


HERE = "contracts.tzif."
PARTS = {
    T + "_ReadFileHeader": code_header_stub,
    HERE + "spec_header": lambda interp, args, kwargs: header_stub(interp, *args),
    T + "_ReadTransitionTimes32bit": show.effect(
        "tzif_times", numbered_at(False), moved(4)),
    T + "_ReadTransitionTimes64bit": show.effect(
        "tzif_times", numbered_at(True), moved(8)),
    HERE + "spec_transitions": show.effect(
        "tzif_times", show.function_input, moved_from(None)),
    T + "_ReadTransitionTimeIndex": show.effect("tzif_types", numbered_at(), moved(1)),
    HERE + "spec_types": show.effect(
        "tzif_types", show.function_input, moved_from(1)),
}


def information_version(interp, args):
    ctx = interp.ctx
    content = interp.getattr(args[0], "content")
    return supported_version(ctx, (content, 0))


def information_end(interp, args, pos):
    ctx = interp.ctx
    content = interp.getattr(args, "content")
    return models.binop(interp, ast.Add(), pos,
                        ctx.app("tzif_size", (content, pos), "int", lo=44))


def read_information(is_64bit):
    def handler(interp, args, kwargs):
        pos = models.mkint(args[1].pos) if is_64bit else 0
        show.effect("tzif_information", lambda args: (
            [args[1], pos, is_64bit], *show.method_input(args)[1:]))(interp, args, {})
        args[1].pos = information_end(interp, args[1], pos)
        if not is_64bit:
            args[0].fields["format_version"] = information_version(interp, args[1:])
    return handler


def information(interp, args, kwargs):
    show.effect("tzif_information", show.function_input)(interp, args, {})
    end = information_end(interp, args[0], args[1])
    if args[2]:
        return end
    return end, information_version(interp, args)


INFORMATION = {
    T + "_ReadTimeZoneInformation32bit": read_information(False),
    T + "_ReadTimeZoneInformation64bit": read_information(True),
    HERE + "spec_information": information,
}
SHOWN = {"debug": Bool(), "writer": Writer()}

CONTRACTS = [
    Contract("P12", "tzif.header", code_header, shown_header,
             {"f": File(), "offset": Int(0, 2 ** 40), **SHOWN}, gen=gen_header,
             stubs=show.STUBS, targets=[T + "_ReadFileHeader"]),
    Contract("P12", "tzif.transitions", code_transitions, spec_transitions,
             {"f": File(), "offset": Int(0, 2 ** 40), "number": Int(0, 2 ** 32 - 1),
              "is_64bit": Bool(), **SHOWN}, gen=gen_transitions, stubs=show.STUBS,
             targets=[T + "_ReadTransitionTimes32bit", T + "_ReadTransitionTimes64bit"]),
    Contract("P12", "tzif.types", code_types, spec_types,
             {"f": File(), "offset": Int(0, 2 ** 40), "number": Int(0, 2 ** 32 - 1),
              **SHOWN}, gen=gen_transitions, stubs=show.STUBS,
             targets=[T + "_ReadTransitionTimeIndex"]),
    Contract("P12", "tzif.information", code_information, spec_information,
             {"f": File(), "offset": Int(0, 2 ** 40), "is_64bit": Bool(), **SHOWN},
             gen=gen_information, stubs={**show.STUBS, **PARTS},
             targets=[T + "_ReadTimeZoneInformation32bit",
                      T + "_ReadTimeZoneInformation64bit",
                      T + "_ReadLocalTimeTypesTable",
                      T + "_ReadTimeZoneAbbreviationStrings",
                      T + "_ReadLeapSecondRecords", T + "_ReadStandardTimeIndicators",
                      T + "_ReadUTCTimeIndicators"]),
    Contract("P12", "tzif.file", code_file, spec_file, {"f": File(), **SHOWN},
             gen=gen_file, stubs={**show.STUBS, **INFORMATION},
             targets=[T + "ReadFileObject"]),
]

"""Contracts of the text of metadata attributes of Apple Spotlight store databases."""

import random

from dfdatetime import cocoa_time

from contracts import show
from contracts import spotlight as spot
from contracts import spotlight_tables as tables
from engine.speclib import Rec
from engine.verify import Bool, Bytes, Choice, Contract, Float, Int, Ints, Str, Writer

S = spot.S
HERE = "contracts.spotlight_shown."


def code_time(value, writer):
    spot.store_file(True, writer)._DebugPrintCocoaTimeValue("Date and time", value)


def time_text(value):
    """A number of seconds since January 1, 2001."""
    text = None
    try:
        text = cocoa_time.CocoaTime(timestamp=value).CopyToDateTimeString()
    except (OverflowError, ValueError):
        pass
    return f"{text} UTC" if text else f"{value:f}"


def spec_time(value, writer):
    if value == 0:
        writer.WriteText(show.line("Date and time", "Not set (0)"))
    else:
        writer.WriteText(show.line("Date and time", time_text(value)))


def code_shown(key, kind, code, value, writer):
    spot.store_file(True, writer)._DebugPrintMetadataAttribute(
        Rec(key=key, property_type=kind, value_type=code, value=value))


def code_number(kind, code, value, writer):
    code_shown("a", kind, code, value, writer)


def spec_number(kind, code, value, writer):
    """A number has a type of 0, 2 or 6 or is the only one of a type of 7 or 8."""
    if code == 0:
        writer.WriteText(show.line("Integer", f"{value:d}"))
        writer.WriteText(show.line("Boolean", "True" if value != 0 else "False"))
    elif code in (2, 6):
        writer.WriteText(show.line("Integer", f"0x{value:08x}"))
    elif code == 7:
        writer.WriteText(show.line("Integer", f"{value:d}"))
    elif code == 8:
        writer.WriteText(show.line("Byte", f"{value:d}"))
    writer.WriteText("\n")


def code_numbers(kind, code, values, writer):
    code_shown("a", kind, code, values, writer)


def spec_numbers(kind, code, values, writer):
    name = "Integer" if code == 7 else "Byte"
    for index, value in enumerate(values):
        writer.WriteText(show.line(f"{name:s}: {index:d}", f"{value:d}"))
    writer.WriteText("\n")


def code_float(kind, code, value, writer):
    code_shown("a", kind, code, value, writer)


def cocoa(label, value, writer):
    spot.store_file(True, writer)._DebugPrintCocoaTimeValue(label, value)


def spec_float(kind, code, value, writer):
    if code == 12 and value < 7500000000.0:
        cocoa("Date and time", value, writer)
    else:
        writer.WriteText(show.line("Floating-point", f"{value:f}"))
    writer.WriteText("\n")


def floats_of(number):
    rng = random.Random(number)
    return [rng.choice([0.0, 1.5, 7500000000.0, 1e10, -1e300, 100.0])
            for _ in range(rng.randrange(4))]


def code_floats(kind, code, number, writer):
    code_shown("a", kind, code, floats_of(number), writer)


def spec_floats(kind, code, number, writer):
    if code == 12:
        for index, value in enumerate(floats_of(number)):
            if value < 7500000000.0:
                cocoa(f"Date and time: {index:d}", value, writer)
            else:
                writer.WriteText(show.line(f"Floating-point: {index:d}", f"{value:f}"))
    else:
        for index, value in enumerate(floats_of(number)):
            writer.WriteText(show.line(f"Floating-point: {index:d}", f"{value:f}"))
    writer.WriteText("\n")


def code_text(kind, code, value, writer):
    code_shown("a", kind, code, value, writer)


def spec_text(kind, code, value, writer):
    label = "String"
    if code == 15:
        label = "Localized string" if kind & 3 == 3 else "Value"
    writer.WriteText(show.line(label, value))
    writer.WriteText("\n")


def texts_of(number):
    rng = random.Random(number)
    return [rng.choice(["", "a", "bc"]) for _ in range(rng.randrange(4))]


def code_texts(kind, number, writer):
    code_shown("a", kind, 11, texts_of(number), writer)


def spec_texts(kind, number, writer):
    for index, value in enumerate(texts_of(number)):
        writer.WriteText(show.line(f"String: {index:d}", value))
    writer.WriteText("\n")


def code_data(key, kind, code, data, writer):
    code_shown(key, kind, code, data, writer)


def spec_data(key, kind, code, data, writer):
    """Data is shown for its type and, whatever the type, for the accumulated sizes."""
    label = "Data" if key == "kMDStoreAccumulatedSizes" else "Binary data"
    writer.WriteText(show.block(label, show.dump(data)))
    writer.WriteText("\n")


def code_unknown(kind, writer):
    code_shown("a", kind, 13, None, writer)


def spec_unknown(kind, writer):
    writer.WriteText("\n")


def some_time(rng):
    return {"value": rng.choice([0.0, 1.5, -1e9, 7e9, -1e12, -1e300, float("-inf"),
                                 rng.uniform(-7e10, 8e9)])}


def sequence_of(name, kind):
    def handler(interp, args, kwargs):
        return show.sequence(interp, name, args, kind)
    return handler


def shown_time(interp, args, kwargs):
    """Call-site contract: shows a text determined by the value."""
    text = show.plain(interp.ctx.app("cocoa_time", (args[-1],), "str"))
    interp.call(interp.getattr(args[0].fields["_output_writer"], "WriteText"), [
        interp.call(show.line, [args[1], text], {})], {})


def spec_shown(interp, args, kwargs):
    text = show.plain(interp.ctx.app("cocoa_time", (args[1],), "str"))
    interp.call(interp.getattr(args[2], "WriteText"), [
        interp.call(show.line, [args[0], text], {})], {})


COCOA = {S + "_DebugPrintCocoaTimeValue": shown_time, HERE + "cocoa": spec_shown}
TARGETS = [S + "_DebugPrintMetadataAttribute"]
KIND = Int(0, 255)
ONE = Choice(*[k for k in range(16) if not k & 2])
MANY = Choice(*[k for k in range(16) if k & 2])

CONTRACTS = [
    Contract("P22", "spotlight.cocoa", code_time, spec_time,
             {"value": Float(), "writer": Writer()}, gen=some_time,
             targets=[S + "_DebugPrintCocoaTimeValue"]),
    Contract("P22", "spotlight.show_number", code_number, spec_number,
             {"kind": ONE, "code": Choice(0, 2, 6, 7, 8), "value": Int(0),
              "writer": Writer()}, stubs=show.STUBS, targets=TARGETS),
    Contract("P22", "spotlight.show_numbers", code_numbers, spec_numbers,
             {"kind": MANY, "code": Choice(7, 8), "values": Ints(0), "writer": Writer()},
             stubs=show.STUBS, targets=TARGETS),
    Contract("P22", "spotlight.show_float", code_float, spec_float,
             {"kind": ONE, "code": Choice(9, 10, 12), "value": Float(),
              "writer": Writer()}, stubs={**show.STUBS, **COCOA}, targets=TARGETS),
    Contract("P22", "spotlight.show_floats", code_floats, spec_floats,
             {"kind": MANY, "code": Choice(9, 10, 12), "number": Int(0),
              "writer": Writer()}, targets=TARGETS, stubs={
                  **show.STUBS, **COCOA, HERE + "floats_of": sequence_of(
                      "floats_of", "float")}),
    Contract("P22", "spotlight.show_text", code_text, spec_text,
             {"kind": Choice(*[k for k in range(16) if k & 3 != 2]),
              "code": Choice(11, 15), "value": Str(), "writer": Writer()},
             stubs=show.STUBS, targets=TARGETS),
    Contract("P22", "spotlight.show_texts", code_texts, spec_texts,
             {"kind": Choice(2, 6, 10, 14), "number": Int(0), "writer": Writer()},
             targets=TARGETS, stubs={**show.STUBS, HERE + "texts_of": sequence_of(
                 "texts_of", "str")}),
    Contract("P22", "spotlight.show_data", code_data, spec_data,
             {"key": Choice("kMDStoreAccumulatedSizes", "a"), "kind": KIND,
              "code": Choice(14), "data": Bytes(), "writer": Writer()},
             stubs=show.STUBS, targets=TARGETS),
    Contract("P22", "spotlight.show_unknown", code_unknown, spec_unknown,
             {"kind": KIND, "writer": Writer()}, targets=TARGETS),
]

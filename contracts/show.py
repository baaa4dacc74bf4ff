"""Text shown for values, as specified in formatting.py (property P06)."""

from dfdatetime import filetime
from dfdatetime import posix_time
from dtformats import data_format
from dtformats import errors


def line(label, value):
    """A label and the value in the tab-aligned column."""
    return f"{label}{chr(9) * (9 - len(label) // 8)}: {value!s}\n"


def block(label, text):
    """A label and text of several lines below it."""
    return f"{label}:\n{text}"


def value(label, text):
    """A value shown as part of a structure, text of several lines starts below."""
    return placed(label, text, True)


def placed(label, text, below):
    """A text as part of a structure."""
    if "\n" not in text:
        return line(label, text)
    if below:
        return block(label, text)
    return f"{label}{chr(9) * (9 - len(label) // 8)}: {text}"


def format_structure(self, structure_object, debug_info):
    """Text of the values of a structure object (proved in formatting.py)."""
    lines = []
    for name, label, callback in debug_info:
        attribute = getattr(structure_object, name, None)
        if attribute is not None:
            function = getattr(self, callback, None) if callback else None
            if function:
                attribute = function(attribute)
            below = True
            if isinstance(attribute, tuple):
                attribute, below = attribute
            if isinstance(attribute, str):
                lines.append(placed(label, attribute, below))
            else:
                lines.append(line(label, attribute))
    return structure(*lines) if lines else "\n"


def structure(*lines):
    """The values of a structure and an empty line."""
    text = "".join(lines)
    if lines[-1][-2:] != "\n\n":
        text += "\n"
    return text


def dump(data):
    """Hexadecimal dump, specified in hexdump.py (property P03)."""
    return data_format.BinaryDataFormat()._FormatDataInHexadecimal(data)[0]


def stream(data):
    """Data as text with non-printable bytes escaped, specified in formatting.py."""
    return data_format.BinaryDataFormat()._FormatStreamAsString(data)


def filetime_text(value):
    if value == 0:
        return "Not set (0)"
    if value == 0x7FFFFFFFFFFFFFFF:
        return "Never (0x7fffffffffffffff)"
    text = filetime.Filetime(timestamp=value).CopyToDateTimeString()
    return f"{text} UTC" if text else f"0x{value:08x}"


def posix_text(value):
    if value == 0:
        return "Not set (0)"
    text = posix_time.PosixTime(timestamp=value).CopyToDateTimeString()
    return f"{text} UTC" if text else f"0x{value:08x}"


def hexdump_stub(interp, args, kwargs):
    """Call-site contract of the hexadecimal dump: a function of the data."""
    from engine import core, models
    data = args[1]
    if isinstance(data, list) and len(data) == 1 and isinstance(
            data[0], core.Splice) and hasattr(data[0].elem, "whole"):
        data = models.to_bytes(interp, [data])
    text = interp.ctx.app("hexdump", (data,), "str")
    text.parts[0].args[0].attrs.update(contains="\n", nonempty=True)
    return text, True


def effect(fname, select, after=None):
    """Call-site contract of a function that reads and shows its input.

    It fails with a ParseError or shows a text, both determined by the input. Text shown
    before a ParseError is not specified. The function select gives the input, the debug
    mode and the writer for the arguments of a call.
    """
    def handler(interp, args, kwargs):
        from engine import models
        ctx = interp.ctx
        keys, debug, writer = select(args)
        keys = [interp.getattr(k, "content") if isinstance(k, models.SFile)
                else k for k in keys]
        if not ctx.decide(ctx.app(fname + "_ok", tuple(keys), "bool")):
            interp.throw(errors.ParseError)
        if ctx.decide(debug):
            interp.call(interp.getattr(writer, "WriteText"), [
                ctx.app(fname + "_text", tuple(keys), "str")], {})
        return after(interp, args) if after else None
    return handler


def integers(interp, fname, keys, hi):
    """A sequence of integers that are not negative, determined by the input."""
    return sequence(interp, fname, keys, "int", lo=0, hi=hi)


def sequence(interp, fname, keys, kind, **limits):
    """A sequence of values determined by the input."""
    from engine import core
    import z3
    ctx = interp.ctx

    def make():
        sym = core.fresh_name(fname)
        size = ctx.fresh_int("size", lo=0).e
        return [core.Splice(sym, z3.IntVal(0), size, lambda i: ctx.app(
            "elem:" + sym, (core.mkint(i),), kind, **limits))]
    return list(ctx.app(fname, tuple(keys), "list", make=make))


def method_input(args):
    """The input of a method of a format object."""
    return args[1:], args[0].fields["_debug"], args[0].fields["_output_writer"]


def function_input(args):
    """The input of a specification with debug mode and writer as last arguments."""
    return args[:-2], args[-2], args[-1]


def plain(text):
    """A text that is not empty and has a single line."""
    text.parts[0].args[0].attrs.update(excludes="\n", nonempty=True)
    return text


def pure(fname, kind="str"):
    """Call-site contract: a function of the last argument."""
    def handler(interp, args, kwargs):
        return interp.ctx.app(fname, (args[-1],), kind)
    return handler


def pure_time(fname):
    def handler(interp, args, kwargs):
        return plain(interp.ctx.app(fname, (args[-1],), "str"))
    return handler


def pure_pair(fname):
    def handler(interp, args, kwargs):
        return plain(interp.ctx.app(fname, (args[-1],), "str")), False
    return handler


def printed(fname):
    """Call-site contract of the functions that print a time (property P06)."""
    def handler(interp, args, kwargs):
        value = plain(interp.ctx.app(fname, (args[2],), "str"))
        interp.call_function(data_format.BinaryDataFormat._DebugPrintValue,
                             [args[0], args[1], value], {})
    return handler


def structure_stub(interp, args, kwargs):
    """Call-site contract of the text of a structure."""
    return interp.call_function(format_structure, args, kwargs)


def placed_stub(interp, args, kwargs):
    """A text that may have several lines is not decided."""
    from engine import models
    label, text, below = args
    if isinstance(text, str) or any(
            models.atom_contains(p, "\n") for p in text.parts) or all(
                isinstance(p, str) or models.atom_excludes(interp.ctx, p, "\n")
                for p in text.parts):
        return NotImplemented
    return interp.ctx.app("placed", (label, text, below), "str")


_BASE = "dtformats.data_format.BinaryDataFormat."

STUBS = {
    _BASE + "_FormatStructureObject": structure_stub,
    "contracts.show.placed": placed_stub,
    _BASE + "_FormatDataInHexadecimal": hexdump_stub,
    _BASE + "_FormatIntegerAsPosixTime": pure_time("posix_text"),
    _BASE + "_FormatIntegerAsFiletime": pure_pair("filetime_text"),
    _BASE + "_DebugPrintPosixTimeValue": printed("posix_text"),
    _BASE + "_DebugPrintFiletimeValue": printed("filetime_text"),
    "contracts.show.posix_text": pure_time("posix_text"),
    "contracts.show.filetime_text": pure_time("filetime_text"),
}

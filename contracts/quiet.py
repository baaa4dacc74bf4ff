"""Call-site contracts of the debug output functions.

Debug output writes text and changes nothing else; what it writes is specified by
the contracts on formatting.
"""

_BASE = "dtformats.data_format.BinaryDataFormat."


def nothing(interp, args, kwargs):
    return None


STUBS = {_BASE + name: nothing for name in (
    "_DebugPrintData", "_DebugPrintDecimalValue", "_DebugPrintFiletimeValue",
    "_DebugPrintStructureObject", "_DebugPrintPosixTimeValue", "_DebugPrintText",
    "_DebugPrintValue")}


def text(interp, args, kwargs):
    """Some text, that of a function with a contract of its own."""
    return interp.ctx.fresh_str("text")

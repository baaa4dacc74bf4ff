"""Contracts of Apple unified logging trace files."""

from dtformats import errors
from dtformats import unified_logging

from contracts import show
from contracts import spotlight_tables as tables
from engine import core
from engine.verify import Bool, Bytes, Contract, Int, Writer

D = "dtformats.unified_logging.TraceV3File."
HERE = "contracts.unified_trace."


class Parts:
    """The values of a tracepoint or record."""

    def __init__(self, **values):
        for name, value in values.items():
            setattr(self, name, value)


def reader(debug, writer):
    return unified_logging.TraceV3File(debug=debug, output_writer=writer)


def parts_of(large, shared, has_large, has_shared):
    parts = Parts()
    if has_large:
        parts.large_offset_data = large
    if has_shared:
        parts.large_shared_cache_data = shared
    return parts


def code_format(reference, large, shared, has_large, has_shared, debug, writer):
    return reader(debug, writer)._CalculateFormatStringReference(
        parts_of(large, shared, has_large, has_shared), reference)


def shown_reference(name, reference, debug, writer):
    if debug:
        writer.WriteText(show.line(name, f"0x{reference:08x}"))
        writer.WriteText("\n")


def spec_format(reference, large, shared, has_large, has_shared, debug, writer):
    """Gives the reference of a format string: the large offset is above bit 31, that
    says that the string is determined when it is shown."""
    upper = 0
    if has_shared and shared > 0:
        upper = shared
    elif has_large:
        upper = large
    value = reference % 2 ** 31 + upper * 2 ** 31
    shown_reference("Calculated format string reference", value, debug, writer)
    return value, reference >= 2 ** 31


def code_name(reference, large, has_large, debug, writer):
    parts = Parts()
    parts.name_string_reference_lower = reference
    if has_large:
        parts.name_string_reference_upper = large
    return reader(debug, writer)._CalculateNameStringReference(parts)


def spec_name(reference, large, has_large, debug, writer):
    """Gives the reference of the string of the name of a signpost."""
    upper = 0
    if has_large:
        upper = large
    value = reference % 2 ** 31 + upper * 2 ** 31
    shown_reference("Calculated name string reference", value, debug, writer)
    return value, reference >= 2 ** 31


def code_identifier(reference, flags, log_type, record_type, debug, writer):
    parts = Parts()
    parts.format_string_reference = reference
    parts.flags = flags
    parts.log_type = log_type
    parts.record_type = record_type
    return reader(debug, writer)._GetTraceIdentifier(parts)


def spec_identifier(reference, flags, log_type, record_type, debug, writer):
    """Gives the identifier of a trace."""
    value = reference * 2 ** 32 + flags * 2 ** 16 + log_type * 256 + record_type
    if debug:
        writer.WriteText(show.line("Trace identifier", f"{value:d}"))
        writer.WriteText("\n")
    return value


def code_values(count, data):
    o = reader(False, None)
    trace = Parts()
    trace.number_of_values = count
    return o._ReadFirehoseTracepointTraceValuesData(trace, data, None)


def decoded(index, data):
    return reader(False, None)._DecodeValue(None, index, data)


def spec_values(count, data):
    """Gives the values of a trace, of which the sizes are at the end of the data, before
    the number of them."""
    if count == 0:
        return []
    if len(data) < 1 + count:
        raise errors.ParseError("missing sizes of values")
    start = 0
    values = []
    for index in range(count):
        size = data[len(data) - 1 - count + index]
        if size != 4 and size != 8:
            raise errors.ParseError("unsupported size of value")
        values.append(decoded(index, data[start:start + size]))
        start += size
    return values


def code_record(table, time):
    o = reader(False, None)
    o._sorted_timesync_sync_records = sync_records(table)
    record = o._GetTimesyncRecord(time)
    if record is None:
        return None
    return record.kernel_time, record.timestamp


def sync_records(table):
    return [Parts(kernel_time=table[2 * i], timestamp=table[2 * i + 1])
            for i in range(len(table) // 2)]


def spec_record(table, time):
    """Gives the first record that is not after a time."""
    for record in sync_records(table):
        if record.kernel_time <= time:
            return record.kernel_time, record.timestamp
    return None


def gen_values(rng):
    count = rng.choice([0, 1, 2, 3])
    sizes = bytes(rng.choice([4, 8, 8, 4, 5]) for _ in range(count))
    data = rng.randbytes(rng.choice([4 * count, sum(sizes)])) + sizes + bytes([count])
    if rng.random() < 0.2:
        data = data[-rng.randrange(0, len(data) + 1):]
    return {"data": data, "count": count}


def gen_record(rng):
    return {"table": bytes(rng.randrange(0, 9) for _ in range(rng.choice([0, 2, 4, 6]))),
            "time": rng.randrange(0, 9)}


SHOWN = {"debug": Bool(), "writer": Writer()}
REFERENCE = Int(0, 2 ** 32 - 1)
VALUES = {D + "_DecodeValue": lambda interp, args, kwargs: interp.ctx.app(
    "decoded", tuple(args[2:4]), "str")}
SORTED = {HERE + "sync_records": tables.sequence_of(
    "records", lambda ctx, sym, key: core.SObj(Parts, {
        name: ctx.app(name + ":" + sym, key, "int")
        for name in ("kernel_time", "timestamp")}))}

CONTRACTS = [
    Contract("P24", "unified.format_reference", code_format, spec_format,
             {"reference": REFERENCE, "large": Int(0, 65535), "shared": Int(0, 65535),
              "has_large": Bool(), "has_shared": Bool(), **SHOWN}, stubs=show.STUBS,
             targets=[D + "_CalculateFormatStringReference"]),
    Contract("P24", "unified.name_reference", code_name, spec_name,
             {"reference": REFERENCE, "large": Int(0, 65535), "has_large": Bool(),
              **SHOWN}, stubs=show.STUBS, targets=[D + "_CalculateNameStringReference"]),
    Contract("P24", "unified.trace_identifier", code_identifier, spec_identifier,
             {"reference": REFERENCE, "flags": Int(0, 65535), "log_type": Int(0, 255),
              "record_type": Int(0, 255), **SHOWN}, stubs=show.STUBS,
             targets=[D + "_GetTraceIdentifier"]),
    Contract("P24", "unified.trace_values", code_values, spec_values,
             {"count": Int(0, 255), "data": Bytes()}, gen=gen_values, stubs=VALUES,
             targets=[D + "_ReadFirehoseTracepointTraceValuesData"]),
    Contract("P24", "unified.sync_record", code_record, spec_record,
             {"table": Bytes(), "time": Int(0, 2 ** 64 - 1)}, gen=gen_record,
             stubs=SORTED, targets=[D + "_GetTimesyncRecord"]),
]

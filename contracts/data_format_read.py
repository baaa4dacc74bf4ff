"""Contracts of exact reads and of mapping structures."""

from dtfabric import errors as dtfabric_errors

from dtformats import data_format
from dtformats import errors

from contracts import quiet
from contracts import show
from engine.verify import Bool, Bytes, Choice, Contract, File, Int, IntSeq, Writer

T = "dtformats.data_format.BinaryDataFormat."


def code_read_data(f, offset, size, position):
    f.seek(position, 0)
    reader = data_format.BinaryDataFormat()
    data = reader._ReadData(f, offset, size, "data")
    return data, f.tell()


def spec_read_data(f, offset, size, position):
    content = f.content
    data = content[offset : offset + max(size, 0)]
    if len(data) != size:
        raise errors.ParseError("missing data")
    return data, offset + size


def code_read_faulty(f, offset, size):
    reader = data_format.BinaryDataFormat()
    return reader._ReadData(f, offset, size, "data")


def spec_read_faulty(f, offset, size):
    f.seek(offset, 0)
    try:
        data = f.read(size)
    except OSError:
        raise errors.ParseError("I/O error")
    if len(data) != size:
        raise errors.ParseError("missing data")
    return data


class AnyMap:
    """Arbitrary data type map: sequence of size hints and of outcomes."""

    def __init__(self, hints, outcomes):
        self.hints = hints
        self.outcomes = outcomes
        self.calls = 0

    def GetSizeHint(self, context=None):
        return self.hints[self.calls]

    def MapByteStream(self, data, context=None):
        outcome = self.outcomes[self.calls]
        self.calls += 1
        if outcome == 1:
            raise dtfabric_errors.ByteStreamTooSmallError("small")
        if outcome == 2:
            raise dtfabric_errors.MappingError("invalid")
        return (outcome, data)


def code_structure(f, offset, hints, outcomes, debug, writer, position):
    f.seek(position, 0)
    reader = data_format.BinaryDataFormat(debug=debug, output_writer=writer)
    return reader._ReadStructureFromFileObject(
        f, offset, AnyMap(hints, outcomes), "structure")


def spec_structure(f, offset, hints, outcomes, debug, writer, position):
    content = f.content
    if debug:
        writer.WriteText(f"Reading structure at offset: {offset:d} (0x{offset:08x})\n")
    calls = 0
    last = 0
    size = hints[0]
    data = b""
    while size != last:
        # the bytes are exactly those of the file from the offset on
        if size < last or offset + size > len(content):
            raise errors.ParseError("missing data")
        data = content[offset : offset + size]
        outcome = outcomes[calls]
        if outcome == 2:
            raise errors.ParseError("invalid structure")
        if outcome != 1:
            if debug:
                writer.WriteText(show.block("Structure data", show.dump(data)))
            return (outcome, data), size
        calls += 1
        last = size
        size = hints[calls]
    raise errors.ParseError("incomplete structure")


def code_byte_stream(data, offset, outcomes):
    reader = data_format.BinaryDataFormat()
    return reader._ReadStructureFromByteStream(
        data, offset, AnyMap(outcomes, outcomes), "structure")


def spec_byte_stream(data, offset, outcomes):
    if len(data) == 0:
        raise ValueError("missing byte stream")
    if outcomes[0] == 1 or outcomes[0] == 2:
        raise errors.ParseError("invalid structure")
    return (outcomes[0], data)


class AnyFabric:
    """Arbitrary definitions: a map per name."""

    def CreateDataTypeMap(self, name):
        return "map of " + name


class AnyFormat(data_format.BinaryDataFormat):
    """Format with arbitrary definitions."""

    _FABRIC = AnyFabric()


def code_maps(first, second, third):
    reader = AnyFormat()
    return (reader._GetDataTypeMap(first), reader._GetDataTypeMap(second),
            reader._GetDataTypeMap(third))


def spec_maps(first, second, third):
    return "map of " + first, "map of " + second, "map of " + third


def code_no_definitions(name):
    return data_format.BinaryDataFormat()._GetDataTypeMap(name)


def spec_no_definitions(name):
    raise RuntimeError("missing definitions")


def gen_structure(rng):
    n = rng.randint(0, 40)
    offset = rng.randint(0, n + 2)
    hints, h = [], 0
    for _ in range(8):
        h += rng.choice([0, 1, 1, 2, 3, 5])
        hints.append(h)
    return {"f": bytes(rng.getrandbits(8) for _ in range(n)), "offset": offset,
            "hints": hints, "outcomes": [rng.choice([0, 1, 1, 1, 1, 2, 5])
                                         for _ in range(8)]}


CONTRACTS = [
    Contract("P02", "data_format.read_structure", code_structure, spec_structure,
             {"f": File(), "offset": Int(lo=0), "hints": IntSeq(lo=0),
              "outcomes": IntSeq(), "debug": Bool(), "writer": Writer(),
              "position": Int(lo=0)},
             gen=gen_structure, stubs=show.STUBS, trace=True,
             targets=[T + "_ReadStructureFromFileObject", T + "_ReadData"]),
    Contract("P02", "data_format.map_byte_stream", code_byte_stream, spec_byte_stream,
             {"data": Bytes(), "offset": Int(lo=0), "outcomes": IntSeq()},
             targets=[T + "_ReadStructureFromByteStream"]),
    Contract("P02", "data_format.get_data_type_map", code_maps, spec_maps,
             {name: Choice("a", "b", "c") for name in ("first", "second", "third")},
             targets=[T + "_GetDataTypeMap"]),
    Contract("P02", "data_format.no_definitions", code_no_definitions,
             spec_no_definitions, {"name": Choice("a", "b")},
             targets=[T + "_GetDataTypeMap"]),
    Contract("P02", "data_format.read_data", code_read_data, spec_read_data,
             {"f": File(), "offset": Int(lo=0), "size": Int(),
              "position": Int(lo=0)}, targets=[T + "_ReadData"]),
    Contract("P02", "data_format.read_data_io_error", code_read_faulty,
             spec_read_faulty,
             {"f": File(faulty=True), "offset": Int(lo=0), "size": Int()},
             targets=[T + "_ReadData"]),
]

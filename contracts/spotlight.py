"""Contracts of Apple Spotlight store database files."""

from dtformats import errors
from dtformats import spotlight_storedb

from contracts import show
from contracts.windows_records import cut, missing
from engine import core
from engine import models
from engine.speclib import Rec, float_of, floats, strings, u
from engine.verify import Bool, Bytes, Choice, Contract, File, Int, Str, Writer

S = "dtformats.spotlight_storedb.SpotlightStoreDatabaseFile."
M = "dtformats.spotlight_storedb.SpotlightStreamsMapDataFile."
HERE = "contracts.spotlight."


def store_file(debug, writer):
    return spotlight_storedb.SpotlightStoreDatabaseFile(debug=debug, output_writer=writer)


# Variable size integers.

def code_integer(data):
    return store_file(False, None)._ReadVariableSizeInteger(data)


def code_stream_integer(data):
    return spotlight_storedb.SpotlightStreamsMapDataFile(
        0, [])._ReadVariableSizeInteger(data)


def spec_integer(data):
    """As many bytes follow as the first has leading 1 bits, of the highest value first."""
    missing(data, 1)
    more = 0
    for bits in (0x80, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc, 0xfe, 0xff):
        if data[0] >= bits:
            more += 1
    missing(data, 1 + more)
    value = 0
    if more < 5:
        value = data[0] % (0x80 >> more)
    for i in range(more):
        value = value * 256 + data[1 + i]
    return value, 1 + more


def code_integers(data):
    values, size = store_file(False, None)._ReadVariableSizeIntegers(data, ["a", "b", "c"])
    return values["a"], values["b"], values["c"], size


def spec_integers(data):
    a, p = spec_integer(data)
    b, size = spec_integer(data[p:])
    p += size
    c, size = spec_integer(data[p:])
    return a, b, c, p + size


# Values of metadata attributes.

def decimal(label, value, debug, writer):
    if debug:
        writer.WriteText(show.line(label, f"{value:d}"))


def code_bytes(kind, data, debug, writer):
    return store_file(debug, writer)._ReadMetadataAttributeByteValue(kind, data)


def spec_bytes(kind, data, debug, writer):
    if not kind & 2:
        missing(data, 1)
        return data[0], 1
    size, p = spec_integer(data)
    decimal("Data size", size, debug, writer)
    missing(data, p + size)
    return tuple(data[p:p + size]), p + size


def code_floats(kind, data, debug, writer):
    return store_file(debug, writer)._ReadMetadataAttributeFloat32Value(kind, data)


def spec_floats(kind, data, debug, writer):
    return float_values(kind, data, 4, debug, writer)


def code_doubles(kind, data, debug, writer):
    return store_file(debug, writer)._ReadMetadataAttributeFloat64Value(kind, data)


def spec_doubles(kind, data, debug, writer):
    return float_values(kind, data, 8, debug, writer)


def float_values(kind, data, width, debug, writer):
    if not kind & 2:
        missing(data, width)
        return float_of(data[:width], "little"), width
    size, p = spec_integer(data)
    decimal("Data size", size, debug, writer)
    missing(data, p + size // width * width)
    return floats(data[p:p + size // width * width], width, "little"), p + size


def code_numbers(kind, data, debug, writer):
    return store_file(debug, writer)._ReadMetadataAttributeVariableSizeIntegerValue(
        kind, data)


def spec_numbers(kind, data, debug, writer):
    if not kind & 2:
        return spec_integer(data)
    size, p = spec_integer(data)
    decimal("Data size", size, debug, writer)
    values = []
    end = p + size
    while p < end:
        value, size = spec_integer(data[p:end])
        values.append(value)
        p += size
    return values, end


def code_strings(kind, data, debug, writer):
    return store_file(debug, writer)._ReadMetadataAttributeStringValue(kind, data)


def spec_strings(kind, data, debug, writer):
    size, p = spec_integer(data)
    decimal("Data size", size, debug, writer)
    if debug:
        writer.WriteText(show.block("Data", show.dump(data[p:p + size])))
    missing(data, p + size)
    texts = strings(data[p:p + size], "utf8")
    if texts is None:
        raise errors.ParseError("invalid strings")
    if kind & 3 == 2:
        return texts, p + size
    if not texts:
        raise errors.ParseError("missing string")
    text = texts[0]
    if kind & 3 == 3:
        text = localized(text)
    return text, p + size


def localized(text):
    """The default of a localized string."""
    if "\x16\x02" in text:
        text = text.split("\x16\x02")[0]
    return text


class Table:
    """A table of which the values are determined by a number."""

    def __init__(self, number, kind):
        self.number = number
        self.kind = kind

    def get(self, index, default=None):
        if self.kind == "names":
            name = name_of(self.number, index)
            return default if name is None else Rec(value_name=name)
        if self.kind == "types":
            value = type_of(self.number, index)
            return default if value is None else Rec(
                key_name=value[0], property_type=value[1], value_type=value[2])
        values = list_of(self.number, index)
        return default if values is None else Rec(values_list=values)


def name_of(number, index):
    return None if (number + index) % 3 == 0 else f"name{number + index:d}"


def list_of(number, index):
    k = (number + index) % 5
    return None if k == 0 else [
        f"{i:d}\x16\x02x" if k == 4 else f"{i:d}" for i in range(k - 1)]


def type_of(number, index):
    k = (number + index) % 40
    return None if k > 32 else (f"key{k:d}", k * 7 % 16, k % 17)


def code_reference(kind, data, number, debug, writer):
    o = store_file(debug, writer)
    o._metadata_values = Table(number, "names")
    o._metadata_lists = Table(number, "lists")
    o._metadata_localized_strings = Table(number + 1, "lists")
    return o._ReadMetadataAttributeReferenceValue(kind, data)


def spec_reference(kind, data, number, debug, writer):
    index, size = spec_integer(data)
    if kind & 3 == 3:
        decimal("Localized strings table index", index, debug, writer)
        values = list_of(number + 1, index)
        return localized(values[0]) if values else "(null)", size
    if kind & 3 == 2:
        decimal("Values list table index", index, debug, writer)
        values = list_of(number, index)
        return [] if values is None else values, size
    decimal("Values table index", index, debug, writer)
    name = name_of(number, index)
    return "(null)" if name is None else name, size


# Metadata attributes.

def code_attribute(key, kind, code, data, number, debug, writer):
    o = store_file(debug, writer)
    a, size = o._ReadMetadataAttribute(
        Rec(key_name=key, property_type=kind, value_type=code), data)
    return a.key, a.property_type, a.value_type, a.value, size


def value_of(name, kind, data, debug, writer):
    o = store_file(debug, writer)
    return getattr(o, f"_ReadMetadataAttribute{name:s}Value")(kind, data)


def show_attribute(key, kind, value, code, debug, writer):
    a = spotlight_storedb.SpotlightStoreMetadataAttribute()
    a.key, a.property_type, a.value, a.value_type = key, kind, value, code
    store_file(debug, writer)._DebugPrintMetadataAttribute(a)


def spec_attribute(key, kind, code, data, number, debug, writer):
    if debug:
        writer.WriteText(show.line("Key name", key or ""))
        writer.WriteText(show.line("Property type", f"0x{kind:02x}"))
        writer.WriteText(show.line("Value type", f"0x{code:02x}"))
    if key == "kMDStoreAccumulatedSizes":
        value, size = data, len(data)
    elif code in (0, 2, 6):
        value, size = spec_integer(data)
    elif code == 7:
        value, size = value_of("VariableSizeInteger", kind, data, debug, writer)
    elif code == 8:
        value, size = value_of("Byte", kind, data, debug, writer)
    elif code == 9:
        value, size = value_of("Float32", kind, data, debug, writer)
    elif code in (10, 12):
        value, size = value_of("Float64", kind, data, debug, writer)
    elif code == 11:
        value, size = value_of("String", kind, data, debug, writer)
    elif code == 14:
        size, p = spec_integer(data)
        decimal("Data size", size, debug, writer)
        missing(data, p + size)
        value, size = data[p:p + size], p + size
    elif code == 15:
        value, size = value_of("Reference", kind, data, debug, writer)
    else:
        value, size = None, 0
    if debug:
        show_attribute(key, kind, value, code, debug, writer)
    return key, kind, code, value, size


# Generated inputs.

def number(rng):
    value = rng.choice([0, 1, 2, 5, 8, 127, 128, 300, 2 ** 21, rng.getrandbits(40)])
    return encode(value)


def encode(value, more=None):
    if more is None:
        more = 0
        while value >> (8 * more) >= (0x80 >> more if more < 5 else 1):
            more += 1
    data = bytearray(value.to_bytes(more + 1, "big"))
    data[0] |= 0xff00 >> more & 0xff
    return bytes(data)


def gen_integer(rng):
    data = bytes([rng.choice([0x80, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc, 0xfe, 0xff, 0])
                  | rng.getrandbits(8) & rng.getrandbits(8)])
    return {"data": cut(rng, data + rng.randbytes(9))}


def gen_integers(rng):
    return {"data": cut(rng, number(rng) + number(rng) + number(rng))}


def gen_value(rng):
    kind = rng.randrange(16)
    values = rng.choice([b"", b"\1\x82\3", bytes(8), rng.randbytes(20), b"a\0bc\0",
                         b"a\x16\2b\0c\0", b"\0", b"\xc0\x01\x02\xff", b"ab"])
    data = values
    if rng.random() < 0.7:
        data = encode(len(values) + rng.choice([0] * 9 + [1, 4])) + values
    return {"kind": kind, "data": cut(rng, data + rng.choice([b"", b"ab"]))}


def gen_reference(rng):
    return {"kind": rng.randrange(4), "data": cut(rng, number(rng)),
            "number": rng.randrange(60)}


def gen_attribute(rng):
    return {"key": rng.choice(["a", "b", "kMDStoreAccumulatedSizes"]), "number": 3,
            "code": rng.choice([rng.randrange(17), 0, 2, 14]), **gen_value(rng)}


# Call-site contracts.

def integer_of(interp, args, kwargs):
    ctx = interp.ctx
    data = args[-1]
    if not ctx.decide(ctx.app("spotlight_ok", (data,), "bool")):
        interp.throw(errors.ParseError)
    size = ctx.app("spotlight_size", (data,), "int", lo=1, hi=9)
    ctx.assume(models.zi(size) <= models.zi(interp.seq_len(data)))
    return ctx.app("spotlight", (data,), "int", lo=0), size


def table_values(fname, kind):
    def handler(interp, args, kwargs):
        ctx = interp.ctx
        if not ctx.decide(ctx.app(fname + "_known", tuple(args), "bool")):
            return None
        if kind == "list":
            return show.sequence(interp, fname, args, "str")
        if kind == "type":
            return (ctx.app(fname + "_name", tuple(args), "str"),
                    ctx.app(fname + "_kind", tuple(args), "int", lo=0, hi=255),
                    ctx.app(fname + "_code", tuple(args), "int", lo=0, hi=255))
        return ctx.app(fname, tuple(args), kind)
    return handler


def value_effect(name):
    def after(interp, args):
        kind, data = args[1:3]
        size = interp.ctx.app(f"size_of_{name}", (kind, data), "int", lo=0)
        return interp.ctx.app(f"value_of_{name}", (kind, data), "obj"), size
    return show.effect(name, show.method_input, after)


def spec_value(interp, args, kwargs):
    name, kind, data, debug, writer = args
    o = core.SObj(object, {"_debug": debug, "_output_writer": writer})
    return value_effect(name)(interp, [o, kind, data], {})


INTEGER = {S + "_ReadVariableSizeInteger": integer_of,
           M + "_ReadVariableSizeInteger": integer_of, HERE + "spec_integer": integer_of}
TABLES = {HERE + "name_of": table_values("name_of", "str"),
          HERE + "list_of": table_values("list_of", "list"),
          HERE + "type_of": table_values("type_of", "type")}
VALUES = {HERE + "value_of": spec_value,
          HERE + "show_attribute": show.effect("attribute", show.function_input),
          S + "_DebugPrintMetadataAttribute": show.effect("attribute", lambda args: (
              tuple(args[1].fields[x] for x in (
                  "key", "property_type", "value", "value_type")),
              args[0].fields["_debug"], args[0].fields["_output_writer"])),
          **{S + f"_ReadMetadataAttribute{name}Value": value_effect(name) for name in (
              "VariableSizeInteger", "Byte", "Float32", "Float64", "String", "Reference")}}
VALUE = {"kind": Int(0, 255), "data": Bytes(), "debug": Bool(), "writer": Writer()}

CONTRACTS = [
    Contract("P22", "spotlight.integer", code_integer, spec_integer, {"data": Bytes()},
             gen=gen_integer, targets=[S + "_ReadVariableSizeInteger"]),
    Contract("P22", "spotlight.stream_integer", code_stream_integer, spec_integer,
             {"data": Bytes()}, gen=gen_integer,
             targets=[M + "_ReadVariableSizeInteger"]),
    Contract("P22", "spotlight.integers", code_integers, spec_integers,
             {"data": Bytes()}, gen=gen_integers, stubs=INTEGER,
             targets=[S + "_ReadVariableSizeIntegers"]),
    *[Contract("P22", f"spotlight.{name}", code, spec, VALUE, gen=gen_value,
               stubs={**show.STUBS, **INTEGER},
               targets=[S + f"_ReadMetadataAttribute{method}Value"])
      for name, method, code, spec in [
          ("bytes", "Byte", code_bytes, spec_bytes),
          ("floats", "Float32", code_floats, spec_floats),
          ("doubles", "Float64", code_doubles, spec_doubles),
          ("numbers", "VariableSizeInteger", code_numbers, spec_numbers),
          ("strings", "String", code_strings, spec_strings)]],
    Contract("P22", "spotlight.reference", code_reference, spec_reference,
             {"kind": Int(0, 255), "data": Bytes(), "number": Int(0), "debug": Bool(),
              "writer": Writer()}, gen=gen_reference,
             stubs={**show.STUBS, **INTEGER, **TABLES},
             targets=[S + "_ReadMetadataAttributeReferenceValue"]),
    Contract("P22", "spotlight.attribute", code_attribute, spec_attribute,
             {"key": Str(), "kind": Int(0, 255), "code": Int(0, 255), "data": Bytes(),
              "number": Int(0), "debug": Bool(), "writer": Writer()},
             gen=gen_attribute, stubs={**show.STUBS, **INTEGER, **VALUES},
             targets=[S + "_ReadMetadataAttribute"]),
]

"""Model of dtfabric data type maps (assumed contract of the dependency).

The layout is taken from the data type map objects that dtfabric builds from
/repo's current YAML files; integers, streams and strings are decoded from the
bytes exactly, floating-points and UUIDs are functions of their bytes.  Every
decoder is cross-checked against dtfabric itself by the concrete runs.
"""

import ast
import functools
import uuid

import z3

from dtfabric import definitions
from dtfabric import errors as dtfabric_errors
from dtfabric.runtime import data_maps
from dtfabric.runtime import fabric

from engine import core, models, speclib
from engine.core import (
    I, NativeMethod, Opaque, PyRaise, SBytes, SDict, SInt, SObj, Splice, Unsupported,
    bytes_len, is_int, lit, mkbool, mkint, simp, zb, zi)

BIG = definitions.BYTE_ORDER_BIG_ENDIAN
LITTLE = definitions.BYTE_ORDER_LITTLE_ENDIAN


def too_small(interp):
    interp.throw(dtfabric_errors.ByteStreamTooSmallError, "too small")


def bad(interp):
    interp.throw(dtfabric_errors.MappingError, "mapping")


def z(v):
    return v if z3.is_expr(v) else I(v)


@functools.lru_cache(None)
def parse_expression(text):
    return ast.parse(text, mode="eval").body


def evaluate(interp, text, values):
    from engine.interp import Frame
    frame = Frame("<dtfabric>", {}, None)
    frame.locals = dict(values)
    interp.frames.append(frame)
    try:
        return interp.eval(parse_expression(text))
    except PyRaise:
        bad(interp)
    finally:
        interp.frames.pop()


def require(interp, data, offset, size):
    """Raises unless size bytes are available at offset."""
    n = z(bytes_len(data))
    if not interp.ctx.decide(mkbool(n - z(offset) >= z(size))):
        too_small(interp)


def part(interp, data, offset, size):
    return core.take(interp.ctx, data, simp(z(offset)), simp(z(size)))


def order_of(definition):
    return "big" if definition.byte_order == BIG else "little"


def primitive(interp, dmap, raw):
    """Value of a primitive from its bytes."""
    definition = dmap._data_type_definition
    ctx = interp.ctx
    if isinstance(dmap, data_maps.IntegerMap):
        signed = definition.format != definitions.FORMAT_UNSIGNED
        return models.int_from_bytes(interp, raw, order_of(definition), signed)
    if isinstance(dmap, data_maps.FloatingPointMap):
        return speclib.sym_float(interp, [raw, order_of(definition)], {})
    if isinstance(dmap, data_maps.CharacterMap):
        v = models.int_from_bytes(interp, raw, order_of(definition), True)
        if not ctx.decide(mkbool(zi(v) >= 0)):
            bad(interp)
        if isinstance(v, int):
            return chr(v)
        return models.char_of(v.e)
    if isinstance(dmap, data_maps.BooleanMap):
        v = models.int_from_bytes(interp, raw, order_of(definition), False)
        fv, tv = definition.false_value, definition.true_value
        if fv is not None and ctx.decide(mkbool(zi(v) == fv)):
            return False
        if tv is not None and ctx.decide(mkbool(zi(v) == tv)):
            return True
        if fv is None:
            return False
        if tv is None:
            return True
        bad(interp)
    if isinstance(dmap, data_maps.UUIDMap):
        if dmap._byte_order not in (BIG, LITTLE):
            return None
        return speclib.sym_uuid(interp, [raw, "big" if dmap._byte_order == BIG
                                         else "little"], {})
    raise Unsupported(f"dtfabric map {type(dmap).__name__}")


PRIMITIVES = (data_maps.IntegerMap, data_maps.FloatingPointMap,
              data_maps.CharacterMap, data_maps.BooleanMap, data_maps.UUIDMap)


def infallible(dmap):
    """True if mapping enough bytes cannot fail."""
    if isinstance(dmap, (data_maps.IntegerMap, data_maps.FloatingPointMap,
                         data_maps.UUIDMap)):
        return True
    if isinstance(dmap, data_maps.StructureMap):
        definition = dmap._data_type_definition
        if any(getattr(m, "values", None) or getattr(m, "condition", None)
               for m in definition.members):
            return False
        return all(infallible(m) for m in dmap._data_type_maps)
    if isinstance(dmap, data_maps.SequenceMap):
        return fixed_size(dmap) is not None and infallible(
            dmap._element_data_type_map)
    if isinstance(dmap, data_maps.StringMap):
        return False
    if isinstance(dmap, data_maps.StreamMap):
        return fixed_size(dmap) is not None
    return False


def fixed_size(dmap):
    return dmap._data_type_definition.GetByteSize()


def decode(interp, dmap, data, offset, values=None, depth=0):
    """Maps the data type on data at offset; returns (value, size)."""
    ctx = interp.ctx
    definition = dmap._data_type_definition
    values = values or {}
    if depth > 10:
        bad(interp)
    if isinstance(dmap, PRIMITIVES):
        size = definition.GetByteSize()
        require(interp, data, offset, size)
        return primitive(interp, dmap, part(interp, data, offset, size)), size
    if isinstance(dmap, data_maps.PaddingMap):
        alignment = definition.alignment_size
        e = z(offset) % alignment
        size = simp(z3.If(e > 0, alignment - e, 0))
        k = lit(size)
        size = k if k is not None else size
        require(interp, data, offset, size)
        return part(interp, data, offset, size), size
    if isinstance(dmap, data_maps.StructureMap):
        return decode_structure(interp, dmap, data, offset, values, depth)
    if isinstance(dmap, data_maps.StructureGroupMap):
        base, n = guarded(interp, dmap._base_data_type_map, data, offset, {}, depth)
        if READ_FROM_FILE and depth == 0:
            # the data of the base has been read
            READ_FROM_FILE[-1].base = add(offset, n)
        key = interp.getattr(base, definition.identifier)
        for value, member in dmap._data_type_maps.items():
            if ctx.decide(interp.truth(models.eq(interp, key, value))):
                return guarded(interp, member, data, offset, {}, depth)
        if dmap._default_data_type_map is None:
            bad(interp)
        return guarded(interp, dmap._default_data_type_map, data, offset, {}, depth)
    if isinstance(dmap, data_maps.StreamMap):      # and strings
        return decode_stream(interp, dmap, data, offset, values)
    if isinstance(dmap, data_maps.SequenceMap):
        return decode_sequence(interp, dmap, data, offset, values, depth)
    raise Unsupported(f"dtfabric map {type(dmap).__name__}")


def guarded(interp, dmap, data, offset, values, depth):
    try:
        return decode(interp, dmap, data, offset, values, depth + 1)
    except PyRaise as raised:
        if raised.value.cls is dtfabric_errors.ByteStreamTooSmallError:
            raise
        bad(interp)


def check_values(interp, member, value):
    supported = getattr(member, "values", None)
    if supported:
        ok = models.contains(interp, tuple(supported), value)
        if not interp.ctx.decide(ok):
            bad(interp)


def decode_structure(interp, dmap, data, offset, values, depth):
    definition = dmap._data_type_definition
    cls = dmap._structure_values_class
    obj = SObj(cls)
    obj.dtf = True
    for name in sorted(dmap._attribute_names):
        obj.fields[name] = None
    linear = dmap._operation is not None
    if linear:
        total = definition.GetByteSize()
        require(interp, data, offset, total)
    namespace = {cls.__name__: obj}
    namespace.update(values)
    size = 0
    for name, member_map, member in zip(
            dmap._attribute_names, dmap._data_type_maps, definition.members):
        condition = getattr(member, "condition", None)
        if condition and not linear:
            r = evaluate(interp, condition, namespace)
            if core.kind_of(r) != "bool":
                bad(interp)
            if not interp.ctx.decide(r):
                continue
        here = add(offset, size)
        value, n = guarded(interp, member_map, data, here, namespace, depth)
        obj.fields[name] = value
        check_values(interp, member, value)
        size = add(size, n)
    return obj, size


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return simp(z(a) + z(b))


def elements_data_size(interp, dmap, values):
    """Data size of a stream or None (determined by the terminator)."""
    definition = dmap._data_type_definition
    size = None
    if dmap._HasElementsDataSize():
        if definition.elements_data_size:
            return definition.elements_data_size
        size = evaluate(interp, definition.elements_data_size_expression, values)
    elif dmap._HasNumberOfElements():
        es = dmap._element_data_type_definition.GetByteSize()
        if es is not None:
            if definition.elements_terminator is not None:
                # the size hint asks for more data than the stream needs
                raise Unsupported("number of elements and terminator")
            return mul(number_of_elements(interp, dmap, values), es)
        return None
    else:
        return None
    return natural(interp, size)


def natural(interp, size):
    if not is_int(size):
        bad(interp)
    if not interp.ctx.decide(mkbool(zi(size) >= 0)):
        bad(interp)
    return size if isinstance(size, int) else simp(zi(size))


def mul(n, k):
    if isinstance(n, int):
        return n * k
    return simp(z(n) * k)


def number_of_elements(interp, dmap, values):
    definition = dmap._data_type_definition
    if definition.number_of_elements:
        return definition.number_of_elements
    n = evaluate(interp, definition.number_of_elements_expression, values)
    return natural(interp, n)


def decode_stream(interp, dmap, data, offset, values):
    ctx = interp.ctx
    definition = dmap._data_type_definition
    size = elements_data_size(interp, dmap, values)
    terminator = definition.elements_terminator
    known = None
    if size is not None:
        require(interp, data, offset, size)
    elif terminator is None:
        bad(interp)
    else:
        es = dmap._element_data_type_definition.GetByteSize()
        rest = part(interp, data, offset, simp(z(bytes_len(data)) - z(offset)))
        count = speclib.sym_find_terminator(interp, [rest, terminator, es], {})
        if ctx.decide(mkbool(zi(count) < 0)):
            too_small(interp)
        size = simp(zi(count) + es)
        if es == len(terminator):
            known = count
    raw = part(interp, data, offset, size)
    if not isinstance(dmap, data_maps.StringMap):
        return raw, size
    if terminator is not None:
        # without terminator the complete data is the string
        if known is not None:
            raw = part(interp, raw, 0, zi(known))
        else:
            raw = speclib.sym_until(interp, [raw, terminator, len(terminator)], {})
    try:
        return models.bytes_method(interp, raw, "decode", [definition.encoding], {}
                                   ), size
    except PyRaise:
        bad(interp)


def decode_sequence(interp, dmap, data, offset, values, depth):
    ctx = interp.ctx
    definition = dmap._data_type_definition
    element = dmap._element_data_type_map
    es = dmap._element_data_type_definition.GetByteSize()
    data_size = None
    count = None
    if dmap._HasElementsDataSize():
        if definition.elements_data_size:
            data_size = definition.elements_data_size
        else:
            data_size = natural(interp, evaluate(
                interp, definition.elements_data_size_expression, values))
        if es is not None:
            count = (data_size // es if isinstance(data_size, int)
                     else simp(z(data_size) / es))
    elif dmap._HasElementsTerminator():
        raise Unsupported("sequence with terminator")
    elif dmap._HasNumberOfElements():
        count = number_of_elements(interp, dmap, values)
    if (data_size is not None and es is None and type(element) is data_maps.StringMap
            and element._data_type_definition.elements_terminator == b"\0"):
        require(interp, data, offset, data_size)
        whole = part(interp, data, offset, data_size)
        items = speclib.sym_strings(
            interp, [whole, element._data_type_definition.encoding], {})
        if items is None:
            bad(interp)
        return items, data_size
    if count is None or es is None:
        if isinstance(count, int) and count <= 16:
            items, size = [], 0
            for _ in range(count):
                v, n = guarded(interp, element, data, add(offset, size), {}, depth)
                items.append(v)
                size = add(size, n)
            return tuple(items), size
        raise Unsupported(f"sequence of variable-size elements {definition.name}")
    if not isinstance(count, int):
        k = lit(simp(z(count)))
        count = k if k is not None else count
    if isinstance(count, int) and count <= 64:
        linear = dmap._operation is not None
        if linear:
            require(interp, data, offset, count * es)
        items = []
        for i in range(count):
            v, _ = guarded(interp, element, data, add(offset, i * es), {}, depth)
            items.append(v)
        items = tuple(items)
        if byte_map(element) and linear:
            items = core.ByteTuple(items)
            items.whole = part(interp, data, offset, count)
        return items, count * es
    size = mul(count, es)
    require(interp, data, offset, size)
    if data_size is not None and READ_FROM_FILE and ctx.decide(
            mkbool(z(size) != z(data_size))) and ctx.decide(mkbool(z(size) > 0)):
        # the size hint asks for the remainder as well
        require(interp, data, offset, data_size)
        READ_FROM_FILE[-1].append(add(offset, data_size))
    whole = part(interp, data, offset, size)
    if not infallible(element):
        ok = ctx.app(f"sequence_ok:{definition.name}", (whole,), "bool")
        if not ctx.decide(ok):
            bad(interp)

    def elem(i):
        v, _ = decode(interp, element, whole, simp(z(i) * es), {}, depth + 1)
        return v
    if byte_map(element):
        elem.whole = whole
    if z3.is_expr(count) and not ctx.implied(count >= 0):
        raise Unsupported("negative count")
    return [Splice(core.fresh_name("seq"), I(0), z(count), elem)], size


# -- hooks ---------------------------------------------------------------------------

def context_values(interp, context):
    if context is None:
        return {}
    values = context.fields.get("values")
    if isinstance(values, SDict):
        return {k: v for k, v in values.entries}
    return dict(values or {})


def map_method(interp, dmap, name, args, kwargs):
    if name == "MapByteStream":
        data = args[0] if args else kwargs["byte_stream"]
        offset = kwargs.get("byte_offset", 0)
        if not isinstance(offset, int):
            offset = zi(offset)
        context = kwargs.get("context")
        if core.kind_of(data) != "bytes":
            if data is None:
                bad(interp)
            raise Unsupported("byte stream of " + core.kind_of(data))
        if context is not None:
            interp.ctx.events += 1
            context.fields["byte_size"] = None
        value, size = decode(interp, dmap, data, offset, context_values(
            interp, context))
        if context is not None:
            context.fields["byte_size"] = size if isinstance(size, int) else mkint(size)
        return value
    if name == "GetSizeHint":
        size = fixed_size(dmap)
        context = kwargs.get("context")
        if context is not None and context.fields.get("byte_size") is not None:
            return context.fields["byte_size"]
        if size is not None:
            return size
        raise Unsupported(f"size hint of {dmap._data_type_definition.name}")
    if name == "GetName":
        values = dmap._data_type_definition.values_per_number
        table = models.SDict([[k, v.name] for k, v in values.items()])
        return models.call_method(interp, table, "get", args, {})
    if name == "CreateStructureValues":
        obj = SObj(dmap._structure_values_class)
        for k in sorted(dmap._attribute_names):
            obj.fields[k] = None
        for k, v in zip(dmap._attribute_names, args):
            obj.fields[k] = v
        obj.fields.update(kwargs)
        return obj
    raise Unsupported(f"dtfabric method {name}")


def map_attr(interp, obj, name, default):
    if name == "name":
        return obj.name
    return NativeMethod(obj, name)


for _cls in (data_maps.IntegerMap, data_maps.FloatingPointMap, data_maps.CharacterMap,
             data_maps.BooleanMap, data_maps.UUIDMap, data_maps.PaddingMap,
             data_maps.StructureMap, data_maps.StructureGroupMap, data_maps.StreamMap,
             data_maps.StringMap, data_maps.SequenceMap, data_maps.EnumerationMap):
    models.NATIVE_ATTRS[_cls.__name__] = map_attr
    models.NATIVE_METHODS[_cls.__name__] = map_method

def byte_map(dmap):
    definition = dmap._data_type_definition
    return isinstance(dmap, data_maps.IntegerMap) and (
        definition.size == 1 and definition.format == "unsigned")


_MAPS = {}


def numbered_name(interp, fabric, text):
    """One of the data types of which the name ends in a number."""
    parts = core.str_parts(text)
    if len(parts) != 2 or not isinstance(parts[0], str) or not (
            isinstance(parts[1], core.Atom) and parts[1].kind == "fmt"
            and parts[1].args[0] == "d"):
        raise Unsupported("symbolic data type name")
    for definition in fabric._definitions_registry.GetDefinitions():
        number = definition.name[len(parts[0]):]
        if definition.name.startswith(parts[0]) and number.isdigit() and (
                str(int(number)) == number):
            if interp.ctx.decide(mkbool(zi(parts[1].args[1]) == int(number))):
                return definition.name
    raise Unsupported("name of no data type")


def fabric_method(interp, obj, name, args, kwargs):
    if name == "CreateDataTypeMap":
        name = args[0]
        if not isinstance(name, str):
            name = numbered_name(interp, obj, name)
        key = (id(obj), name)
        if key not in _MAPS:
            _MAPS[key] = obj.CreateDataTypeMap(name)
        return _MAPS[key]
    raise Unsupported(f"fabric method {name}")


models.NATIVE_ATTRS["DataTypeFabric"] = lambda interp, obj, name, default: (
    NativeMethod(obj, name))
models.NATIVE_METHODS["DataTypeFabric"] = fabric_method


def make_context(interp, args, kwargs):
    obj = SObj(data_maps.DataTypeMapContext)
    values = args[0] if args else kwargs.get("values")
    obj.fields.update(byte_size=None, requested_size=None, state=SDict(),
                      values=values if values is not None else SDict())
    return obj


models.NATIVE[data_maps.DataTypeMapContext] = make_context


READ_FROM_FILE = []


class Ends(list):
    """Ends of data that is read and not part of the value."""
    base = None


def not_empty(interp, text):
    """Whether a text, which can be from a table of texts that are not empty, is."""
    atom = text.parts[0] if isinstance(text, core.SStr) and len(text.parts) == 1 else None
    if isinstance(atom, core.Atom) and atom.kind == "tab":
        table, other, key = atom.args
        if all(v for _, v in table):
            return bool(other) or mkbool(z3.Or(*[zi(key) == k for k, _ in table])) if (
                other is not None) else True
    return interp.truth(text)


def read_structure_from_file(interp, args, kwargs):
    """Call-site contract of _ReadStructureFromFileObject for variable-size maps.

    The structure is decoded from the contents of the file from the offset on,
    a structure that is incomplete or invalid raises ParseError.
    """
    from dtformats import errors
    names = ["self", "file_object", "file_offset", "data_type_map", "description"]
    bound = dict(zip(names, args))
    bound.update(kwargs)
    f, offset, dmap = (bound["file_object"], bound["file_offset"],
                       bound["data_type_map"])
    f = file_of(f)
    ctx = interp.ctx
    ctx.events += 1
    if not ctx.decide(mkbool(zi(offset) >= 0)):
        interp.throw(OSError, "negative seek")
    size = f.size if z3.is_expr(f.size) else I(f.size)
    avail = simp(z3.If(size >= zi(offset), size - zi(offset), 0))
    if ctx.implied(size >= zi(offset)):
        avail = simp(size - zi(offset))
    data = core.norm_bytes(SBytes([core.Seg(src=f.src, off=simp(zi(offset)),
                                            ln=avail)]))
    READ_FROM_FILE.append(Ends())
    description = bound["description"]
    try:
        value, used = decode(interp, dmap, data, 0)
        if not isinstance(description, str) or not description:
            # the first character is shown in upper case
            if ctx.decide(interp.truth(interp.getattr(bound["self"], "_debug"))):
                if not ctx.decide(not_empty(interp, description)):
                    interp.throw(IndexError, "string index out of range")
        base = READ_FROM_FILE[-1].base
        for end in READ_FROM_FILE[-1]:
            if base is not None and ctx.implied(z(end) <= z(base)):
                continue
            if not ctx.implied(z(end) >= z(used)):
                raise Unsupported("remainder of a sequence inside of a structure")
            used = end
        if base is not None and ctx.decide(mkbool(z(used) < z(base))):
            used = base
    except PyRaise as raised:
        if raised.value.cls in (dtfabric_errors.ByteStreamTooSmallError,
                                dtfabric_errors.MappingError):
            f.pos = ctx.fresh_int("pos", lo=0)
            interp.throw(errors.ParseError, "structure")
        raise
    finally:
        READ_FROM_FILE.pop()
    used = used if isinstance(used, int) else mkint(used)
    f.pos = models.binop(interp, ast.Add(), offset, used)
    return value, used


def is_fixed(dmap):
    return fixed_size(dmap) is not None


_KEY = "dtformats.data_format.BinaryDataFormat._ReadStructureFromFileObject"


def file_of(f):
    """The file behind a file-like call-site contract (an object with a field f)."""
    if isinstance(f, SObj) and isinstance(f.fields.get("f"), models.SFile):
        return f.fields["f"]
    return f


def variable_read(interp, args, kwargs):
    dmap = args[3] if len(args) > 3 else kwargs.get("data_type_map")
    f = args[1] if len(args) > 1 else kwargs.get("file_object")
    if isinstance(file_of(f), models.SFile) and isinstance(
            dmap, data_maps.DataTypeMap) and not is_fixed(dmap):
        return read_structure_from_file(interp, args, kwargs)
    return NotImplemented


models.GLOBAL_STUBS[_KEY] = variable_read


def get_map(interp, args, kwargs):
    """Call-site contract of _GetDataTypeMap (data_format.get_data_type_map)."""
    name = args[1] if len(args) > 1 else kwargs.get("name")
    self = args[0]
    found = getattr(self.cls, "_FABRIC", None) if isinstance(self, core.SObj) else None
    if isinstance(found, fabric.DataTypeFabric) and isinstance(name, str):
        return fabric_method(interp, found, "CreateDataTypeMap", [name], {})
    return NotImplemented


models.GLOBAL_STUBS["dtformats.data_format.BinaryDataFormat._GetDataTypeMap"] = get_map
speclib.install()

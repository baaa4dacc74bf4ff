"""Vocabulary of the specifications.

Each function has a native definition, used when contracts run on CPython, and a
symbolic meaning used by the verifier.
"""

import ast
import struct
import uuid

import z3


class Rec:
    """Specified attributes of an object; other attributes are not specified."""

    def __init__(self, **fields):
        self.__dict__.update(fields)

    def __repr__(self):
        return f"Rec({self.__dict__})"


def find_terminator(data, terminator, width):
    """Offset of the first aligned unit equal to the terminator or -1."""
    for offset in range(0, len(data), width):
        if data[offset:offset + width] == terminator:
            return offset
    return -1


def until(data, terminator, width):
    """The data before the first aligned unit equal to the terminator, or all of it."""
    end = find_terminator(data, terminator, width)
    return data[:end] if end >= 0 else data


def strings(data, encoding):
    """The texts of the 0-terminated strings in the data, None if there are no such."""
    if data and data[-1]:
        return None
    try:
        return [text.decode(encoding) for text in data.split(b"\0")[:-1]]
    except UnicodeDecodeError:
        return None


def float_of(data, order):
    """Floating-point value of 4 or 8 bytes."""
    return struct.unpack(("<" if order == "little" else ">") + (
        "f" if len(data) == 4 else "d"), data)[0]


def floats(data, width, order):
    """The floating-point values in the data."""
    return tuple(float_of(data[i * width:i * width + width], order)
                 for i in range(len(data) // width))


def numbers(data, width, order="little"):
    """Integers that are not negative and follow each other."""
    return [u(data, i, width, order) for i in range(0, len(data) // width * width, width)]


def uuid_of(data, order):
    if order == "little":
        return uuid.UUID(bytes_le=data)
    return uuid.UUID(bytes=data)


def u(data, offset, size, order="little"):
    """Unsigned integer at an offset (bytes beyond the end are missing)."""
    return int.from_bytes(data[offset:offset + size], order)


def s(data, offset, size, order="little"):
    return int.from_bytes(data[offset:offset + size], order, signed=True)


# -- symbolic meaning ------------------------------------------------------------------

def sym_find_terminator(interp, args, kwargs):
    from engine import core, models
    ctx = interp.ctx
    data, terminator, width = args
    if isinstance(data, bytes):
        return find_terminator(data, terminator, width)
    n = core.bytes_len(data)
    ne = n if z3.is_expr(n) else core.I(n)
    r = ctx.app(f"find_terminator:{bytes(terminator).hex()}:{width}", (data,), "int",
                lo=-1)
    e = core.zi(r)
    facts = [e + width <= ne, e % width == 0] + [
        core.bytes_at(ctx, data, e + k) == terminator[k] for k in range(width)]
    models.ctx_fact(ctx, z3.Or(e == -1, z3.And(*facts)))
    # the first unit
    first = z3.And(ne >= width, *[
        core.bytes_at(ctx, data, core.I(k)) == terminator[k] for k in range(width)])
    models.ctx_fact(ctx, first == (e == 0))
    return r


def sym_until(interp, args, kwargs):
    from engine import core, models
    ctx = interp.ctx
    data, terminator, width = args
    if isinstance(data, bytes):
        return until(data, terminator, width)
    end = core.zi(sym_find_terminator(interp, args, kwargs))
    n = core.bytes_len(data)
    ne = n if z3.is_expr(n) else core.I(n)
    size = ctx.app(f"until:{bytes(terminator).hex()}:{width}", (data,), "int", lo=0)
    models.ctx_fact(ctx, core.zi(size) == z3.If(end >= 0, end, ne))
    return models.getitem(interp, data, slice(None, size, None))


def sym_strings(interp, args, kwargs):
    import z3
    from engine import core
    ctx = interp.ctx
    data, encoding = args
    if isinstance(data, bytes):
        return strings(data, encoding)
    size = core.bytes_len(data)
    size = size if z3.is_expr(size) else core.I(size)
    if not ctx.decide(ctx.app("strings_ok:" + encoding, (data,), "bool")):
        ctx.assume(size > 0)
        return None

    def make():
        sym = core.fresh_name("strings")
        count = ctx.fresh_int("strings", lo=0).e
        return [core.Splice(sym, core.I(0), count, lambda i: ctx.app(
            "elem:" + sym, (core.mkint(i),), "str"))]
    items = list(ctx.app("strings:" + encoding, (data,), "list", make=make))
    count = items[0].ln
    ctx.assume(z3.And((count == 0) == (size == 0), count <= size))
    return items


def sym_float(interp, args, kwargs):
    return interp.ctx.app("float:" + args[1], (args[0],), "float")


def sym_floats(interp, args, kwargs):
    from engine import core, models
    data, width, order = args
    if isinstance(data, bytes):
        return floats(data, width, order)
    size = core.zi(core.bytes_len(data))

    def elem(i):
        raw = models.getitem(interp, data, slice(
            core.mkint(i * width), core.mkint(i * width + width), None))
        return sym_float(interp, [raw, order], {})
    return [core.Splice(core.fresh_name("floats"), core.I(0), core.simp(size / width),
                        elem)]


def sym_numbers(interp, args, kwargs):
    from engine import core, models
    data, width, order = (*args, "little")[:3]
    if isinstance(data, bytes):
        return numbers(data, width, order)
    size = core.zi(core.bytes_len(data))

    def elem(i):
        return models.NATIVE[u](interp, [data, core.mkint(i * width), width, order], {})
    return [core.Splice(core.fresh_name("numbers"), core.I(0), core.simp(size / width),
                        elem)]


def sym_uuid(interp, args, kwargs):
    return interp.ctx.app("uuid:" + args[1], (args[0],), "uuid")


def install():
    from engine import models
    models.NATIVE[find_terminator] = sym_find_terminator
    models.NATIVE[until] = sym_until
    models.NATIVE[strings] = sym_strings
    models.NATIVE[floats] = sym_floats
    models.NATIVE[numbers] = sym_numbers
    models.NATIVE[float_of] = sym_float
    models.NATIVE[uuid_of] = sym_uuid

    def integer(signed):
        def handler(interp, args, kwargs):
            names = ["data", "offset", "size", "order"]
            bound = dict(zip(names, args))
            bound.update(kwargs)
            offset, size = bound["offset"], bound["size"]
            data = models.getitem(interp, bound["data"], slice(
                offset, models.binop(interp, ast.Add(), offset, size), None))
            return models.int_from_bytes(interp, data, bound.get("order", "little"),
                                         signed)
        return handler
    models.NATIVE[u] = integer(False)
    models.NATIVE[s] = integer(True)

    def rec(interp, args, kwargs):
        from engine.core import SObj
        return SObj(Rec, dict(kwargs))
    models.NATIVE[Rec] = rec

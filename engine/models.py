"""Models of the Python built-ins, containers and library calls."""

import ast
import builtins
import collections
import datetime
import os
import re
import struct
import types

import z3

from engine import core
from engine.core import (
    Atom, BAND, BOR, BXOR, BoundMethod, Closure, ExcVal, I, NativeMethod, NeedFork, Opaque,
    POW2, PyRaise, SBool, SBytes, SDict, Seg, SInt, SObj, Splice, SRange, SStr,
    Undefined, Unsupported, bytes_at, bytes_len, concat_bytes, eq_formula, is_int,
    is_symbolic, kind_of, lit, mkbool, mkint, norm_bytes, simp, slice_bytes,
    str_len, str_parts, zb, zi)

MISSING = object()


class StubFunction:
    def __init__(self, handler):
        self.handler = handler


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class GenList:
    """Result of a generator: the complete trace of yielded values."""

    def __init__(self, items):
        self.items = items
        self.pos = 0


class SSet:
    """Set with concrete members (used for membership)."""

    def __init__(self, items):
        self.items = items


class SIntSeq:
    """Arbitrary sequence of integers supplied by the environment."""

    def __init__(self, name, length, lo=None, hi=None):
        self.f = z3.Function(name, z3.IntSort(), z3.IntSort())
        self.length = length
        self.lo, self.hi = lo, hi

    def at(self, ctx, i):
        t = self.f(zi(i))
        if self.lo is not None:
            ctx.assume(t >= self.lo)
        if self.hi is not None:
            ctx.assume(t <= self.hi)
        return SInt(t)


class SFile:
    """File-like object with arbitrary content, random access.

    Negative absolute positions raise OSError (as native files do).
    """

    def __init__(self, ctx, name, size=None, faulty=False):
        self.src = core.ByteSrc(name)
        if size is None:
            size = z3.Int(name + "_size")
            ctx.assume(size >= 0)
        self.size = size
        self.pos = 0
        self.closed = False
        self.faulty = faulty

    @property
    def content(self):
        return norm_bytes(SBytes([Seg(src=self.src, off=I(0), ln=self.size)]))


# what this function writes is specified by data_format.read_structure
TRACED = "_ReadStructureFromFileObject"


class SWriter:
    """Output writer recording the text written."""

    def __init__(self):
        self.text = ""


def mkstr(parts):
    s = SStr(parts)
    if not s.parts:
        return ""
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


def negate(r):
    return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))


# -- attributes ----------------------------------------------------------------

def class_attribute(cls, name, start=0):
    for klass in cls.__mro__[start:]:
        if name in klass.__dict__:
            return klass, klass.__dict__[name]
    return None, MISSING


def get_attribute(interp, obj, name, default=MISSING):
    ctx = interp.ctx
    if isinstance(obj, SObj):
        if name in obj.fields:
            value = obj.fields[name]
            if isinstance(value, Undefined):
                raise Unsupported(f"read of undetermined location {value.why}")
            return value
        if name == "__class__":
            return obj.cls
        _, attr = class_attribute(obj.cls, name)
        return bind_attribute(interp, obj, obj.cls, attr, name, default)
    if isinstance(obj, SuperProxy):
        cls = obj.obj.cls if isinstance(obj.obj, SObj) else obj.obj
        mro = cls.__mro__
        start = mro.index(obj.cls) + 1
        _, attr = class_attribute(cls, name, start)
        if attr is MISSING and name == "__init__":
            return StubFunction(lambda i, a, k: None)
        if not isinstance(attr, (types.FunctionType, property, staticmethod,
                                 classmethod)) and name == "__init__":
            return StubFunction(lambda i, a, k: None)
        return bind_attribute(interp, obj.obj, cls, attr, name, default)
    if obj is None:
        if default is not MISSING:
            return default
        interp.throw(AttributeError, name)
    if isinstance(obj, Undefined):
        raise Unsupported(f"read of undetermined location {obj.why}")
    if isinstance(obj, Opaque):
        if name in obj.attrs:
            return obj.attrs[name]
        hook = OPAQUE_ATTRS.get(obj.kind)
        if hook:
            return hook(interp, obj, name, default)
        if obj.kind == "str" or obj.kind == "float":
            return NativeMethod(obj, name)
        return NativeMethod(obj, name)
    if isinstance(obj, SFile):
        if name == "content":
            return obj.content
        if name == "size":
            return mkint(obj.size)
        if name in ("read", "seek", "tell", "close", "get_size", "get_offset"):
            return NativeMethod(obj, name)
        if default is not MISSING:
            return default
        interp.throw(AttributeError, name)
    if isinstance(obj, SWriter):
        if name == "text":
            return obj.text
        return NativeMethod(obj, name)
    if isinstance(obj, ExcVal):
        if name in obj.fields:
            return obj.fields[name]
        if name == "args":
            return obj.args
        raise Unsupported(f"exception attribute {name}")
    native = {SBytes: bytes, SStr: str, SInt: int, SBool: bool, SDict: dict,
              list: list, bytes: bytes, str: str, dict: dict, tuple: tuple,
              int: int, bool: bool, float: float, bytearray: bytearray,
              set: set, frozenset: frozenset, SSet: set}.get(type(obj))
    if native is not None:
        if not hasattr(native, name):
            if default is not MISSING:
                return default
            interp.throw(AttributeError, name)
        return NativeMethod(obj, name)
    if isinstance(obj, GenList):
        return NativeMethod(obj, name)
    hook = NATIVE_ATTRS.get(type(obj).__name__)
    if hook:
        return hook(interp, obj, name, default)
    # modules, classes and other concrete objects
    try:
        return getattr(obj, name)
    except AttributeError:
        if default is not MISSING:
            return default
        interp.throw(AttributeError, name)


OPAQUE_ATTRS = {}
NATIVE_ATTRS = {}


def bind_attribute(interp, obj, cls, attr, name, default):
    if attr is MISSING:
        if default is not MISSING:
            return default
        _, ga = class_attribute(cls, "__getattr__")
        if isinstance(ga, types.FunctionType):
            return interp.call_function(ga, [obj, name], {})
        interp.throw(AttributeError, name)
    if isinstance(attr, types.FunctionType):
        return BoundMethod(obj, attr)
    if isinstance(attr, property):
        return interp.call_function(attr.fget, [obj], {})
    if isinstance(attr, staticmethod):
        return attr.__func__
    if isinstance(attr, classmethod):
        return BoundMethod(cls, attr.__func__)
    return attr


# -- equality, membership --------------------------------------------------------

def eq(interp, a, b):
    if isinstance(a, SObj):
        _, m = class_attribute(a.cls, "__eq__")
        if isinstance(m, types.FunctionType):
            return interp.call_function(m, [a, b], {})
    if isinstance(a, Undefined) or isinstance(b, Undefined):
        raise Unsupported("read of undetermined location")
    return eq_formula(interp.ctx, a, b)


def contains(interp, container, item):
    ctx = interp.ctx
    if isinstance(container, GenList):
        container = container.items
    if isinstance(container, (list, tuple, set, frozenset, dict, SSet)):
        items = container.items if isinstance(container, SSet) else list(container)
        if any(isinstance(x, Splice) for x in items):
            return ctx.app("contains", (list(items), item), "bool")
        if not is_symbolic(item) and not is_symbolic(items):
            try:
                return item in items
            except TypeError:
                interp.throw(TypeError, "in")
        conds = []
        for x in items:
            r = eq(interp, item, x)
            if r is True:
                return True
            if r is not False:
                conds.append(zb(r))
        return mkbool(z3.Or(*conds)) if conds else False
    if isinstance(container, SDict):
        for k, _ in reversed(container.entries):
            if ctx.decide(truth_of(interp, eq(interp, item, k))):
                return True
        if container.base is not None:
            return dict_has(ctx, container.base, item)
        return False
    if isinstance(container, (str, SStr)) and isinstance(item, (str, SStr)):
        if isinstance(container, str) and isinstance(item, str):
            return item in container
        if isinstance(item, str) and isinstance(container, SStr):
            if any(atom_contains(p, item) for p in container.parts):
                return True
            if len(item) == 1 and all(
                    isinstance(p, str) or atom_excludes(ctx, p, item)
                    for p in container.parts):
                return False
        if isinstance(container, str) and isinstance(item, SStr) and not core.atom_len:
            return False
        chars = core._fixed_chars(item)
        if isinstance(container, str) and chars is not None and len(chars) == 1:
            return mkbool(z3.Or(*[chars[0] == ord(c) for c in container])
                          ) if container else False
        return ctx.app("str_contains", (container, item), "bool")
    if isinstance(container, (bytes, SBytes)):
        if isinstance(container, bytes) and is_int(item):
            if isinstance(item, int):
                return item in container
            return mkbool(z3.Or(*[zi(item) == c for c in set(container)])
                          ) if container else False
        return ctx.app("bytes_contains", (container, item), "bool")
    if isinstance(container, (range, SRange)):
        start, stop, step = container.start, container.stop, container.step
        if step == 1 and is_int(item):
            return mkbool(z3.And(zi(item) >= zi(start), zi(item) < zi(stop)))
        if isinstance(container, range) and isinstance(item, int):
            return item in container
        raise Unsupported("in range")
    if container is None or is_int(container):
        interp.throw(TypeError, "not iterable")
    if isinstance(container, SObj):
        _, m = class_attribute(container.cls, "__contains__")
        if isinstance(m, types.FunctionType):
            return interp.truth(interp.call_function(m, [container, item], {}))
    if isinstance(container, Opaque):
        return ctx.app("contains", (container, item), "bool")
    raise Unsupported(f"in {kind_of(container)}")


def atom_contains(p, text):
    """True if a part of a string is known to contain a text."""
    if isinstance(p, str):
        return text in p
    return p.kind == "op" and isinstance(p.args[0], Opaque) and text in p.args[
        0].attrs.get("contains", ())


def atom_excludes(ctx, p, char):
    """True if a string atom cannot contain a character."""
    if p.kind == "op" and isinstance(p.args[0], Opaque):
        return char in p.args[0].attrs.get("excludes", "")
    if p.kind == "fmt":
        return char not in "0123456789abcdefABCDEF-+ "
    if p.kind == "chr":
        return ctx.implied(zi(p.args[0]) != ord(char))
    if p.kind == "rep":
        return char not in p.args[0]
    if p.kind == "tab":
        return all(char not in v for _, v in p.args[0]) and (
            p.args[1] is None or char not in p.args[1])
    return False


def truth_of(interp, v):
    return interp.truth(v)


# -- operators ---------------------------------------------------------------------

def trailing_zeros(e):
    """Number of bits known to be zero at the bottom of a z3 Int term."""
    k = lit(e)
    if k is not None:
        if k == 0:
            return 4096
        n = 0
        while k % 2 == 0:
            k //= 2
            n += 1
        return n
    if z3.is_mul(e):
        return sum(trailing_zeros(c) for c in e.children())
    if z3.is_add(e):
        return min(trailing_zeros(c) for c in e.children())
    if e.decl().kind() == z3.Z3_OP_UMINUS:
        return trailing_zeros(e.arg(0))
    if e.decl().kind() == z3.Z3_OP_ITE:
        return min(trailing_zeros(e.arg(1)), trailing_zeros(e.arg(2)))
    if e.decl().kind() == z3.Z3_OP_MOD:
        m = lit(e.arg(1))
        if m and m & (m - 1) == 0:
            return trailing_zeros(e.arg(0))
    return 0


def and_const(e, mask):
    """e & mask for a constant mask >= 0, exact for every integer e."""
    total = I(0)
    bit = 0
    while mask >> bit:
        if not (mask >> bit) & 1:
            bit += 1
            continue
        low = bit
        while (mask >> bit) & 1:
            bit += 1
        width = bit - low
        part = (e / (1 << low)) if low else e
        part = part % (1 << width)
        total = total + part * (1 << low)
    return simp(total)


def band(ctx, a, b):
    """a & b of two z3 Ints."""
    a, b = simp(a), simp(b)
    ka, kb = lit(a), lit(b)
    if ka is not None and kb is not None:
        return I(ka & kb)
    if ka is not None:
        a, b, ka, kb = b, a, kb, ka
    if kb is not None:
        if kb >= 0:
            return and_const(a, kb)
        return a - and_const(a, ~kb)
    for x, y in ((a, b), (b, a)):
        tz = trailing_zeros(x)
        if tz and ctx.implied(z3.And(y >= 0, y < 2 ** min(tz, 256))):
            return I(0)
    # y < pow2(s) and x a multiple of pow2(s)
    for x, y in ((a, b), (b, a)):
        if z3.is_mul(x):
            for c in x.children():
                if c.decl().name() == "pow2" and ctx.implied(
                        z3.And(y >= 0, y < c)):
                    return I(0)
    if a.get_id() > b.get_id():
        a, b = b, a
    t = BAND(a, b)
    if ctx.implied(a >= 0):
        ctx_fact(ctx, z3.And(t >= 0, t <= a))
    if ctx.implied(b >= 0):
        ctx_fact(ctx, z3.And(t >= 0, t <= b))
    return t


def named(ctx, e, operands=(), function=None):
    """Names the result of a bit operation; equal results get the same name.

    Keeps the terms of long bit-twiddling computations small: what is proved equal at
    one step is the same variable in the next.
    """
    e = simp(e)
    if lit(e) is not None or not mentions_bits(e):
        return e
    table = ctx.__dict__.setdefault("named_terms", [])
    same = equalities(ctx)
    plain = e
    if function is not None and "band" in str(e.decl()) + "".join(
            str(c.decl()) + "".join(str(d.decl()) for d in c.children())
            for c in e.children()):
        e = function(*[simp(o) for o in operands])
    if same:
        e = simp(z3.substitute(e, *same))
    for var, definition in table:
        if definition.eq(e):
            return var
    from engine import verify
    lifter = verify.Lifter(ctx)
    try:
        lo, hi = lifter.range(e)
        if operands:
            ranges = [lifter.range(simp(o)) for o in operands]
            if all(l is not None and l >= 0 and h is not None for l, h in ranges):
                lo = 0
                top = 2 ** max(int(h).bit_length() for _, h in ranges) - 1
                hi = top if hi is None else min(hi, top)
    except Exception:  # pylint: disable=broad-except
        return plain
    if lo is None or hi is None or max(abs(lo), abs(hi)) >= 2**128:
        if function is None or "pow2" not in str(e):
            return plain
        var = zi(ctx.fresh_int("n"))
        table.append((var, e))
        ctx_fact(ctx, var == plain)
        return var
    for var, definition in table[-40:]:
        if same_value(ctx, e, definition, table):
            return var
    var = zi(ctx.fresh_int("n"))
    table.append((var, e))
    ctx_fact(ctx, z3.And(var == plain, var >= lo, var <= hi))
    return var


def equalities(ctx):
    """Substitution of variables the path condition equates with others."""
    table, done = ctx.__dict__.setdefault("equal_vars", ([], [0]))
    for c in ctx.constraints[done[0]:]:
        for x in c.children() if z3.is_and(c) else (c,):
            sides = equal_pair(x)
            if sides:
                a, b = (z3.substitute(y, *table) if table else y for y in sides)
                if not a.eq(b):
                    table[:] = [(v, z3.substitute(w, (b, a))) for v, w in table]
                    table.append((b, a))
    done[0] = len(ctx.constraints)
    return table


def equal_pair(x):
    """The two variables an equality states to be equal, if it does."""
    if not z3.is_eq(x) or not z3.is_int(x.arg(0)):
        return None
    if not z3.is_const(x.arg(0)) or not z3.is_const(x.arg(1)):
        x = z3.simplify(x.arg(0) - x.arg(1), som=True)
        if not z3.is_add(x) or x.num_args() != 2:
            return None
        sides = []
        for y in x.children():
            if z3.is_mul(y) and y.num_args() == 2 and lit(y.arg(0)) == -1:
                y = y.arg(1)
                sides.append(-1)
            else:
                sides.append(1)
        if sum(sides) != 0:
            return None
        sides = [y.arg(1) if z3.is_mul(y) else y for y in x.children()]
    else:
        sides = x.children()
    if all(z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED
           for y in sides):
        return sides
    return None


def mentions_bits(e):
    """True if the outer structure of a term has a bitwise operation or a name."""
    todo, count = [e], 0
    names = additions = False
    while todo and count < 200:
        count += 1
        t = todo.pop()
        if not z3.is_app(t):
            continue
        name = t.decl().name()
        if name in ("band", "bxor", "bor"):
            return True
        if name.startswith("n!") and t.num_args() == 0:
            names = True
        additions = additions or z3.is_add(t)
        if t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            todo.extend(t.children())
    return names and additions


def same_value(ctx, a, b, table):
    from engine import verify
    if verify.bv_prove(ctx, a == b, plain=True):
        return True
    pairs = [(v, d) for v, d in table]
    a2, b2 = z3.substitute(a, *pairs), z3.substitute(b, *pairs)
    if a2.eq(a) and b2.eq(b):
        return False
    if not a2.eq(a) and verify.bv_prove(ctx, a2 == b, plain=True):
        return True
    return verify.bv_prove(ctx, a2 == b2, plain=True)


def ctx_fact(ctx, e):
    """Adds a valid fact (true in every interpretation)."""
    ctx.constraints.append(e)
    ctx.solver.add(e)


def pow2(ctx, e):
    e = simp(e)
    k = lit(e)
    if k is not None:
        return I(2 ** k)
    const = 0
    base = e
    if z3.is_add(e):
        rest = []
        for c in e.children():
            kc = lit(c)
            if kc is not None:
                const += kc
            else:
                rest.append(c)
        if const > 0:
            cand = simp(z3.Sum(*rest)) if len(rest) > 1 else rest[0]
            if ctx.implied(cand >= 0):
                base = cand
            else:
                const = 0
        else:
            const = 0
    t = POW2(base)
    ctx_fact(ctx, z3.And(t >= 1, z3.Implies(base == 0, t == 1)))
    return simp(t * (2 ** const)) if const else t


def int_binop(interp, op, a, b):
    ctx = interp.ctx
    if isinstance(a, int) and isinstance(b, int):
        try:
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
            if isinstance(op, ast.FloorDiv):
                return a // b
            if isinstance(op, ast.Mod):
                return a % b
            if isinstance(op, ast.LShift):
                return a << b
            if isinstance(op, ast.RShift):
                return a >> b
            if isinstance(op, ast.BitAnd):
                return a & b
            if isinstance(op, ast.BitOr):
                return a | b
            if isinstance(op, ast.BitXor):
                return a ^ b
            if isinstance(op, ast.Pow):
                return a ** b
            if isinstance(op, ast.Div):
                return a / b
        except ZeroDivisionError:
            interp.throw(ZeroDivisionError)
        except ValueError:
            interp.throw(ValueError)
    if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and isinstance(
            a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        ea, eb = zb(a), zb(b)
        return mkbool({ast.BitAnd: z3.And, ast.BitOr: z3.Or,
                       ast.BitXor: z3.Xor}[type(op)](ea, eb))
    ea, eb = zi(a), zi(b)
    if isinstance(op, ast.Add):
        return mkint(ea + eb)
    if isinstance(op, ast.Sub):
        return mkint(ea - eb)
    if isinstance(op, ast.Mult):
        return mkint(ea * eb)
    if isinstance(op, (ast.FloorDiv, ast.Mod)):
        kb = lit(simp(eb))
        if kb is None:
            if ctx.decide(mkbool(eb == 0)):
                interp.throw(ZeroDivisionError)
            if not ctx.implied(eb > 0):
                raise Unsupported("division by a possibly negative value")
        elif kb == 0:
            interp.throw(ZeroDivisionError)
        elif kb < 0:
            if isinstance(op, ast.FloorDiv):
                return mkint((-ea) / I(-kb))
            return mkint(-((-ea) % I(-kb)))
        return mkint(ea / eb) if isinstance(op, ast.FloorDiv) else mkint(
            named(ctx, ea % eb))
    if isinstance(op, ast.LShift):
        kb = lit(simp(eb))
        if kb is None:
            if not ctx.decide(mkbool(eb >= 0)):
                interp.throw(ValueError)
            return mkint(ea * pow2(ctx, eb))
        if kb < 0:
            interp.throw(ValueError)
        return mkint(ea * (2 ** kb))
    if isinstance(op, ast.RShift):
        kb = lit(simp(eb))
        if kb is None:
            if not ctx.decide(mkbool(eb >= 0)):
                interp.throw(ValueError)
            return mkint(ea / pow2(ctx, eb))
        if kb < 0:
            interp.throw(ValueError)
        return mkint(ea / I(2 ** kb))
    if isinstance(op, ast.BitAnd):
        return mkint(named(ctx, band(ctx, ea, eb)))
    if isinstance(op, ast.BitOr):
        return mkint(named(ctx, ea + eb - band(ctx, ea, eb), (ea, eb), BOR))
    if isinstance(op, ast.BitXor):
        return mkint(named(ctx, ea + eb - 2 * band(ctx, ea, eb), (ea, eb), BXOR))
    if isinstance(op, ast.Pow):
        if isinstance(a, int) and a == 2 and ctx.implied(eb >= 0):
            return mkint(pow2(ctx, eb))
        if isinstance(b, int) and 0 <= b <= 8:
            r = I(1)
            for _ in range(b):
                r = r * ea
            return mkint(r)
        raise Unsupported("power")
    if isinstance(op, ast.Div):
        if ctx.decide(mkbool(eb == 0)):
            interp.throw(ZeroDivisionError)
        return ctx.app("truediv", (a, b), "float")
    raise Unsupported(f"operator {type(op).__name__}")


def binop(interp, op, a, b):
    if isinstance(a, Undefined) or isinstance(b, Undefined):
        raise Unsupported("read of undetermined location")
    if is_int(a) and is_int(b):
        return int_binop(interp, op, a, b)
    ka, kb = kind_of(a), kind_of(b)
    ctx = interp.ctx
    if isinstance(a, GenList):
        a = a.items
    if isinstance(op, ast.Add):
        if isinstance(a, datetime.datetime) and kb == "opaque:timedelta":
            return datetime_add(interp, a, b)
        if ka == "bytes" and kb == "bytes":
            return concat_bytes(a, b)
        if ka == "str" and kb == "str":
            return mkstr(list(str_parts(a)) + list(str_parts(b)))
        if isinstance(a, list) and isinstance(b, list):
            return a + b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
    if isinstance(op, ast.Mult):
        if is_int(a) and kb in ("str", "bytes", "list", "tuple"):
            a, b, ka, kb = b, a, kb, ka
        if ka == "str" and is_int(b):
            if isinstance(b, int):
                return mkstr(list(str_parts(a)) * max(b, 0))
            if isinstance(a, str):
                k = ctx.constant(b)
                if k is not None:
                    return a * k
                return SStr([Atom("rep", a, b)])
            return ctx.app("str_repeat", (a, b), "str")
        if ka == "bytes" and isinstance(b, int):
            if isinstance(a, bytes):
                return a * b
            return norm_bytes(SBytes(to_list_segs(a) * max(b, 0)))
        if ka == "bytes" and is_int(b):
            r = ctx.app("bytes_repeat", (a, b), "bytes")
            n = bytes_len(a)
            ctx_fact(ctx, bytes_len(r) == n * z3.If(zi(b) > 0, zi(b), I(0)))
            return r
        if isinstance(a, (list, tuple)) and isinstance(b, int):
            return a * b
        if isinstance(a, (list, tuple)) and len(a) == 1 and is_int(b) and not \
                isinstance(a[0], Splice):
            n = ctx.fresh_int("repeat", 0)
            ctx.assume(n.e == z3.If(zi(b) > 0, zi(b), I(0)))
            return type(a)([Splice(core.fresh_name("repeat"), I(0), n.e,
                                   lambda i, x=a[0]: x)])
    if isinstance(op, ast.Mod) and ka == "str":
        return percent_format(interp, a, b)
    if ka in ("float",) or kb in ("float",) or "float" in ka or "float" in kb:
        if not is_symbolic(a) and not is_symbolic(b):
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b,
                        ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
                        ast.FloorDiv: lambda: a // b,
                        ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b}[type(op)]()
            except ZeroDivisionError:
                interp.throw(ZeroDivisionError)
        return ctx.app("float" + type(op).__name__, (a, b), "float")
    if not is_symbolic(a) and not is_symbolic(b):
        try:
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b,
                    ast.BitOr: lambda: a | b, ast.BitAnd: lambda: a & b,
                    ast.Mult: lambda: a * b}[type(op)]()
        except TypeError:
            interp.throw(TypeError, "unsupported operand")
    if a is None or b is None or ka != kb:
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported(f"operator on opaque values {a!r} {b!r}")
        interp.throw(TypeError, "unsupported operand")
    raise Unsupported(f"operator {type(op).__name__} on {ka}, {kb}")


def to_list_segs(b):
    return core.to_segs(b)


# -- formatting ----------------------------------------------------------------

def format_value(interp, v, spec, conversion=-1):
    ctx = interp.ctx
    if isinstance(v, Undefined):
        raise Unsupported("read of undetermined location")
    if conversion == ord("s"):
        v = to_str(interp, v)
    elif conversion == ord("r"):
        v = repr(v) if not is_symbolic(v) else ctx.app("repr", (v,), "str")
    elif conversion == ord("a"):
        v = ctx.app("ascii", (v,), "str")
    if not is_symbolic(v):
        try:
            return format(v, spec)
        except (ValueError, TypeError) as exception:
            interp.throw(type(exception), "format")
    if isinstance(v, SBool):
        if spec == "":
            return "True" if ctx.decide(v) else "False"
        v = mkint(zi(v))
        if isinstance(v, int):
            return format(v, spec)
    if isinstance(v, SInt):
        if spec in ("", "d"):
            return SStr([Atom("fmt", "d", v)])
        if re.fullmatch(r"[<>=^+ 0-9#,_]*[dxXobn]", spec):
            return SStr([Atom("fmt", spec, v)])
        if spec == "c":
            return SStr([Atom("chr", v)])
        if spec.endswith(("f", "e", "g", "%")):
            return ctx.app("format:" + spec, (v,), "str")
        if spec.endswith("s"):
            interp.throw(ValueError, "format code s for int")
        return SStr([Atom("fmt", spec, v)])
    if isinstance(v, SStr):
        if spec in ("", "s"):
            return v
        if re.fullmatch(r"[<>^]?\d*s?", spec):
            return ctx.app("format:" + spec, (v,), "str")
        interp.throw(ValueError, "format code for str")
    if isinstance(v, Opaque) and v.kind == "float":
        return plain_text(ctx.app("format:" + spec, (v,), "str"))
    if spec == "":
        return to_str(interp, v)
    if isinstance(v, (list, tuple, SDict, SBytes, SObj, ExcVal, BoundMethod)):
        interp.throw(TypeError, "unsupported format string")
    return ctx.app("format:" + spec, (v,), "str")


def to_str(interp, v):
    ctx = interp.ctx
    if isinstance(v, (str, SStr)):
        return v
    if not is_symbolic(v):
        return str(v)
    if isinstance(v, SInt):
        return SStr([Atom("fmt", "d", v)])
    if isinstance(v, SBool):
        return "True" if ctx.decide(v) else "False"
    if isinstance(v, ExcVal):
        if len(v.args) == 1 and isinstance(v.args[0], (str, SStr)):
            return v.args[0]
        return ctx.app("str_exc", (v,), "str")
    if isinstance(v, SObj):
        _, m = class_attribute(v.cls, "__str__")
        if isinstance(m, types.FunctionType):
            return interp.call_function(m, [v], {})
    text = ctx.app("str", (v,), "str")
    if core.kind_of(v) in ("opaque:uuid", "opaque:float", "opaque:pydatetime"):
        plain_text(text)
    return text


def plain_text(text):
    """A text that is not empty and has a single line."""
    if isinstance(text, SStr):
        text.parts[0].args[0].attrs.update(excludes="\n", nonempty=True)
    return text


TIMEDELTA_UNITS = {"microseconds": 1, "milliseconds": 1000, "seconds": 1000000,
                   "minutes": 60000000, "hours": 3600000000, "days": 86400000000}


def timedelta(interp, kwargs):
    """datetime.timedelta of one symbolic integer."""
    ctx = interp.ctx
    if len(kwargs) != 1 or not all(
            k in TIMEDELTA_UNITS and is_int(v) for k, v in kwargs.items()):
        raise Unsupported("timedelta")
    (unit, value), = kwargs.items()
    if isinstance(value, int):
        try:
            return datetime.timedelta(**kwargs)
        except OverflowError:
            interp.throw(OverflowError)
    micro = zi(value) * TIMEDELTA_UNITS[unit]
    limit = 86400000000 * 1000000000
    if not ctx.decide(mkbool(z3.And(micro < limit, micro >= 86400000000 - limit))):
        interp.throw(OverflowError)
    return ctx.app("timedelta", (mkint(micro),), "timedelta")


def datetime_add(interp, base, delta):
    """Concrete date and time and a symbolic time delta."""
    ctx = interp.ctx
    micro = delta.args[0]
    one = datetime.timedelta(microseconds=1)
    if not ctx.decide(mkbool(z3.And(
            zi(micro) >= (datetime.datetime.min - base) // one,
            zi(micro) <= (datetime.datetime.max - base) // one))):
        interp.throw(OverflowError)
    return ctx.app("datetime_add:" + base.isoformat(), (micro,), "pydatetime")


_PCT = re.compile(r"%(%|[-#0 +]*\d*(?:\.\d+)?[sdxXori])")


def percent_format(interp, fmt, args):
    if not isinstance(fmt, str):
        raise Unsupported("symbolic format string")
    if not isinstance(args, tuple):
        args = (args,)
    parts = []
    pos = 0
    k = 0
    for m in _PCT.finditer(fmt):
        parts.append(fmt[pos:m.start()])
        pos = m.end()
        code = m.group(1)
        if code == "%":
            parts.append("%")
            continue
        if k >= len(args):
            interp.throw(TypeError, "not enough arguments")
        v = args[k]
        k += 1
        conv = code[-1]
        spec = code[:-1]
        if conv == "s":
            v = to_str(interp, v)
            parts.extend(str_parts(format_value(interp, v, spec and f">{spec}s")))
        elif conv in "di":
            if not is_int(v):
                if isinstance(v, float):
                    v = int(v)
                else:
                    interp.throw(TypeError, "%d format")
            parts.extend(str_parts(format_value(interp, v, spec + "d")))
        elif conv in "xXo":
            if not is_int(v):
                interp.throw(TypeError, "%x format")
            parts.extend(str_parts(format_value(interp, v, spec + conv)))
        else:
            raise Unsupported("percent format")
    parts.append(fmt[pos:])
    if k < len(args):
        interp.throw(TypeError, "not all arguments converted")
    return mkstr(parts)


def str_format(interp, fmt, args, kwargs):
    import string
    if not isinstance(fmt, str):
        return interp.ctx.app("str.format", (fmt,) + tuple(args), "str")
    parts = []
    auto = 0
    for text, field, spec, conv in string.Formatter().parse(fmt):
        parts.append(text)
        if field is None:
            continue
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            k = int(field)
            if k >= len(args):
                interp.throw(IndexError)
            v = args[k]
        elif field in kwargs:
            v = kwargs[field]
        else:
            raise Unsupported("format field")
        if "{" in spec:
            raise Unsupported("nested format field")
        parts.extend(str_parts(format_value(
            interp, v, spec, ord(conv) if conv else -1)))
    return mkstr(parts)


# -- merging ---------------------------------------------------------------------

def optional_text(cond, text, other=""):
    """The text if the condition holds."""
    return SStr([Atom("tab", frozenset({(1, text)}), other, mkint(
        z3.If(cond, z3.IntVal(1), z3.IntVal(0))))])


def merge(interp, cond, a, b):
    """ITE of two values as a 1-tuple or None."""
    if a is b:
        return (a,)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return (mkbool(z3.If(cond, zb(a), zb(b))),)
    if is_int(a) and is_int(b) and not isinstance(a, (bool, SBool)) and \
            not isinstance(b, (bool, SBool)):
        return (mkint(z3.If(cond, zi(a), zi(b))),)
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return (a,)
    if isinstance(a, str) and isinstance(b, str) and not (a and b):
        return (optional_text(cond, a, b),)
    if kind_of(a) == "str" and kind_of(b) == "str":
        ca, cb = core._fixed_chars(a), core._fixed_chars(b)
        if ca is not None and cb is not None and len(ca) == len(cb) == 1:
            e = simp(z3.If(cond, ca[0], cb[0]))
            k = lit(e)
            return (chr(k) if k is not None else SStr([Atom("chr", SInt(e))]),)
    return None


# -- subscripts --------------------------------------------------------------------

def norm_index(interp, key, n, exc=IndexError):
    """Index of a sequence of length n (int/z3): bounds checked, non-negative."""
    ctx = interp.ctx
    if isinstance(key, (bool, SBool)):
        key = mkint(zi(key))
    if isinstance(key, int) and isinstance(n, int):
        if key < -n or key >= n:
            interp.throw(exc, "index out of range")
        return key + n if key < 0 else key
    e = zi(key)
    ne = n if z3.is_expr(n) else zi(n)
    k = lit(simp(e))
    if k is not None and k < 0:
        if not ctx.decide(mkbool(ne + e >= 0)):
            interp.throw(exc, "index out of range")
        return mkint(ne + e)
    if not ctx.decide(mkbool(z3.And(e < ne, e >= -ne))):
        interp.throw(exc, "index out of range")
    if k is not None or ctx.decide(mkbool(e >= 0)):
        return mkint(e)
    return mkint(ne + e)


def table_lookup(interp, items, key):
    """items[key] of concrete items with a symbolic in-range index."""
    ctx = interp.ctx
    if all(isinstance(x, int) and not isinstance(x, bool) for x in items) and items:
        return mkint(piecewise(zi(key), list(items)))
    if all(isinstance(x, str) and len(x) == 1 for x in items) and items:
        e = simp(piecewise(zi(key), [ord(x) for x in items]))
        k = lit(e)
        return chr(k) if k is not None else SStr([Atom("chr", SInt(e))])
    if items and all(isinstance(x, str) for x in items):
        return SStr([Atom("tab", frozenset(enumerate(items)), None, key)])
    if len(items) <= 64:
        for k in range(len(items) - 1):
            if ctx.decide(mkbool(zi(key) == k)):
                return items[k]
        return items[-1]
    raise Unsupported("table lookup")


def piecewise(e, values):
    """Term for values[e], 0 <= e < len(values), as constant/linear runs."""
    runs = []
    k = 0
    while k < len(values):
        m = k + 1
        while m < len(values) and values[m] == values[k]:
            m += 1
        n = k + 1
        while n < len(values) and values[n] - n == values[k] - k:
            n += 1
        if n > m:
            runs.append((n, e + (values[k] - k)))
            k = n
        else:
            runs.append((m, I(values[k])))
            k = m
    term = runs[-1][1]
    for end, val in reversed(runs[:-1]):
        term = z3.If(e < end, val, term)
    return term


def list_index(interp, obj, key):
    ctx = interp.ctx
    if not any(isinstance(x, Splice) for x in obj):
        key = norm_index(interp, key, len(obj))
        if isinstance(key, int):
            value = obj[key]
            if isinstance(value, Undefined):
                raise Unsupported("read of undetermined location")
            return value
        if not is_symbolic(obj):
            return table_lookup(interp, obj, key)
        if all(is_int(x) for x in obj):
            e = zi(obj[-1])
            for k in range(len(obj) - 2, -1, -1):
                e = z3.If(zi(key) == k, zi(obj[k]), e)
            return mkint(e)
        for k in range(len(obj) - 1):
            if ctx.decide(mkbool(zi(key) == k)):
                return obj[k]
        return obj[-1]
    n = interp.seq_len(obj)
    key = norm_index(interp, key, zi(n))
    return rope_get(interp, obj, key)


def rope_get(interp, obj, key):
    """Element of a list with splices at an in-range index."""
    ctx = interp.ctx
    pos = I(0)
    for k, x in enumerate(obj):
        ln = x.ln if isinstance(x, Splice) else I(1)
        nxt = simp(pos + ln)
        if k == len(obj) - 1 or ctx.decide(mkbool(zi(key) < nxt)):
            if isinstance(x, Splice):
                return x.elem(simp(x.start + zi(key) - pos))
            return x
        pos = nxt
    raise Unsupported("rope index")


def expand(interp, obj, limit=64):
    """Elements of a list whose length is fixed on this path, or None."""
    out = []
    for x in obj:
        if isinstance(x, Splice):
            n = interp.ctx.constant(mkint(x.ln))
            if n is None or n > limit:
                return None
            out.extend(x.elem(simp(x.start + k)) for k in range(n))
        else:
            out.append(x)
    return out


def slice_list(interp, obj, key):
    ctx = interp.ctx
    if key.step not in (None, 1):
        if isinstance(key.step, int) and not any(isinstance(x, Splice) for x in obj) \
                and not isinstance(key.start, SInt) and not isinstance(key.stop, SInt):
            return obj[key]
        flat = expand(interp, obj)
        if flat is not None and isinstance(key.step, int) and not isinstance(
                key.start, SInt) and not isinstance(key.stop, SInt):
            return type(obj)(flat)[key]
        raise Unsupported("slice step")
    if not any(isinstance(x, Splice) for x in obj):
        if not isinstance(key.start, SInt) and not isinstance(key.stop, SInt):
            return obj[key]
    items = list(obj)
    n = interp.seq_len(items)
    start, ln = core.clamp(ctx, 0 if key.start is None else key.start,
                           n if key.stop is None else key.stop, zi(n))
    if ctx.implied(ln == 0):
        return type(obj)()
    out = []
    pos = I(0)
    end = simp(start + ln)
    for x in items:
        sl = x.ln if isinstance(x, Splice) else I(1)
        nxt = simp(pos + sl)
        if ctx.implied(nxt <= start) or ctx.implied(pos >= end):
            pos = nxt
            continue
        if isinstance(x, Splice):
            s = simp(z3.If(start > pos, start - pos, I(0)))
            e = simp(z3.If(end < nxt, end - pos, sl))
            if ctx.implied(start <= pos):
                s = I(0)
            if ctx.implied(end >= nxt):
                e = sl
            l = simp(e - s)
            if not ctx.implied(l >= 0):
                l = simp(z3.If(l < 0, I(0), l))
            out.append(Splice(x.sym, simp(x.start + s), l, x.elem))
        else:
            if not (ctx.implied(start <= pos) and ctx.implied(end >= nxt)):
                if not ctx.decide(mkbool(z3.And(start <= pos, end >= nxt))):
                    pos = nxt
                    continue
            out.append(x)
        pos = nxt
    return out if isinstance(obj, list) else tuple(out)


def getitem(interp, obj, key):
    ctx = interp.ctx
    if isinstance(obj, Undefined) or isinstance(key, Undefined):
        raise Unsupported("read of undetermined location")
    if isinstance(obj, (list, tuple)):
        if isinstance(key, slice):
            return slice_list(interp, obj, key)
        if key is None or isinstance(key, (str, SStr)):
            interp.throw(TypeError, "indices")
        return list_index(interp, obj, key)
    if isinstance(obj, (bytes, bytearray, SBytes)):
        if isinstance(key, slice):
            if key.step not in (None, 1):
                if isinstance(obj, bytes) and not is_symbolic(
                        [key.start, key.stop, key.step]):
                    return obj[key]
                n = bytes_len(obj)
                n = n if isinstance(n, int) else ctx.constant(n)
                if n is not None and not is_symbolic([key.start, key.stop, key.step]):
                    return [mkint(bytes_at(ctx, obj, I(k)))
                            for k in range(*key.indices(n))]
                if key.step == -1 and key.start is None and key.stop is None:
                    return ctx.app("reverse_bytes", (obj,), "bytes")
                raise Unsupported("bytes slice step")
            for part in (key.start, key.stop):
                if part is not None and not is_int(part):
                    interp.throw(TypeError, "slice indices")
            return slice_bytes(ctx, obj, key.start, key.stop)
        if not is_int(key):
            interp.throw(TypeError, "byte indices")
        n = bytes_len(obj)
        k = norm_index(interp, key, n)
        return mkint(bytes_at(ctx, obj, zi(k)))
    if isinstance(obj, str) and not is_symbolic(key) and not (
            isinstance(key, slice) and is_symbolic([key.start, key.stop])):
        try:
            return obj[key]
        except IndexError:
            interp.throw(IndexError)
        except TypeError:
            interp.throw(TypeError)
    if isinstance(obj, (str, SStr)):
        if isinstance(key, slice):
            return str_slice(interp, obj, key)
        chars = core._fixed_chars(obj)
        if chars is not None:
            k = norm_index(interp, key, len(chars))
            if isinstance(k, int):
                return char_of(chars[k])
            e = chars[-1]
            for m in range(len(chars) - 2, -1, -1):
                e = z3.If(zi(k) == m, chars[m], e)
            return char_of(simp(e))
        n = str_len(ctx, obj)
        k = norm_index(interp, key, n if isinstance(n, int) else zi(n))
        if isinstance(k, int):
            # constant prefix
            p = str_parts(obj)[0]
            if isinstance(p, str) and k < len(p):
                return p[k]
        c = ctx.app("char_at", (obj, k), "int", lo=0, hi=0x10FFFF)
        return SStr([Atom("chr", c)])
    if isinstance(obj, SDict):
        for k, v in reversed(obj.entries):
            if ctx.decide(truth_of(interp, eq(interp, key, k))):
                return v
        if obj.base is not None:
            if ctx.decide(dict_has(ctx, obj.base, key)):
                return ctx.app("dict_get", (obj.base, key), "obj")
        interp.throw(KeyError, key)
    if isinstance(obj, dict):
        r = dict_get(interp, obj, key, MISSING)
        if r is MISSING:
            interp.throw(KeyError, key)
        return r
    if isinstance(obj, SIntSeq):
        return obj.at(ctx, key)
    if isinstance(obj, SRange) or isinstance(obj, range):
        raise Unsupported("range subscript")
    if isinstance(obj, SObj):
        _, m = class_attribute(obj.cls, "__getitem__")
        if isinstance(m, types.FunctionType):
            return interp.call_function(m, [obj, key], {})
        interp.throw(TypeError, "not subscriptable")
    if obj is None or is_int(obj):
        interp.throw(TypeError, "not subscriptable")
    if isinstance(obj, Opaque):
        hook = OPAQUE_ITEMS.get(obj.kind)
        if hook:
            return hook(interp, obj, key)
        return ctx.app("item", (obj, key), "obj")
    raise Unsupported(f"subscript of {kind_of(obj)}")


OPAQUE_ITEMS = {}


def char_of(e):
    k = lit(e)
    return chr(k) if k is not None else SStr([Atom("chr", SInt(e))])


def str_slice(interp, obj, key):
    ctx = interp.ctx
    if key.step not in (None, 1):
        raise Unsupported("string slice step")
    chars = core._fixed_chars(obj)
    if chars is not None and not is_symbolic([key.start, key.stop]):
        return mkstr([char_of(c) if isinstance(char_of(c), str)
                      else char_of(c).parts[0] for c in chars[key.start:key.stop]])
    parts = str_parts(obj)
    # drop a constant prefix / known parts
    if isinstance(key.start, int) and key.start >= 0 and key.stop is None and parts \
            and isinstance(parts[0], str) and len(parts[0]) >= key.start:
        return mkstr([parts[0][key.start:]] + list(parts[1:]))
    if key.start in (None, 0) and isinstance(key.stop, int) and parts:
        if key.stop < 0 and isinstance(parts[-1], str) and len(
                parts[-1]) >= -key.stop:
            return mkstr(list(parts[:-1]) + [parts[-1][:key.stop]])
        if key.stop >= 0 and isinstance(parts[0], str) and len(parts[0]) >= key.stop:
            return parts[0][:key.stop]
    if isinstance(key.start, int) and key.start < 0 and key.stop is None and parts \
            and isinstance(parts[-1], str) and len(parts[-1]) >= -key.start:
        return parts[-1][key.start:]
    if key.start == -2 and key.stop is None and len(parts) > 1 and parts[
            -1] == "\n" and isinstance(parts[-2], Atom) and atom_excludes(
                ctx, parts[-2], "\n"):
        if parts[-2].kind == "fmt" or parts[-2].kind == "op" and parts[
                -2].args[0].attrs.get("nonempty"):
            char = ctx.app("last_char", (SStr([parts[-2]]),), "str")
            char.parts[0].args[0].attrs["excludes"] = "\n"
            return mkstr([char.parts[0], "\n"])
    return ctx.app("str_slice", (obj, key.start, key.stop), "str")


def freeze(d):
    return frozenset(d.items())


def chosen_text(interp, text):
    """One of the texts of a table, there is a path for every one of them."""
    if isinstance(text, SStr) and len(text.parts) == 1 and \
            isinstance(text.parts[0], Atom) and text.parts[0].kind == "tab":
        table, other, key = text.parts[0].args
        for value in sorted({v for _, v in table}):
            if interp.ctx.decide(mkbool(z3.Or(*[zi(key) == k for k, v in table
                                                if v == value]))):
                return value
        if other is None:
            raise core.PathEnd("infeasible")
        return other
    return text


def dict_has(ctx, base, key):
    """Whether an arbitrary dictionary has a key, which it has not if it is empty."""
    has = ctx.app("dict_has", (base, key), "bool")
    ctx.assume(z3.Implies(zb(has), zb(ctx.app("dict_nonempty", (base,), "bool"))))
    return has


def dict_get(interp, d, key, default):
    """Lookup in a concrete dict."""
    ctx = interp.ctx
    key = chosen_text(interp, key)
    if not is_symbolic(key):
        try:
            return d.get(key, default)
        except TypeError:
            interp.throw(TypeError, "unhashable")
    if not d:
        return default
    keys = list(d)
    if isinstance(key, (SInt, SBool)) and all(isinstance(k, int) for k in keys):
        values = list(d.values())
        member = z3.Or(*[zi(key) == k for k in keys])
        if all(isinstance(v, str) for v in values):
            if isinstance(default, str):
                return SStr([Atom("tab", freeze(d), default, key)])
            if ctx.decide(mkbool(member)):
                return SStr([Atom("tab", freeze(d), None, key)])
            return default
        if all(isinstance(v, int) and not isinstance(v, bool) for v in values) and \
                isinstance(default, int):
            e = I(default)
            for k, v in d.items():
                e = z3.If(zi(key) == k, I(v), e)
            return mkint(e)
        if not ctx.decide(mkbool(member)):
            return default
        for k, v in d.items():
            if ctx.decide(mkbool(zi(key) == k)):
                return v
        raise core.PathEnd("infeasible")
    for k, v in d.items():
        if ctx.decide(truth_of(interp, eq(interp, key, k))):
            return v
    return default


def setitem(interp, obj, key, value):
    ctx = interp.ctx
    ctx.events += 1
    if isinstance(obj, SDict):
        if not is_symbolic(key) and not any(is_symbolic(k) for k, _ in obj.entries):
            for entry in obj.entries:
                if type(entry[0]) is type(key) and entry[0] == key or (
                        entry[0] == key):
                    entry[1] = value
                    return
            obj.entries.append([key, value])
            return
        for entry in reversed(obj.entries):
            if ctx.decide(truth_of(interp, eq(interp, key, entry[0]))):
                entry[1] = value
                return
        obj.entries.append([key, value])
        return
    if isinstance(obj, list):
        if isinstance(key, slice):
            raise Unsupported("slice assignment")
        if any(isinstance(x, Splice) for x in obj):
            raise Unsupported("assignment into opaque list")
        k = norm_index(interp, key, len(obj))
        if isinstance(k, int):
            obj[k] = value
            return
        raise Unsupported("symbolic index assignment")
    if isinstance(obj, SObj):
        _, m = class_attribute(obj.cls, "__setitem__")
        if isinstance(m, types.FunctionType):
            interp.call_function(m, [obj, key, value], {})
            return
    if isinstance(obj, (bytes, SBytes, str, SStr, tuple)) or obj is None:
        interp.throw(TypeError, "item assignment")
    raise Unsupported(f"item assignment on {kind_of(obj)}")


def delitem(interp, obj, key):
    interp.ctx.events += 1
    if isinstance(obj, SDict):
        for k in range(len(obj.entries) - 1, -1, -1):
            if interp.ctx.decide(truth_of(interp, eq(interp, key, obj.entries[k][0]))):
                del obj.entries[k]
                if obj.base is not None:
                    raise Unsupported("delete from opaque dict")
                return
        if obj.base is None:
            interp.throw(KeyError, key)
    if isinstance(obj, list) and isinstance(key, int):
        if any(isinstance(x, Splice) for x in obj):
            raise Unsupported("delete from opaque list")
        if not -len(obj) <= key < len(obj):
            interp.throw(IndexError)
        del obj[key]
        return
    if isinstance(obj, list) and isinstance(key, slice) and not any(
            isinstance(x, Splice) for x in obj) and not is_symbolic(
                [key.start, key.stop]):
        del obj[key]
        return
    raise Unsupported("del item")


def opaque_items(ctx, base):
    """The keys and values of an arbitrary dictionary, keys are text."""
    def element(index):
        index = index if z3.is_expr(index) else I(index)
        key = (base, mkint(index))
        return (ctx.app("dict_key", key, "str"), ctx.app("dict_value", key, "obj"))

    def make():
        n = ctx.fresh_int("dict_len", lo=0)
        ctx.assume(zb(ctx.app("dict_nonempty", (base,), "bool")) == (n.e > 0))
        return ctx.fresh_list("items", elem=element, ln=n.e)
    return list(ctx.app("dict_items", (base,), "list", make=make))


def dict_items(interp, d):
    if isinstance(d, SDict):
        if d.base is not None and not d.entries:
            return opaque_items(interp.ctx, d.base)
        if d.base is not None:
            raise Unsupported("iteration over opaque dict")
        return [(k, v) for k, v in d.entries]
    if isinstance(d, dict):
        return list(d.items())
    raise Unsupported("dict items")


# -- iteration -----------------------------------------------------------------------

def make_iter(interp, v):
    """Python list of values or an IterState."""
    from engine.interp import IterState
    ctx = interp.ctx
    if isinstance(v, GenList):
        items = v.items
        v = items
    if isinstance(v, (list, tuple)):
        if not any(isinstance(x, Splice) for x in v):
            return list(v)
        items = list(v)
        n = interp.seq_len(items)
        return IterState(n, lambda i: rope_get(interp, items, i))
    if isinstance(v, (str, range, set, frozenset)):
        return list(v) if not isinstance(v, (set, frozenset)) else sorted(
            v, key=repr)
    if isinstance(v, SSet):
        return list(v.items)
    if isinstance(v, (bytes, bytearray)):
        return list(v)
    if isinstance(v, dict):
        return list(v)
    if isinstance(v, SDict):
        if v.base is not None:
            raise Unsupported("iteration over opaque dict")
        return [k for k, _ in v.entries]
    if isinstance(v, SBytes):
        n = v.length()
        k = n if isinstance(n, int) else lit(simp(n))
        if k is not None:
            return [mkint(bytes_at(ctx, v, I(i))) for i in range(k)]
        return IterState(mkint(n), lambda i: mkint(bytes_at(ctx, v, zi(i))))
    if isinstance(v, SRange):
        n = interp.range_len(v)
        if isinstance(n, int):
            return [mkint(zi(v.start) + i * zi(v.step)) for i in range(n)]
        return IterState(n, lambda i: mkint(zi(v.start) + zi(i) * zi(v.step)))
    if isinstance(v, SStr):
        chars = core._fixed_chars(v)
        if chars is not None:
            return [char_of(c) for c in chars]
        n = str_len(ctx, v)
        return IterState(n, lambda i: SStr([Atom("chr", ctx.app(
            "char_at", (v, i), "int", lo=0, hi=0x10FFFF))]))
    if isinstance(v, IterState):
        return v
    if isinstance(v, SObj):
        _, m = class_attribute(v.cls, "__iter__")
        if isinstance(m, types.FunctionType):
            return make_iter(interp, interp.call_function(m, [v], {}))
    if v is None or is_int(v):
        interp.throw(TypeError, "not iterable")
    if isinstance(v, Opaque):
        n = ctx.app("len", (v,), "int", lo=0)
        return IterState(n, lambda i: ctx.app("item", (v, i), "obj"))
    if isinstance(v, SIntSeq):
        return IterState(v.length, lambda i: v.at(ctx, i))
    if not is_symbolic(v) and hasattr(v, "__iter__"):
        return list(v)
    raise Unsupported(f"iteration over {kind_of(v)}")


def list_append(interp, lst, value):
    interp.ctx.events += 1
    lst.append(value)


def list_extend(interp, lst, value):
    interp.ctx.events += 1
    if isinstance(value, GenList):
        value = value.items
    if isinstance(value, (list, tuple)):
        lst.extend(value)
        return
    it = make_iter(interp, value)
    if isinstance(it, list):
        lst.extend(it)
        return
    sym = core.fresh_name("ext")
    lst.append(Splice(sym, I(0), zi(it.n), lambda e: it.get(mkint(e))))


def make_set(interp, items):
    if any(is_symbolic(x) for x in items):
        if any(isinstance(x, Splice) for x in items):
            raise Unsupported("symbolic set")
        return SSet(items)
    return set(items)


# -- context managers -------------------------------------------------------------------

def enter(interp, manager):
    if isinstance(manager, SObj):
        return interp.call(interp.getattr(manager, "__enter__"), [], {})
    if isinstance(manager, SFile):
        return manager
    raise Unsupported("with statement")


def exit(interp, manager, exc):  # pylint: disable=redefined-builtin
    if isinstance(manager, SObj):
        return interp.test(interp.call(
            interp.getattr(manager, "__exit__"), [
                exc.cls if exc else None, exc, None], {}))
    return False


# -- methods of modelled values -----------------------------------------------------------

def call_method(interp, obj, name, args, kwargs):
    if isinstance(obj, GenList):
        raise Unsupported(f"generator method {name}")
    if isinstance(obj, (bytes, bytearray, SBytes)):
        return bytes_method(interp, obj, name, args, kwargs)
    if isinstance(obj, (str, SStr)):
        return str_method(interp, obj, name, args, kwargs)
    if isinstance(obj, (int, SInt, SBool)):
        return int_method(interp, obj, name, args, kwargs)
    if isinstance(obj, list):
        return list_method(interp, obj, name, args, kwargs)
    if isinstance(obj, (dict, SDict)):
        return dict_method(interp, obj, name, args, kwargs)
    if isinstance(obj, SFile):
        return file_method(interp, obj, name, args, kwargs)
    if isinstance(obj, SWriter):
        if name == "WriteText" and interp.ctx.optional is not None:
            interp.ctx.optional.append((obj, args[0]))
            return None
        interp.ctx.events += 1
        if name == "WriteText":
            if not interp.contract.trace and any(
                    TRACED in frame.name for frame in interp.frames):
                return None
            obj.text = binop(interp, ast.Add(), obj.text, args[0])
            return None
        if name in ("Open", "Close"):
            return None
        raise Unsupported(f"output writer {name}")
    if isinstance(obj, tuple):
        if name == "index" and not is_symbolic(obj) and not is_symbolic(args):
            return obj.index(*args)
        if name == "count" and not is_symbolic(obj) and not is_symbolic(args):
            return obj.count(*args)
    if isinstance(obj, (set, frozenset, SSet)):
        if isinstance(obj, SSet) or is_symbolic(args):
            if name == "add" and isinstance(obj, SSet):
                interp.ctx.events += 1
                obj.items.append(args[0])
                return None
            raise Unsupported(f"set method {name}")
        interp.ctx.events += 1
        return getattr(obj, name)(*args)
    if isinstance(obj, float):
        return getattr(obj, name)(*args)
    if isinstance(obj, Opaque):
        return opaque_method(interp, obj, name, args, kwargs)
    hook = NATIVE_METHODS.get(type(obj).__name__)
    if hook:
        return hook(interp, obj, name, args, kwargs)
    raise Unsupported(f"method {name} of {kind_of(obj)}")


NATIVE_METHODS = {}
OPAQUE_METHODS = {}
OPAQUE_ATTRS["obj"] = lambda interp, obj, name, default: interp.ctx.app(
    "field:" + name, (obj,), "obj")


def opaque_method(interp, obj, name, args, kwargs):
    hook = OPAQUE_METHODS.get(obj.kind)
    if hook:
        return hook(interp, obj, name, args, kwargs)
    raise Unsupported(f"method {name} of opaque {obj.kind}")


def file_method(interp, f, name, args, kwargs):
    ctx = interp.ctx
    ctx.events += 1
    if name == "tell" or name == "get_offset":
        f.pos = core.resolve(ctx, f.pos)
        return f.pos
    if name == "get_size":
        return mkint(f.size)
    if name == "close":
        f.closed = True
        return None
    if name == "seek":
        offset = args[0] if args else kwargs.get("offset")
        whence = args[1] if len(args) > 1 else kwargs.get("whence", 0)
        if not is_int(offset):
            interp.throw(TypeError, "seek")
        if not isinstance(whence, int):
            for k in (0, 1, 2):
                if ctx.decide(mkbool(zi(whence) == k)):
                    whence = k
                    break
            else:
                interp.throw(ValueError, "whence")
        if whence not in (0, 1, 2):
            interp.throw(ValueError, "whence")
        base = I(0) if whence == 0 else zi(f.pos if whence == 1 else mkint(f.size))
        new = base + zi(offset)
        if not ctx.decide(mkbool(new >= 0)):
            interp.throw(OSError, "negative seek")
        f.pos = mkint(new)
        return f.pos
    if name == "read":
        size = args[0] if args else kwargs.get("size", None)
        if f.faulty:
            if ctx.decide(ctx.app(f"io_error:{f.src.name}", (f.pos, size), "bool")):
                interp.throw(OSError, "I/O error")
        pos = zi(f.pos)
        fsize = f.size if z3.is_expr(f.size) else I(f.size)
        avail = simp(fsize - pos)
        if not ctx.implied(avail >= 0):
            avail = simp(z3.If(avail < 0, I(0), avail))
        if size is None:
            ln = avail
        else:
            if not is_int(size):
                interp.throw(TypeError, "read")
            e = zi(size)
            if not ctx.decide(mkbool(e >= 0)):
                ln = avail
            elif ctx.implied(e <= avail):
                ln = simp(e)
            elif ctx.implied(e >= avail):
                ln = avail
            else:
                ln = simp(z3.If(e < avail, e, avail))
        data = norm_bytes(SBytes([Seg(src=f.src, off=simp(pos), ln=ln)]))
        f.pos = mkint(pos + ln)
        return data
    raise Unsupported(f"file method {name}")


_CODEC_NAMES = {
    "latin1": "latin-1", "iso-8859-1": "latin-1", "latin_1": "latin-1",
    "utf8": "utf-8", "utf_8": "utf-8", "utf-16le": "utf-16-le",
    "utf-16be": "utf-16-be", "us-ascii": "ascii"}


def codec_name(name):
    if not isinstance(name, str):
        raise Unsupported("symbolic codec")
    name = name.lower()
    return _CODEC_NAMES.get(name, name)


def bytes_method(interp, b, name, args, kwargs):
    ctx = interp.ctx
    if not is_symbolic(b) and not is_symbolic(args) and not is_symbolic(
            list(kwargs.values())) and not any(
                isinstance(a, (GenList,)) for a in args):
        try:
            return getattr(bytes(b), name)(*args, **kwargs)
        except Exception as exception:  # pylint: disable=broad-except
            interp.throw(type(exception), str(exception))
    if name == "decode" and args and isinstance(args[0], SStr):
        # Which codecs there are and what they decode is not interpreted.
        keys = (b, args[0])
        if len(args) > 1 or kwargs:
            raise Unsupported("decode with a symbolic codec")
        if not ctx.decide(ctx.app("decode_codec", (args[0],), "bool")):
            interp.throw(LookupError, "codec")
        if not ctx.decide(ctx.app("decode_ok", keys, "bool")):
            interp.throw(ValueError, "codec")
        return ctx.app("decode", keys, "str")
    if name == "decode":
        codec = codec_name(args[0] if args else kwargs.get("encoding", "utf-8"))
        errors_ = args[1] if len(args) > 1 else kwargs.get("errors", "strict")
        n = bytes_len(b)
        if codec == "latin-1":
            k = n if isinstance(n, int) else lit(simp(n))
            if k is not None and k <= 64:
                return mkstr([x if isinstance(x, str) else x.parts[0] for x in (
                    char_of(simp(bytes_at(ctx, b, I(i)))) for i in range(k))])
            r = ctx.app("decode:latin-1", (b,), "str")
            return r
        if errors_ == "strict":
            ok = ctx.app("decode_ok:" + codec, (b,), "bool")
            if not ctx.decide(ok):
                interp.throw(UnicodeDecodeError, codec)
        elif ctx.decide(ctx.app("decode_ok:" + codec, (b,), "bool")):
            errors_ = "strict"
        return ctx.app(f"decode:{codec}:{errors_}", (b,), "str")
    if name == "join":
        items = args[0]
        it = make_iter(interp, items)
        if not isinstance(it, list):
            lst = items.items if isinstance(items, GenList) else items
            return join_rope(interp, b, lst)
        out = b""
        for k, x in enumerate(it):
            if kind_of(x) != "bytes":
                interp.throw(TypeError, "join")
            if k and b:
                out = concat_bytes(out, b)
            out = concat_bytes(out, x)
        return out
    if name in ("startswith", "endswith"):
        prefix = args[0]
        if isinstance(prefix, tuple):
            return mkbool(z3.Or(*[zb(bytes_method(interp, b, name, [p], {}))
                                  for p in prefix]))
        n = bytes_len(prefix)
        if isinstance(n, int) and len(args) == 1:
            total = bytes_len(b)
            te = total if z3.is_expr(total) else I(total)
            if name == "startswith":
                conj = [te >= n] + [bytes_at(ctx, b, I(k)) == bytes_at(
                    ctx, prefix, I(k)) for k in range(n)]
            else:
                conj = [te >= n] + [bytes_at(ctx, b, te - n + k) == bytes_at(
                    ctx, prefix, I(k)) for k in range(n)]
            return mkbool(z3.And(*conj))
        return ctx.app("bytes." + name, (b,) + tuple(args), "bool")
    if name in ("find", "index", "rfind") and args and kind_of(args[0]) == "bytes":
        needle = args[0]
        start = args[1] if len(args) > 1 else 0
        if name in ("find", "index") and isinstance(needle, bytes) and len(
                needle) == 1 and isinstance(start, int) and start == 0 and len(
                    args) < 3:
            from engine import speclib
            r = speclib.sym_find_terminator(interp, [b, needle, 1], {})
            if name == "index" and ctx.decide(mkbool(zi(r) == -1)):
                interp.throw(ValueError, "subsection not found")
            return r
        n = bytes_len(b)
        ne = n if z3.is_expr(n) else I(n)
        m = bytes_len(needle)
        r = ctx.app("bytes." + ("find" if name == "index" else name),
                    (b, needle, start), "int", lo=-1)
        ctx_fact(ctx, z3.Or(zi(r) == -1, z3.And(
            zi(r) + m <= ne, zi(r) >= 0)))
        if isinstance(start, int) and start >= 0 or ctx.implied(zi(start) >= 0):
            ctx_fact(ctx, z3.Or(zi(r) == -1, zi(r) >= zi(start)))
        if isinstance(m, int) and m <= 8:
            for k in range(m):
                ctx_fact(ctx, z3.Or(zi(r) == -1, bytes_at(
                    ctx, b, zi(r) + k) == bytes_at(ctx, needle, I(k))))
        if name == "index" and ctx.decide(mkbool(zi(r) == -1)):
            interp.throw(ValueError, "subsection not found")
        return r
    if name == "partition" and isinstance(args[0], bytes):
        r = bytes_method(interp, b, "find", args, {})
        if interp.ctx.decide(mkbool(zi(r) == -1)):
            return (b, b"", b"")
        stop = mkint(zi(r) + len(args[0]))
        return (getitem(interp, b, slice(None, r, None)), args[0],
                getitem(interp, b, slice(stop, None, None)))
    if name == "rstrip" and args and args[0] == b"\x00":
        n = bytes_len(b)
        ne = n if z3.is_expr(n) else I(n)
        r = ctx.app("rstrip0_len", (b,), "int", lo=0)
        ctx_fact(ctx, zi(r) <= ne)
        ctx_fact(ctx, z3.Or(zi(r) == 0, bytes_at(ctx, b, zi(r) - 1) != 0))
        return core.take(ctx, b, zi(r), zi(r)) if False else core.take(
            ctx, b, I(0), zi(r))
    if name in ("rstrip", "lstrip", "strip", "replace", "lower", "upper", "ljust",
                "rjust", "translate"):
        return ctx.app("bytes." + name, (b,) + tuple(args), "bytes")
    if name in ("hex",):
        return ctx.app("bytes." + name, (b,) + tuple(args), "str")
    if name in ("split", "rsplit", "splitlines"):
        return list(ctx.app("bytes." + name, (b,) + tuple(args), "list", make=lambda:
                            tuple(bytes_list(ctx, "split"))))
    if name == "count":
        return ctx.app("bytes.count", (b,) + tuple(args), "int", lo=0)
    if name in ("isdigit", "isalnum", "isalpha"):
        return ctx.app("bytes." + name, (b,), "bool")
    raise Unsupported(f"bytes method {name}")


def bytes_list(ctx, prefix):
    sym = core.fresh_name(prefix)
    ln = z3.Int(sym + "_len")
    ctx.assume(ln >= 1)
    return [Splice(sym, I(0), ln, lambda i: ctx.app(
        "elem:" + sym, (mkint(i),), "bytes"))]


def join_rope(interp, sep, lst):
    ctx = interp.ctx
    return ctx.app("bytes_join", (sep, list(lst)), "bytes")


def int_method(interp, v, name, args, kwargs):
    if name == "to_bytes":
        length = args[0] if args else kwargs.get("length", 1)
        order = args[1] if len(args) > 1 else kwargs.get("byteorder", "big")
        signed = kwargs.get("signed", False)
        if isinstance(v, int):
            try:
                return v.to_bytes(length, order, signed=signed)
            except OverflowError:
                interp.throw(OverflowError)
        ctx = interp.ctx
        lo, hi = (-(1 << (8 * length - 1)), 1 << (8 * length - 1)) if signed else (
            0, 1 << (8 * length))
        if not ctx.decide(mkbool(z3.And(v.e >= lo, v.e < hi))):
            interp.throw(OverflowError)
        src = core.ByteSrc(core.fresh_name("to_bytes"))
        for k in range(length):
            shift = 8 * (k if order == "little" else length - 1 - k)
            ctx_fact(ctx, src.f(I(k)) == (v.e / (1 << shift)) % 256)
        return SBytes([Seg(src=src, off=I(0), ln=I(length))])
    if name == "bit_length" and isinstance(v, int):
        return v.bit_length()
    raise Unsupported(f"int method {name}")


def list_method(interp, lst, name, args, kwargs):
    ctx = interp.ctx
    if name == "append":
        list_append(interp, lst, args[0])
        return None
    if name == "extend":
        list_extend(interp, lst, args[0])
        return None
    spliced = any(isinstance(x, Splice) for x in lst)
    if name == "insert" and isinstance(args[0], int):
        if spliced and args[0] != 0:
            raise Unsupported("insert into opaque list")
        ctx.events += 1
        lst.insert(args[0], args[1])
        return None
    if name == "pop":
        ctx.events += 1
        index = args[0] if args else -1
        if lst and index in (-1, 0) and not isinstance(lst[index], Splice):
            return lst.pop(index)
        if not spliced and isinstance(index, int):
            if not -len(lst) <= index < len(lst):
                interp.throw(IndexError)
            return lst.pop(index)
        if lst and index in (0, -1) and isinstance(lst[index], Splice):
            sp = lst[index]
            if len(lst) == 1:
                if not ctx.decide(mkbool(sp.ln >= 1)):
                    interp.throw(IndexError)
            elif not ctx.implied(sp.ln >= 1):
                raise Unsupported("pop of opaque list")
            if index == 0:
                lst[0] = Splice(sp.sym, simp(sp.start + 1), simp(sp.ln - 1), sp.elem)
                return sp.elem(sp.start)
            lst[-1] = Splice(sp.sym, sp.start, simp(sp.ln - 1), sp.elem)
            return sp.elem(simp(sp.start + sp.ln - 1))
        raise Unsupported("list pop")
    if name == "reverse":
        if spliced:
            raise Unsupported("reverse of opaque list")
        ctx.events += 1
        lst.reverse()
        return None
    if name == "clear":
        ctx.events += 1
        lst.clear()
        return None
    if name == "copy":
        return list(lst)
    if name == "index" and not spliced and not is_symbolic(lst) and not is_symbolic(
            args):
        try:
            return lst.index(*args)
        except ValueError:
            interp.throw(ValueError)
    if name == "sort" and not spliced and not is_symbolic(lst):
        ctx.events += 1
        lst.sort(**{k: v for k, v in kwargs.items() if not is_symbolic(v)})
        return None
    raise Unsupported(f"list method {name}")


def dict_method(interp, d, name, args, kwargs):
    ctx = interp.ctx
    if name == "get":
        default = args[1] if len(args) > 1 else kwargs.get("default")
        if isinstance(d, dict):
            return dict_get(interp, d, args[0], default)
        for k, v in reversed(d.entries):
            if ctx.decide(truth_of(interp, eq(interp, args[0], k))):
                return v
        if d.base is not None:
            if ctx.decide(dict_has(ctx, d.base, args[0])):
                return ctx.app("dict_get", (d.base, args[0]), "obj")
        return default
    if name == "items":
        items = dict_items(interp, d)
        return items if isinstance(items, core.Splice) or items and isinstance(
            items[0], core.Splice) else [tuple(x) for x in items]
    if name == "keys":
        return [k for k, _ in dict_items(interp, d)]
    if name == "values":
        return [v for _, v in dict_items(interp, d)]
    if name == "setdefault":
        if contains(interp, d, args[0]):
            return getitem(interp, d, args[0])
        value = args[1] if len(args) > 1 else None
        setitem(interp, d, args[0], value)
        return value
    if name == "update" and isinstance(d, SDict):
        if args:
            for k, v in dict_items(interp, args[0]):
                setitem(interp, d, k, v)
        for k, v in kwargs.items():
            setitem(interp, d, k, v)
        return None
    if name == "pop" and isinstance(d, SDict):
        for k in range(len(d.entries) - 1, -1, -1):
            if ctx.decide(truth_of(interp, eq(interp, args[0], d.entries[k][0]))):
                if d.base is not None:
                    raise Unsupported("pop of opaque dict")
                ctx.events += 1
                return d.entries.pop(k)[1]
        if d.base is None:
            if len(args) > 1:
                return args[1]
            interp.throw(KeyError)
    if name == "clear" and isinstance(d, SDict):
        ctx.events += 1
        d.entries = []
        d.base = None
        return None
    if name == "copy":
        if isinstance(d, SDict):
            return SDict([list(x) for x in d.entries], d.base)
        return dict(d)
    raise Unsupported(f"dict method {name}")


def is_missing(interp, v):
    """Whether a text of a call-site contract is None instead."""
    if len(v.parts) != 1 or isinstance(v.parts[0], str) or v.parts[0].kind != "op":
        return False
    none = v.parts[0].args[0].attrs.get("none")
    return none is not None and interp.ctx.decide(none)


def str_method(interp, s, name, args, kwargs):
    ctx = interp.ctx
    if isinstance(s, SStr) and is_missing(interp, s):
        interp.throw(AttributeError, "method of None")
    if name == "join":
        items = args[0]
        it = make_iter(interp, items)
        if not isinstance(it, list):
            lst = items.items if isinstance(items, GenList) else items
            if isinstance(lst, (list, tuple)) and s == "" and not all(
                    isinstance(x, Splice) for x in lst):
                parts, run = [], []
                for x in list(lst) + [None]:
                    if isinstance(x, Splice):
                        run.append(x)
                        continue
                    if run:
                        parts.extend(str_parts(ctx.app("str_join", (s, run), "str")))
                        run = []
                    if x is not None:
                        if kind_of(x) != "str":
                            interp.throw(TypeError, "join")
                        parts.extend(str_parts(x))
                return mkstr(parts)
            return ctx.app("str_join", (s, list(lst) if isinstance(
                lst, (list, tuple)) else lst), "str")
        parts = []
        for k, x in enumerate(it):
            if kind_of(x) != "str":
                if isinstance(x, Opaque) and x.kind == "obj":
                    x = ctx.app("as_str", (x,), "str")
                else:
                    interp.throw(TypeError, "join")
            if k:
                parts.extend(str_parts(s))
            parts.extend(str_parts(x))
        return mkstr(parts)
    if name == "format":
        if not isinstance(s, str) or is_symbolic(args) or is_symbolic(
                list(kwargs.values())):
            return str_format(interp, s, args, kwargs)
    if isinstance(s, str) and not is_symbolic(args) and not is_symbolic(
            list(kwargs.values())):
        try:
            return getattr(s, name)(*args, **kwargs)
        except Exception as exception:  # pylint: disable=broad-except
            interp.throw(type(exception), str(exception))
    if name in ("startswith", "endswith"):
        prefix = args[0]
        if isinstance(prefix, str) and isinstance(s, SStr):
            p = s.parts[0] if name == "startswith" else s.parts[-1]
            if isinstance(p, str) and (len(p) >= len(prefix)):
                return getattr(p, name)(prefix)
        return ctx.app("str." + name, (s,) + tuple(args), "bool")
    if name == "encode":
        codec = codec_name(args[0] if args else kwargs.get("encoding", "utf-8"))
        parts = str_parts(s)
        if len(parts) == 1 and isinstance(parts[0], Atom) and parts[0].kind == "op":
            pass
        ok = True
        if codec in ("ascii", "latin-1"):
            ok = ctx.app("encode_ok:" + codec, (s,), "bool")
        elif codec.startswith("utf"):
            ok = ctx.app("encode_ok:utf", (s,), "bool")
        if not ctx.decide(ok):
            interp.throw(UnicodeEncodeError, codec)
        return ctx.app("encode:" + codec, (s,), "bytes")
    if name == "rstrip" and isinstance(s, SStr) and args == ["\x00"] and isinstance(
            s.parts[-1], Atom) and s.parts[-1].kind == "fmt":
        return s
    if name in ("lower", "upper", "strip", "rstrip", "lstrip", "replace", "translate",
                "ljust", "rjust", "zfill", "title", "capitalize", "center",
                "expandtabs", "removeprefix", "removesuffix", "casefold"):
        if name in ("lower", "upper") and isinstance(s, SStr):
            # case of hexadecimal formatting
            pass
        return ctx.app("str." + name, (s,) + tuple(args), "str")
    if name in ("isdigit", "isalnum", "isalpha", "isdecimal", "isnumeric", "isupper",
                "islower", "isprintable", "isspace"):
        return ctx.app("str." + name, (s,), "bool")
    if name in ("find", "rfind", "index", "count", "rindex"):
        r = ctx.app("str." + name, (s,) + tuple(args), "int", lo=-1)
        return r
    if name in ("split", "rsplit", "splitlines"):
        return list(ctx.app("str." + name, (s,) + tuple(args), "list", make=lambda:
                            tuple(str_list(ctx, "split"))))
    if name in ("partition", "rpartition"):
        return tuple(ctx.app(f"str.{name}.{k}", (s,) + tuple(args), "str")
                     for k in range(3))
    raise Unsupported(f"str method {name}")


def str_list(ctx, prefix):
    sym = core.fresh_name(prefix)
    ln = z3.Int(sym + "_len")
    ctx.assume(ln >= 1)
    return [Splice(sym, I(0), ln, lambda i: ctx.app(
        "elem:" + sym, (mkint(i),), "str"))]


# -- built-in functions --------------------------------------------------------------------

def int_from_bytes(interp, b, order, signed=False):
    ctx = interp.ctx
    if isinstance(b, (list, tuple)):
        exprs = [zi(x) for x in b]
        n = len(exprs)
    else:
        n = bytes_len(b)
        n = n if isinstance(n, int) else ctx.constant(n)
        if n is None or n > 64:
            r = ctx.app(f"from_bytes:{order}:{signed}", (b,), "int",
                        lo=None if signed else 0)
            return r
        exprs = [bytes_at(ctx, b, I(k)) for k in range(n)]
    return compose_int(exprs, order, signed)


def compose_int(exprs, order, signed):
    n = len(exprs)
    total = I(0)
    for k, e in enumerate(exprs):
        shift = 8 * (k if order == "little" else n - 1 - k)
        total = total + e * (1 << shift)
    if signed and n:
        total = z3.If(total >= (1 << (8 * n - 1)), total - (1 << (8 * n)), total)
    return mkint(total)


def do_isinstance(interp, v, cls):
    if isinstance(cls, tuple):
        results = [do_isinstance(interp, v, c) for c in cls]
        return any(results)
    if isinstance(v, SObj):
        return issubclass(v.cls, cls)
    if isinstance(v, ExcVal):
        return issubclass(v.cls, cls)
    native = {SBytes: bytes, SStr: str, SInt: int, SBool: bool, SDict: dict,
              SSet: set}.get(type(v))
    if native:
        return issubclass(native, cls)
    if isinstance(v, Opaque):
        if v.kind == "float":
            return issubclass(float, cls)
        if v.kind in ("obj", "datetime", "uuid"):
            if cls in (int, str, bytes, list, tuple, dict, float, bool):
                return False
        return interp.ctx.app(f"isinstance:{cls.__name__}", (v,), "bool")
    return isinstance(v, cls)


def call_native(interp, fn, args, kwargs):
    ctx = interp.ctx
    from engine.interp import IterState
    name = getattr(fn, "__name__", None)
    handler = NATIVE.get(fn) if _hashable(fn) else None
    if handler:
        return handler(interp, args, kwargs)
    key = f"{getattr(fn, '__module__', '')}.{getattr(fn, '__qualname__', name)}"
    stub = interp.stubs.get(key)
    if stub:
        return stub(interp, args, kwargs)
    if fn is len:
        return interp.seq_len(args[0])
    if fn is isinstance:
        return do_isinstance(interp, args[0], args[1])
    if fn is issubclass:
        return issubclass(*args)
    if fn is range:
        if len(args) == 1:
            start, stop, step = 0, args[0], 1
        elif len(args) == 2:
            start, stop, step = args[0], args[1], 1
        else:
            start, stop, step = args
        if not (is_int(start) and is_int(stop) and is_int(step)):
            interp.throw(TypeError, "range")
        if isinstance(start, int) and isinstance(stop, int) and isinstance(step, int):
            try:
                return range(start, stop, step)
            except ValueError:
                interp.throw(ValueError)
        return SRange(start, stop, step)
    if fn in (min, max):
        values = args
        if len(args) == 1:
            it = make_iter(interp, args[0])
            if not isinstance(it, list):
                return ctx.app(name, (args[0],), "int")
            values = it
            if not values:
                if "default" in kwargs:
                    return kwargs["default"]
                interp.throw(ValueError)
        if any(not is_int(v) for v in values):
            if is_symbolic(values):
                raise Unsupported("min/max")
            return fn(values)
        r = values[0]
        for v in values[1:]:
            if isinstance(r, int) and isinstance(v, int):
                r = fn(r, v)
                continue
            a, b = zi(r), zi(v)
            c = (b < a) if fn is min else (b > a)
            if ctx.implied(c):
                r = v
            elif ctx.implied(z3.Not(c)):
                pass
            else:
                r = mkint(z3.If(c, b, a))
        return r
    if fn is abs:
        v = args[0]
        if isinstance(v, SInt):
            return mkint(z3.If(v.e < 0, -v.e, v.e))
        return abs(v)
    if fn is divmod:
        return (binop(interp, ast.FloorDiv(), args[0], args[1]),
                binop(interp, ast.Mod(), args[0], args[1]))
    if fn is pow and len(args) == 2:
        return binop(interp, ast.Pow(), args[0], args[1])
    if fn is bool:
        return interp.truth(args[0]) if args else False
    if fn is int:
        return to_int(interp, args, kwargs)
    if fn is datetime.timedelta and not args:
        return timedelta(interp, kwargs)
    if fn is float:
        if args and is_symbolic(args):
            return ctx.app("float", (args[0],), "float")
        try:
            return float(*args)
        except (ValueError, TypeError) as exception:
            interp.throw(type(exception))
    if fn is str:
        if not args:
            return ""
        if len(args) > 1:
            return bytes_method(interp, args[0], "decode", args[1:], kwargs)
        return to_str(interp, args[0])
    if fn is repr:
        return format_value(interp, args[0], "", ord("r"))
    if fn is bytes or fn is bytearray:
        return to_bytes(interp, args)
    if fn is list or fn is tuple:
        if not args:
            return fn()
        v = args[0]
        if isinstance(v, GenList):
            v = v.items
        if isinstance(v, (list, tuple)):
            return fn(v)
        it = make_iter(interp, v)
        if isinstance(it, list):
            return fn(it)
        return fn([Splice(core.fresh_name("lst"), I(0), zi(it.n),
                          lambda e: it.get(mkint(e)))])
    if fn in (dict, collections.OrderedDict):
        d = SDict()
        if args:
            src = args[0]
            if isinstance(src, (dict, SDict)):
                items = dict_items(interp, src)
            else:
                items = make_iter(interp, src)
                if not isinstance(items, list):
                    raise Unsupported("dict of opaque sequence")
            for k, v in items:
                setitem(interp, d, k, v)
        for k, v in kwargs.items():
            setitem(interp, d, k, v)
        return d
    if fn in (set, frozenset):
        if not args:
            return SSet([])
        it = make_iter(interp, args[0])
        if not isinstance(it, list):
            raise Unsupported("set of opaque sequence")
        return make_set(interp, it)
    if fn is enumerate:
        start = args[1] if len(args) > 1 else kwargs.get("start", 0)
        it = make_iter(interp, args[0])
        if isinstance(it, list):
            return [(mkint(zi(start) + k), v) for k, v in enumerate(it)]
        return IterState(it.n, lambda i: (mkint(zi(start) + zi(i)), it.get(i)))
    if fn is zip:
        its = [make_iter(interp, a) for a in args]
        if all(isinstance(i, list) for i in its):
            return [tuple(x) for x in zip(*its)]
        if len({str(i.n) for i in its if not isinstance(i, list)}) == 1 and all(
                not isinstance(i, list) for i in its):
            return IterState(its[0].n, lambda k: tuple(i.get(k) for i in its))
        raise Unsupported("zip of opaque sequences")
    if fn is reversed:
        it = make_iter(interp, args[0])
        if isinstance(it, list):
            return list(reversed(it))
        return IterState(it.n, lambda i: it.get(mkint(zi(it.n) - 1 - zi(i))))
    if fn is sorted:
        it = make_iter(interp, args[0])
        if isinstance(it, list) and not is_symbolic(it) and not kwargs:
            return sorted(it)
        if isinstance(it, list) and len(it) <= 1:
            return it
        return list(ctx.app("sorted", (args[0] if isinstance(
            args[0], (list, tuple)) else tuple(it),), "list"))
    if fn is sum:
        it = make_iter(interp, args[0])
        if isinstance(it, list):
            total = args[1] if len(args) > 1 else 0
            for v in it:
                total = binop(interp, ast.Add(), total, v)
            return total
        return ctx.app("sum", (args[0].items if isinstance(
            args[0], GenList) else args[0],), "int")
    if fn in (any, all):
        it = make_iter(interp, args[0])
        if isinstance(it, list):
            ts = [interp.truth(v) for v in it]
            if fn is any:
                return mkbool(z3.Or(*[zb(t) for t in ts])) if ts else False
            return mkbool(z3.And(*[zb(t) for t in ts])) if ts else True
        return ctx.app(name, (args[0].items if isinstance(
            args[0], GenList) else args[0],), "bool")
    if fn is iter:
        it = make_iter(interp, args[0])
        if isinstance(it, list):
            return GenList(list(it))
        return it
    if fn is next:
        g = args[0]
        if isinstance(g, GenList) and g.pos < len(g.items) and not any(
                isinstance(x, Splice) for x in g.items[:g.pos + 1]):
            ctx.events += 1
            g.pos += 1
            return g.items[g.pos - 1]
        if isinstance(g, GenList) and g.pos >= len(g.items):
            if len(args) > 1:
                return args[1]
            interp.throw(StopIteration)
        raise Unsupported("next")
    if fn is map:
        it = make_iter(interp, args[1])
        if len(args) == 2 and isinstance(it, list):
            return GenList([interp.call(args[0], [v], {}) for v in it])
        raise Unsupported("map")
    if fn is filter:
        it = make_iter(interp, args[1])
        if isinstance(it, list):
            return GenList([v for v in it if interp.test(
                interp.call(args[0], [v], {}) if args[0] is not None else v)])
        raise Unsupported("filter")
    if fn is ord:
        v = args[0]
        chars = core._fixed_chars(v) if isinstance(v, (str, SStr)) else None
        if chars is not None:
            if len(chars) != 1:
                interp.throw(TypeError)
            return mkint(chars[0])
        if isinstance(v, (bytes, SBytes)):
            return getitem(interp, v, 0)
        if isinstance(v, SStr):
            if not ctx.decide(mkbool(zi(str_len(ctx, v)) == 1)):
                interp.throw(TypeError)
            return ctx.app("char_at", (v, 0), "int", lo=0, hi=0x10FFFF)
        interp.throw(TypeError)
    if fn is chr:
        v = args[0]
        if isinstance(v, int):
            try:
                return chr(v)
            except (ValueError, OverflowError):
                interp.throw(ValueError)
        if not ctx.decide(mkbool(z3.And(zi(v) >= 0, zi(v) <= 0x10FFFF))):
            interp.throw(ValueError)
        return SStr([Atom("chr", v)])
    if fn in (hex, oct, bin) and isinstance(args[0], SInt):
        return SStr([{hex: "0x", oct: "0o", bin: "0b"}[fn], Atom(
            "fmt", {hex: "x", oct: "o", bin: "b"}[fn], args[0])])
    if fn is getattr:
        default = args[2] if len(args) > 2 else MISSING
        name = chosen_text(interp, args[1])
        if not isinstance(name, str):
            raise Unsupported("symbolic attribute name")
        return interp.getattr(args[0], name, default)
    if fn is setattr:
        if not isinstance(args[1], str):
            raise Unsupported("symbolic attribute name")
        interp.setattr(args[0], args[1], args[2])
        return None
    if fn is hasattr:
        return interp.getattr(args[0], args[1], MISSING2) is not MISSING2
    if fn is callable:
        return isinstance(args[0], (BoundMethod, Closure, NativeMethod,
                                    types.FunctionType, type))
    if fn is type and len(args) == 1:
        v = args[0]
        if isinstance(v, SObj):
            return v.cls
        return {SBytes: bytes, SStr: str, SInt: int, SBool: bool,
                SDict: dict}.get(type(v), type(v))
    if fn is id:
        return id(args[0])
    if fn is print:
        ctx.events += 1
        interp.coord.stdout(interp).append((tuple(args), tuple(sorted(
            kwargs.items()))))
        return None
    if fn is format:
        return format_value(interp, args[0], args[1] if len(args) > 1 else "")
    if fn is object:
        return SObj(object)
    if fn is slice:
        return slice(*args)
    if getattr(fn, "__self__", None) is int and name == "from_bytes":
        order = args[1] if len(args) > 1 else kwargs.get("byteorder", "big")
        return int_from_bytes(interp, args[0], order, kwargs.get("signed", False))
    if getattr(fn, "__self__", None) is bytes and name == "fromhex":
        if isinstance(args[0], str):
            return bytes.fromhex(args[0])
    if fn is struct.unpack or fn is struct.unpack_from:
        return struct_unpack(interp, fn, args)
    if isinstance(getattr(fn, "__self__", None), struct.Struct):
        return struct_unpack(interp, struct.unpack, [fn.__self__.format] + list(args))
    if isinstance(fn, type(str.maketrans)) and not is_symbolic(args) and not \
            is_symbolic(list(kwargs.values())):
        if getattr(fn, "__module__", None) in PURE_MODULES or isinstance(
                getattr(fn, "__self__", None), (str, bytes, type, dict)):
            try:
                return fn(*args, **kwargs)
            except Exception as exception:  # pylint: disable=broad-except
                interp.throw(type(exception), str(exception))
    if not is_symbolic(args) and not is_symbolic(list(kwargs.values())) and key in \
            PURE_FUNCTIONS:
        try:
            return fn(*args, **kwargs)
        except Exception as exception:  # pylint: disable=broad-except
            interp.throw(type(exception), str(exception))
    if fn is super:
        return SuperProxy(args[0], args[1])
    if key.startswith("dfdatetime."):
        if isinstance(fn, type):
            return ctx.app("new:" + fn.__name__, tuple(args) + tuple(
                v for _, v in sorted(kwargs.items())), "datetime")
    raise Unsupported(f"call of {key}")


MISSING2 = object()
PURE_MODULES = {None, "math", "builtins"}
PURE_FUNCTIONS = {"datetime.datetime", "posixpath.join", "posixpath.basename", "posixpath.dirname",
                  "posixpath.splitext"}
NATIVE = {}
GLOBAL_STUBS = {}


def _hashable(fn):
    try:
        hash(fn)
        return True
    except TypeError:
        return False


def datetime_method(interp, obj, name, args, kwargs):
    """dfdatetime objects: pure functions of the constructor arguments."""
    ctx = interp.ctx
    if name in ("CopyToDateTimeString", "CopyToDateTimeStringISO8601"):
        if ctx.decide(ctx.app("datetime_valid", (obj,), "bool")):
            r = ctx.app("datetime." + name, (obj,), "str")
            return r
        return None
    return ctx.app("datetime." + name, (obj,) + tuple(args), "obj")


OPAQUE_METHODS["datetime"] = datetime_method


def to_int(interp, args, kwargs):
    ctx = interp.ctx
    if not args:
        return 0
    v = args[0]
    base = args[1] if len(args) > 1 else kwargs.get("base", MISSING)
    if is_int(v) and base is MISSING:
        return int(v) if isinstance(v, int) else mkint(zi(v))
    if not is_symbolic(v) and not is_symbolic(base):
        try:
            return int(v) if base is MISSING else int(v, base)
        except (ValueError, TypeError, OverflowError) as exception:
            interp.throw(type(exception))
    if isinstance(v, Opaque) and v.kind == "float":
        if not ctx.decide(ctx.app("float_finite", (v,), "bool")):
            if ctx.decide(ctx.app("float_nan", (v,), "bool")):
                interp.throw(ValueError)
            interp.throw(OverflowError)
        return ctx.app("int_of_float", (v,), "int")
    if isinstance(v, (SStr, SBytes)):
        b = 10 if base is MISSING else base
        if not ctx.decide(ctx.app(f"int_ok:{b}", (v,), "bool")):
            interp.throw(ValueError)
        return ctx.app(f"int:{b}", (v,), "int")
    if v is None:
        interp.throw(TypeError)
    raise Unsupported("int()")


def to_bytes(interp, args):
    ctx = interp.ctx
    if not args:
        return b""
    v = args[0]
    if isinstance(v, (bytes, bytearray, SBytes)):
        return bytes(v) if not isinstance(v, SBytes) else v
    if len(args) > 1 and isinstance(v, (str, SStr)):
        return str_method(interp, v, "encode", args[1:], {})
    if isinstance(v, int):
        return bytes(v)
    if isinstance(v, SInt):
        r = ctx.app("zero_bytes", (v,), "bytes")
        ctx_fact(ctx, bytes_len(r) == v.e)
        return r
    if isinstance(v, core.ByteTuple):
        return v.whole
    if isinstance(v, list) and len(v) == 1 and isinstance(v[0], Splice) and hasattr(
            v[0].elem, "whole"):
        return core.take(ctx, v[0].elem.whole, z3.simplify(I(0) + v[0].start), v[0].ln)
    it = make_iter(interp, v)
    if isinstance(it, list):
        if all(isinstance(x, int) for x in it):
            try:
                return bytes(it)
            except ValueError:
                interp.throw(ValueError)
        conds = [z3.And(zi(x) >= 0, zi(x) <= 255) for x in it]
        if not ctx.decide(mkbool(z3.And(*conds))):
            interp.throw(ValueError)
        src = core.ByteSrc(core.fresh_name("bytes"))
        for k, x in enumerate(it):
            ctx_fact(ctx, src.f(I(k)) == zi(x))
        return SBytes([Seg(src=src, off=I(0), ln=I(len(it)))])
    return ctx.app("bytes_of", (v.items if isinstance(v, GenList) else v,), "bytes")


_STRUCT = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False),
           "i": (4, True), "I": (4, False), "l": (4, True), "L": (4, False),
           "q": (8, True), "Q": (8, False)}


def struct_unpack(interp, fn, args):
    ctx = interp.ctx
    fmt, data = args[0], args[1]
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = "little"
    spec = fmt
    if spec[0] in "<>=!@":
        order = "big" if spec[0] in ">!" else "little"
        spec = spec[1:]
    elif len(spec) > 1:
        raise Unsupported("native struct format")
    fields = []
    for count, code in re.findall(r"(\d*)([a-zA-Z?])", spec):
        if code == "s":
            fields.append(("s", int(count or 1)))
        elif code == "x":
            fields.append(("x", int(count or 1)))
        elif code in _STRUCT:
            fields.extend([(code, _STRUCT[code][0])] * int(count or 1))
        elif code in "fd":
            fields.append((code, 4 if code == "f" else 8))
        else:
            raise Unsupported("struct format")
    total = sum(size for _, size in fields)
    offset = args[2] if len(args) > 2 else 0
    n = bytes_len(data)
    ne = n if z3.is_expr(n) else I(n)
    if fn is struct.unpack:
        if not ctx.decide(mkbool(ne == total)):
            interp.throw(struct.error)
    else:
        if not ctx.decide(mkbool(ne >= zi(offset) + total)):
            interp.throw(struct.error)
    out = []
    pos = simp(zi(offset))
    for code, size in fields:
        if code == "s":
            out.append(core.take(ctx, data, pos, I(size)))
        elif code in "fd":
            out.append(ctx.app(f"float:{order}:{size}", (core.take(
                ctx, data, pos, I(size)),), "float"))
        elif code != "x":
            exprs = [bytes_at(ctx, data, pos + k) for k in range(size)]
            out.append(compose_int(exprs, order, _STRUCT[code][1]))
        pos = simp(pos + size)
    return tuple(out)


def _no_effect(interp, args, kwargs):
    return None


import logging as _logging  # noqa: E402

for _name in ("debug", "info", "warning", "error", "critical", "exception"):
    NATIVE[getattr(_logging, _name)] = _no_effect

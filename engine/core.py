"""Symbolic values, path context and prover of the deductive engine.

Integers are mathematical (Python ints are unbounded, so this is exact).  Byte
strings are ropes of slices over byte sources (uninterpreted Int -> Int
functions constrained to 0..255), strings are ropes of constants, formatted
integers and uninterpreted applications, containers are real Python lists (with
Splice elements for segments of unknown length) and SDict objects.
"""

import re
import time
import z3

z3.set_param("model.completion", True)

I = z3.IntVal


class Unsupported(Exception):
    """The construct is outside the verified subset."""


class PathEnd(Exception):
    """The current path is finished (cut, infeasible or killed)."""


class Restart(Exception):
    """A loop table changed: the contract is verified again from the start."""


class PyRaise(Exception):
    """An exception raised by the interpreted program."""

    def __init__(self, value):
        super().__init__(str(value))
        self.value = value


class ExcVal:
    """An exception instance of the interpreted program."""

    def __init__(self, cls, args=()):
        self.cls = cls
        self.args = args
        self.fields = {}

    def __repr__(self):
        return f"{self.cls.__name__}{self.args!r}"


class SInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SInt({self.e})"


class SBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SBool({self.e})"


class Undefined:
    """Value of a location that is not known at a cut point."""

    def __init__(self, why):
        self.why = why


_counter = [0]


def fresh_name(prefix):
    _counter[0] += 1
    return f"{prefix}!{_counter[0]}"


class ByteSrc:
    """Source of bytes: an uninterpreted function Int -> Int within 0..255."""

    def __init__(self, name):
        self.name = name
        self.f = z3.Function(name, z3.IntSort(), z3.IntSort())

    def __repr__(self):
        return self.name


class Seg:
    """A slice [off, off + ln) of a byte source, or constant bytes."""

    __slots__ = ("src", "off", "ln", "const")

    def __init__(self, src=None, off=None, ln=None, const=None):
        self.src = src
        self.off = off
        self.ln = ln
        self.const = const

    def __repr__(self):
        if self.const is not None:
            return repr(self.const)
        return f"{self.src}[{self.off}:+{self.ln}]"


class SBytes:
    """Byte string as a rope of segments (immutable)."""

    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = segs

    def length(self):
        """Length as int or z3 expression."""
        total = 0
        for seg in self.segs:
            total = total + (len(seg.const) if seg.const is not None else seg.ln)
        return total

    def __repr__(self):
        return f"SBytes({self.segs})"


class Atom:
    """A piece of a string: kind 'fmt', 'chr' or 'op' with arguments."""

    __slots__ = ("kind", "args")

    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args

    def __repr__(self):
        return f"<{self.kind} {self.args}>"


class SStr:
    """String as a rope of str constants and atoms (immutable)."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        merged = []
        for part in parts:
            if isinstance(part, str):
                if not part:
                    continue
                if merged and isinstance(merged[-1], str):
                    merged[-1] = merged[-1] + part
                    continue
            merged.append(part)
        self.parts = merged

    def __repr__(self):
        return f"SStr({self.parts})"


class Opaque:
    """A value known only as an uninterpreted application or a fresh symbol.

    kind names the type of the value: 'obj', 'float', 'set', ...
    """

    __slots__ = ("fname", "args", "kind", "uid", "attrs", "length")

    def __init__(self, fname, args=(), kind="obj"):
        self.fname = fname
        self.args = args
        self.kind = kind
        self.uid = fresh_name("o")
        self.attrs = {}
        self.length = None

    def __repr__(self):
        return f"Opaque({self.fname}:{self.kind}{self.args!r})"


class Splice:
    """A segment of a list with unknown length: elements of an opaque list."""

    __slots__ = ("sym", "start", "ln", "elem")

    def __init__(self, sym, start, ln, elem):
        self.sym = sym        # identity (str)
        self.start = start    # int or z3
        self.ln = ln          # z3
        self.elem = elem      # function(z3 index) -> value

    def __repr__(self):
        return f"*{self.sym}[{self.start}:+{self.ln}]"


class ByteTuple(tuple):
    """The values of bytes; whole is the bytes."""


class SDict:
    """Dictionary of the interpreted program; base is an opaque map or None."""

    def __init__(self, entries=None, base=None):
        self.entries = entries or []      # list of [key, value]
        self.base = base                  # Opaque or None

    def __repr__(self):
        return f"SDict({self.base},{self.entries})"


class SObj:
    """Instance of a class of the interpreted program."""

    def __init__(self, cls, fields=None):
        self.cls = cls
        self.fields = fields if fields is not None else {}

    def __repr__(self):
        return f"<{self.cls.__name__} object>"


class BoundMethod:
    __slots__ = ("obj", "fn")

    def __init__(self, obj, fn):
        self.obj = obj
        self.fn = fn


class NativeMethod:
    """Bound method of a modelled value (bytes, str, list, file, ...)."""

    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class Closure:
    """A function or lambda defined in interpreted code."""

    def __init__(self, node, frame, defaults, kw_defaults):
        self.node = node
        self.frame = frame
        self.defaults = defaults
        self.kw_defaults = kw_defaults


class SRange:
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


BAND = z3.Function("band", z3.IntSort(), z3.IntSort(), z3.IntSort())
BXOR = z3.Function("bxor", z3.IntSort(), z3.IntSort(), z3.IntSort())
BOR = z3.Function("bor", z3.IntSort(), z3.IntSort(), z3.IntSort())
POW2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())


def zi(v):
    """z3 Int of an integer value."""
    if isinstance(v, bool):
        return I(int(v))
    if isinstance(v, int):
        return I(v)
    if isinstance(v, SInt):
        return v.e
    if isinstance(v, SBool):
        return z3.If(v.e, I(1), I(0))
    if z3.is_expr(v):
        return v
    raise Unsupported(f"not an integer: {v!r}")


def zb(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, SBool):
        return v.e
    if z3.is_expr(v):
        return v
    raise Unsupported(f"not a boolean: {v!r}")


def lit(e):
    """Python int of a z3 numeral, or None."""
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    return None


def simp(e):
    return z3.simplify(e, som=False)


def mkint(e):
    """int or SInt of a z3 Int expression or int."""
    if isinstance(e, (int, SInt)):
        return e
    e = simp(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def mkbool(e):
    if isinstance(e, (bool, SBool)):
        return e
    e = simp(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def is_int(v):
    return isinstance(v, (int, SInt, SBool))


def is_symbolic(v, depth=0):
    """True if the value contains symbolic parts."""
    if isinstance(v, (SInt, SBool, SBytes, SStr, Opaque, Splice, SObj, SDict, SRange,
                      BoundMethod, Closure, NativeMethod, ExcVal, Undefined)):
        return True
    if isinstance(v, (list, tuple, set, frozenset)) and depth < 6:
        return any(is_symbolic(x, depth + 1) for x in v)
    if isinstance(v, dict) and depth < 6:
        return any(is_symbolic(x, depth + 1) for x in v.values())
    return False


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.by_backend = {}


class Ctx:
    """Context of one path: constraints, decisions and memo tables."""

    QUERY_TIMEOUT = 4000

    def __init__(self, explorer, prefix):
        self.explorer = explorer
        self.stats = explorer.stats
        self.prefix = prefix
        self.pos = 0
        self.taken = []           # list of (choice, alternatives)
        self.solver = z3.Solver()
        self.solver.set("timeout", self.QUERY_TIMEOUT)
        self.constraints = []
        self.apps = {}            # fname -> list of (args, result)
        self.byte_terms = set()
        self.no_fork = 0
        self.optional = None   # text written by a speculated statement
        self.memo_true = {}
        self.trace = []
        self.effects = 0
        self.stamp = 0
        self.cut_stack = []
        self.fact_funcs = []      # callbacks adding facts about byte terms

    # -- assumptions and queries -------------------------------------------

    def assume(self, e):
        if isinstance(e, bool):
            if not e:
                raise PathEnd("assumed false")
            return
        if isinstance(e, SBool):
            e = e.e
        self.constraints.append(e)
        self.solver.add(e)
        self.memo_true = {}

    def check(self, *extra, timeout=None):
        t0 = time.time()
        self.stats.queries += 1
        if timeout:
            self.solver.set("timeout", timeout)
        try:
            r = self.solver.check(*extra)
        finally:
            if timeout:
                self.solver.set("timeout", self.QUERY_TIMEOUT)
        self.stats.solver_s += time.time() - t0
        return r

    def implied(self, e, timeout=1500):
        """True if the path condition implies e (False also if unknown)."""
        if isinstance(e, bool):
            return e
        if isinstance(e, SBool):
            e = e.e
        e = simp(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = e.get_id()
        hit = self.memo_true.get(key)
        if hit is not None and hit[0].eq(e):
            return hit[1]
        r = self.check(z3.Not(e), timeout=timeout) == z3.unsat
        self.memo_true[key] = (e, r)
        return r

    def constant(self, v):
        """The value of an integer the path condition fixes, else None."""
        if isinstance(v, int):
            return v
        e = zi(v)
        if self.check(timeout=1500) != z3.sat:
            return None
        k = self.solver.model().eval(e, model_completion=True)
        if not z3.is_int_value(k):
            return None
        return k.as_long() if self.implied(e == k) else None

    def decide(self, cond, label=""):
        """Branches on a condition; returns the Python bool of this path."""
        if isinstance(cond, bool):
            return cond
        e = cond.e if isinstance(cond, SBool) else cond
        e = simp(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.no_fork:
            if self.implied(e):
                return True
            if self.implied(z3.Not(e)):
                return False
            raise NeedFork()
        if self.pos < len(self.prefix):
            choice, alts = self.prefix[self.pos]
            self.pos += 1
            self.taken.append((choice, alts))
            self.assume(e if choice else z3.Not(e))
            return bool(choice)
        r_true = self.check(e)
        r_false = self.check(z3.Not(e))
        if r_true == z3.unsat and r_false == z3.unsat:
            raise PathEnd("infeasible")
        if r_true == z3.unsat:
            choice, alts = 0, []
        elif r_false == z3.unsat:
            choice, alts = 1, []
        else:
            choice, alts = 1, [0]
        self.pos += 1
        self.taken.append((choice, alts))
        self.assume(e if choice else z3.Not(e))
        return bool(choice)

    def choose(self, n, label=""):
        """Nondeterministic choice of 0..n-1 explored exhaustively."""
        if n == 1:
            return 0
        if self.no_fork:
            raise NeedFork()
        if self.pos < len(self.prefix):
            choice, alts = self.prefix[self.pos]
            self.pos += 1
            self.taken.append((choice, alts))
            return choice
        self.pos += 1
        self.taken.append((0, list(range(1, n))))
        return 0

    # -- fresh values --------------------------------------------------------

    def fresh_int(self, prefix="i", lo=None, hi=None):
        v = z3.Int(fresh_name(prefix))
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return SInt(v)

    def fresh_bool(self, prefix="b"):
        return SBool(z3.Bool(fresh_name(prefix)))

    def fresh_bytes(self, prefix="d", ln=None):
        src = ByteSrc(fresh_name(prefix))
        if ln is None:
            ln = z3.Int(fresh_name(prefix + "_len"))
            self.assume(ln >= 0)
        return SBytes([Seg(src=src, off=I(0), ln=ln)])

    def fresh_str(self, prefix="s"):
        return SStr([Atom("op", Opaque(fresh_name(prefix), (), "str"))])

    def fresh_list(self, prefix="l", elem=None, ln=None):
        sym = fresh_name(prefix)
        if ln is None:
            ln = z3.Int(sym + "_len")
            self.assume(ln >= 0)
        if elem is None:
            def elem(i, sym=sym):
                return self.app("elem:" + sym, (mkint(i),), "obj")
        return [Splice(sym, I(0), ln, elem)]

    def byte(self, src, idx):
        """Byte of a source at an index, with its range asserted."""
        idx = simp(idx) if z3.is_expr(idx) else I(idx)
        t = src.f(idx)
        key = t.get_id()
        if key not in self.byte_terms:
            self.byte_terms.add(key)
            c = z3.And(t >= 0, t <= 255)
            self.constraints.append(c)
            self.constraints.append(t == t)  # keeps the term (and id) alive
            self.solver.add(c)
        return t

    # -- uninterpreted applications with semantic congruence -----------------

    @property
    def events(self):
        """Number of effects, counted before they happen."""
        return self.effects

    @events.setter
    def events(self, number):
        if self.optional is not None:
            raise NeedFork()
        self.effects = number

    def app(self, fname, args, kind="obj", lo=None, hi=None, make=None):
        """Result of an uninterpreted pure function; equal arguments give the
        identical result."""
        table = self.apps.setdefault(fname, [])
        for args2, result in reversed(table):
            if len(args2) == len(args) and all(
                self.same(a, b) for a, b in zip(args, args2)
            ):
                return result
        if self.no_fork:
            # results of a speculation may not be kept
            raise NeedFork()
        if make:
            result = make()
        elif kind == "int":
            result = self.fresh_int("f_" + str(fname)[:24], lo, hi)
        elif kind == "bool":
            result = self.fresh_bool("p_" + str(fname)[:24])
        elif kind == "bytes":
            result = self.fresh_bytes("d_" + str(fname)[:24])
        elif kind == "str":
            result = SStr([Atom("op", Opaque(fname, tuple(args), "str"))])
        elif kind == "list":
            result = self.fresh_list("l_" + str(fname)[:24])
        elif kind == "none":
            result = None
        else:
            result = Opaque(fname, tuple(args), kind)
        table.append((tuple(args), result))
        return result

    def same(self, a, b):
        """True if a and b are provably equal on this path."""
        return equal(self, a, b)


class NeedFork(Exception):
    """Raised when a speculative evaluation would have to branch."""


def seg_len(seg):
    return len(seg.const) if seg.const is not None else seg.ln


def bytes_at(ctx, b, idx):
    """z3 Int of byte idx of a byte string (index must be in range)."""
    if isinstance(b, (bytes, bytearray)):
        if len(b) == 0:
            return I(0)
        k = lit(idx)
        if k is not None:
            return I(b[k]) if 0 <= k < len(b) else I(0)
        e = I(b[-1])
        for k in range(len(b) - 2, -1, -1):
            e = z3.If(idx == k, I(b[k]), e)
        return e
    idx = idx if z3.is_expr(idx) else I(idx)
    idx = simp(idx)
    if len(b.segs) == 1:
        seg = b.segs[0]
        if seg.const is not None:
            return bytes_at(ctx, seg.const, idx)
        return ctx.byte(seg.src, seg.off + idx)
    pos = I(0)
    cases = []
    k = lit(idx)
    for n, seg in enumerate(b.segs):
        rel = simp(idx - pos)
        nxt = simp(pos + seg_len(seg))
        nk = lit(nxt)
        val = (bytes_at(ctx, seg.const, rel) if seg.const is not None
               else ctx.byte(seg.src, seg.off + rel))
        if k is not None and nk is not None:
            if k < nk:
                cases.append((None, val))
                break
        else:
            cases.append((idx < nxt, val))
        pos = nxt
    if not cases:
        return I(0)
    e = cases[-1][1]
    for cond, val in reversed(cases[:-1]):
        e = z3.If(cond, val, e)
    return e


def norm_bytes(b):
    """Converts constants of a rope; drops empty segments."""
    if isinstance(b, (bytes, bytearray)):
        return b
    segs = []
    for seg in b.segs:
        if seg.const is not None:
            if not seg.const:
                continue
            if segs and segs[-1].const is not None:
                segs[-1] = Seg(const=segs[-1].const + seg.const)
                continue
        else:
            if lit(seg.ln) == 0:
                continue
            if segs and segs[-1].const is None and segs[-1].src is seg.src:
                prev = segs[-1]
                d = simp(prev.off + prev.ln - seg.off)
                if lit(d) == 0:
                    segs[-1] = Seg(src=seg.src, off=prev.off, ln=simp(
                        (prev.ln if z3.is_expr(prev.ln) else I(prev.ln)) + seg.ln))
                    continue
        segs.append(seg)
    if not segs:
        return b""
    if len(segs) == 1 and segs[0].const is not None:
        return segs[0].const
    return SBytes(segs)


def bytes_len(b):
    if isinstance(b, (bytes, bytearray)):
        return len(b)
    return b.length()


def to_segs(b):
    if isinstance(b, (bytes, bytearray)):
        return [Seg(const=bytes(b))] if b else []
    return list(b.segs)


def concat_bytes(a, b):
    return norm_bytes(SBytes(to_segs(a) + to_segs(b)))


def slice_bytes(ctx, b, start, stop):
    """b[start:stop] with start and stop int/SInt/None, Python semantics."""
    n = bytes_len(b)
    if start is None:
        start = 0
    if stop is None:
        stop = mkint(n) if not isinstance(n, int) else n
    if isinstance(b, (bytes, bytearray)) and isinstance(start, int) and isinstance(
        stop, int
    ):
        return bytes(b)[start:stop]
    start_e, len_e = clamp(ctx, start, stop, n)
    return take(ctx, b, start_e, len_e)


def clamp(ctx, start, stop, n):
    """Offset and length (z3 or int) of a Python slice of a length n sequence."""
    n_e = n if z3.is_expr(n) else I(n)

    def pos(v):
        e = zi(v)
        k = lit(simp(e))
        if k is not None and k < 0:
            e = n_e + e
            if ctx.implied(e >= 0):
                return e
            return z3.If(e < 0, I(0), e)
        if (k is not None and k >= 0) or ctx.implied(e >= 0):
            if ctx.implied(e <= n_e):
                return e
            return z3.If(e > n_e, n_e, e)
        if ctx.implied(e < 0):
            e = n_e + e
            if ctx.implied(e >= 0):
                return e
            return z3.If(e < 0, I(0), e)
        neg = z3.If(n_e + e < 0, I(0), n_e + e)
        return z3.If(e < 0, neg, z3.If(e > n_e, n_e, e))

    s = simp(pos(start))
    t = simp(pos(stop))
    ln = simp(t - s)
    if not ctx.implied(ln >= 0):
        ln = simp(z3.If(ln < 0, I(0), ln))
    return s, ln


def take(ctx, b, off, ln):
    """Slice of a rope at [off, off + ln) known to be in range (z3/int)."""
    off = off if z3.is_expr(off) else I(off)
    ln = ln if z3.is_expr(ln) else I(ln)
    if lit(simp(ln)) == 0:
        return b""
    if isinstance(b, (bytes, bytearray)):
        o, l = lit(simp(off)), lit(simp(ln))
        if o is not None and l is not None:
            return bytes(b[o:o + l])
        src = const_src(ctx, bytes(b))
        return norm_bytes(SBytes([Seg(src=src, off=off, ln=ln)]))
    segs = b.segs
    if len(segs) == 1 and segs[0].const is None:
        seg = segs[0]
        return norm_bytes(SBytes([Seg(src=seg.src, off=simp(seg.off + off), ln=ln)]))
    # Walk the segments using the solver to locate the bounds.
    out = []
    pos = I(0)
    end = simp(off + ln)
    for seg in segs:
        sl = seg_len(seg)
        nxt = simp(pos + sl)
        if ctx.implied(nxt <= off) or ctx.implied(pos >= end):
            pos = nxt
            continue
        if ctx.implied(off <= pos):
            s = I(0)
        elif ctx.implied(off >= pos):
            s = simp(off - pos)
        else:
            s = None
        if ctx.implied(end >= nxt):
            e = sl if z3.is_expr(sl) else I(sl)
        elif ctx.implied(end <= nxt):
            e = simp(end - pos)
        else:
            e = None
        if s is None or e is None:
            s = s if s is not None else z3.If(off > pos, off - pos, I(0))
            sle = sl if z3.is_expr(sl) else I(sl)
            s = z3.If(s > sle, sle, s)
            e = e if e is not None else z3.If(end < nxt, z3.If(
                end > pos, end - pos, I(0)), sle)
        l = simp(e - s)
        if not ctx.implied(l >= 0):
            l = simp(z3.If(l < 0, I(0), l))
        if seg.const is not None:
            cs, cl = lit(simp(s)), lit(l)
            if cs is not None and cl is not None:
                out.append(Seg(const=seg.const[cs:cs + cl]))
            else:
                out.append(Seg(src=const_src(ctx, seg.const), off=simp(s), ln=l))
        else:
            out.append(Seg(src=seg.src, off=simp(seg.off + s), ln=l))
        pos = nxt
    return norm_bytes(SBytes(out))


def const_src(ctx, data):
    """Byte source with the contents of a constant."""
    cache = ctx.explorer.const_srcs
    src = cache.get(data)
    if src is None:
        src = cache[data] = ByteSrc(fresh_name("const"))
    if data not in ctx.apps.setdefault("const_src", []):
        ctx.apps["const_src"].append(data)
        for k, byte in enumerate(data):
            ctx.assume(src.f(I(k)) == byte)
    return src


def resolve(ctx, v):
    """An integer with the conditionals the path decides replaced."""
    if not isinstance(v, SInt):
        return v
    e = v.e
    seen = set()
    while True:
        found = None
        stack = [e]
        visited = set()
        while stack:
            n = stack.pop()
            if n.get_id() in visited:
                continue
            visited.add(n.get_id())
            if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_ITE and z3.is_int(
                    n) and n.get_id() not in seen:
                found = n
                break
            stack.extend(n.children())
        if found is None:
            return mkint(e)
        c, a, b = found.children()
        if ctx.implied(found == a):
            e = simp(z3.substitute(e, (found, a)))
        elif ctx.implied(found == b):
            e = simp(z3.substitute(e, (found, b)))
        else:
            seen.add(found.get_id())


def kind_of(v):
    if isinstance(v, bool) or isinstance(v, SBool):
        return "bool"
    if isinstance(v, (int, SInt)):
        return "int"
    if isinstance(v, (bytes, bytearray, SBytes)):
        return "bytes"
    if isinstance(v, (str, SStr)):
        return "str"
    if v is None:
        return "none"
    if isinstance(v, list):
        return "list"
    if isinstance(v, tuple):
        return "tuple"
    if isinstance(v, (dict, SDict)):
        return "dict"
    if isinstance(v, SObj):
        return "obj:" + v.cls.__name__
    if isinstance(v, Opaque):
        return "opaque:" + v.kind
    if isinstance(v, float):
        return "float"
    return "py:" + type(v).__name__


def str_parts(v):
    if isinstance(v, str):
        return [v] if v else []
    return v.parts


def atom_len(ctx, p):
    """Length of a string part as z3/int, or None."""
    if isinstance(p, str):
        return len(p)
    if p.kind == "chr":
        return 1
    if p.kind == "fmt":
        spec, val = p.args[:2]
        import re
        m = re.fullmatch(r"0(\d+)([xX])", spec or "")
        if m:
            w = int(m.group(1))
            if ctx.implied(z3.And(zi(val) >= 0, zi(val) < 16 ** w)):
                return w
    if p.kind == "rep":
        s, n = p.args
        l = len(s) * z3.If(zi(n) > 0, zi(n), I(0))
        return l
    r = ctx.app("strlen", (p,), "int", lo=0)
    return r.e if isinstance(r, SInt) else r


def str_len(ctx, v):
    total = 0
    for p in str_parts(v):
        total = total + atom_len(ctx, p)
    return mkint(total) if not isinstance(total, int) else total


def equal(ctx, a, b, depth=0):
    """Proves equality of two values under the path condition (goal position)."""
    if a is b:
        return True
    if depth > 12:
        return False
    if isinstance(a, SBool) or isinstance(b, SBool):
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return ctx.implied(zb(a) == zb(b))
        if is_int(a) and is_int(b):
            return ctx.implied(zi(a) == zi(b))
        return False
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if is_int(a) and is_int(b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        ea, eb = zi(a), zi(b)
        if ea.eq(eb):
            return True
        return ctx.implied(ea == eb)
    ka, kb = kind_of(a), kind_of(b)
    if ka == "bytes" and kb == "bytes":
        return equal_bytes(ctx, a, b)
    if ka == "str" and kb == "str":
        return equal_str(ctx, a, b, depth)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        a2, b2 = list(a), list(b)
        if len(a2) != len(b2):
            a2, b2 = _drop_empty(ctx, a2), _drop_empty(ctx, b2)
        if len(a2) != len(b2):
            return False
        return all(equal(ctx, x, y, depth + 1) for x, y in zip(a2, b2))
    if isinstance(a, Splice) and isinstance(b, Splice):
        if a.sym == b.sym and ctx.implied(a.start == b.start):
            return ctx.implied(a.ln == b.ln)
        # element-wise with a fresh index
        if a.elem is None or b.elem is None or not ctx.implied(a.ln == b.ln):
            return False
        if ctx.no_fork or depth > 3:
            return False
        ctx.solver.push()
        n = len(ctx.constraints)
        saved_apps = {k: list(v) for k, v in ctx.apps.items()}
        saved_bytes = set(ctx.byte_terms)
        saved_memo, ctx.memo_true = ctx.memo_true, {}
        try:
            i = z3.Int(fresh_name("sk"))
            ctx.constraints.append(i >= 0)
            ctx.solver.add(i >= 0, i < a.ln)
            return equal(ctx, a.elem(a.start + i), b.elem(b.start + i), depth + 1)
        except (NeedFork, Unsupported):
            return False
        finally:
            ctx.solver.pop()
            del ctx.constraints[n:]
            ctx.apps = saved_apps
            ctx.byte_terms = saved_bytes
            ctx.memo_true = saved_memo
    if isinstance(a, Atom) and isinstance(b, Atom):
        return equal_atom(ctx, a, b, depth)
    if isinstance(a, SDict) or isinstance(b, SDict):
        ea = a.entries if isinstance(a, SDict) else [list(x) for x in a.items()] if isinstance(a, dict) else None
        eb = b.entries if isinstance(b, SDict) else [list(x) for x in b.items()] if isinstance(b, dict) else None
        if ea is None or eb is None:
            return False
        ba = getattr(a, "base", None)
        bb = getattr(b, "base", None)
        if (ba is None) != (bb is None) or len(ea) != len(eb):
            return False
        if ba is not None and not equal(ctx, ba, bb, depth + 1):
            return False
        return all(
            equal(ctx, x[0], y[0], depth + 1) and equal(ctx, x[1], y[1], depth + 1)
            for x, y in zip(ea, eb)
        )
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        if a.fname == b.fname and len(a.args) == len(b.args) and a.args:
            return all(equal(ctx, x, y, depth + 1) for x, y in zip(a.args, b.args))
        return False
    if isinstance(a, SObj) and isinstance(b, SObj):
        if b.cls.__name__ == "Rec" and a.cls.__name__ != "Rec":
            return all(k in a.fields and equal(ctx, a.fields[k], v, depth + 1)
                       for k, v in b.fields.items())
        if a.cls.__name__ == "Rec" and b.cls.__name__ != "Rec":
            return equal(ctx, b, a, depth)
        if a.cls is not b.cls:
            return False
        if set(a.fields) != set(b.fields):
            return False
        return all(equal(ctx, a.fields[k], b.fields[k], depth + 1) for k in a.fields)
    if isinstance(a, ExcVal) and isinstance(b, ExcVal):
        return a.cls is b.cls
    if is_symbolic(a) or is_symbolic(b):
        return False
    try:
        return type(a) is type(b) and a == b
    except Exception:  # pylint: disable=broad-except
        return False


def _drop_empty(ctx, items):
    return [x for x in items
            if not (isinstance(x, Splice) and ctx.implied(x.ln == 0))]


def equal_atom(ctx, a, b, depth):
    if a.kind != b.kind or len(a.args) != len(b.args):
        return False
    return all(equal(ctx, x, y, depth + 1) for x, y in zip(a.args, b.args))


def equal_str(ctx, a, b, depth):
    if equal_str_(ctx, a, b, depth):
        return True
    if isinstance(a, str) and isinstance(b, str):
        return False
    ga, gb = ground_str(ctx, a), ground_str(ctx, b)
    if ga is a and gb is b:
        return False
    return equal_str_(ctx, ga, gb, depth)


def ground_str(ctx, v):
    """Replaces atoms of integers the path condition fixes by their text."""
    if isinstance(v, str):
        return v
    parts, hit = [], False
    for p in str_parts(v):
        if isinstance(p, Atom) and p.kind == "fmt" and is_int(p.args[1]):
            k = ctx.constant(p.args[1])
            if k is not None:
                p, hit = format(k, p.args[0]), True
        elif isinstance(p, Atom) and p.kind == "tab" and is_int(p.args[2]):
            k = ctx.constant(p.args[2])
            if k is not None:
                text = dict(p.args[0]).get(k, p.args[1])
                if isinstance(text, str):
                    p, hit = text, True
            elif isinstance(p.args[1], str) and all(
                    ctx.implied(zi(p.args[2]) != k) for k, _ in p.args[0]):
                p, hit = p.args[1], True
        parts.append(p)
    if not hit:
        return v
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    return SStr(parts)


def equal_str_(ctx, a, b, depth):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    pa, pb = list(str_parts(a)), list(str_parts(b))
    i = j = 0
    while i < len(pa) and j < len(pb):
        x, y = pa[i], pb[j]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            if len(x) > n:
                pa[i] = x[n:]
            else:
                i += 1
            if len(y) > n:
                pb[j] = y[n:]
            else:
                j += 1
            continue
        if isinstance(x, Atom) and isinstance(y, Atom) and equal_atom(
                ctx, x, y, depth):
            i += 1
            j += 1
            continue
        # constant character against chr atom
        if isinstance(x, str) and isinstance(y, Atom) and y.kind == "chr":
            if not ctx.implied(zi(y.args[0]) == ord(x[0])):
                return False
            pa[i] = x[1:]
            if not pa[i]:
                i += 1
            j += 1
            continue
        if isinstance(y, str) and isinstance(x, Atom) and x.kind == "chr":
            if not ctx.implied(zi(x.args[0]) == ord(y[0])):
                return False
            pb[j] = y[1:]
            if not pb[j]:
                j += 1
            i += 1
            continue
        if isinstance(x, Atom) and x.kind == "rep" and ctx.implied(zi(x.args[1]) <= 0):
            i += 1
            continue
        if isinstance(y, Atom) and y.kind == "rep" and ctx.implied(zi(y.args[1]) <= 0):
            j += 1
            continue
        return False

    def rest_empty(rest):
        return all(
            isinstance(p, Atom) and lit(atom_len(ctx, p)) != 1
            and ctx.implied((lambda l: l == 0)(atom_len(ctx, p)))
            for p in rest)

    return rest_empty(pa[i:]) and rest_empty(pb[j:])


def equal_bytes(ctx, a, b):
    a, b = norm_bytes(a), norm_bytes(b)
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        return bytes(a) == bytes(b)
    la, lb = bytes_len(a), bytes_len(b)
    if not ctx.implied((la if z3.is_expr(la) else I(la)) == lb):
        return False
    sa, sb = to_segs(a), to_segs(b)
    if len(sa) == len(sb) and all(
        x.const == y.const if x.const is not None else (
            y.const is None and x.src is y.src)
        for x, y in zip(sa, sb)
    ):
        ok = True
        for x, y in zip(sa, sb):
            if x.const is None:
                lx = x.ln if z3.is_expr(x.ln) else I(x.ln)
                if not (ctx.implied(lx == y.ln)
                        and ctx.implied(z3.Or(lx == 0, x.off == y.off))):
                    ok = False
                    break
        if ok:
            return True
    # Skolem index: prove the bytes equal at an arbitrary position.
    ctx.solver.push()
    n = len(ctx.constraints)
    saved_bytes = set(ctx.byte_terms)
    saved_memo, ctx.memo_true = ctx.memo_true, {}
    try:
        i = z3.Int(fresh_name("sk"))
        ctx.solver.add(i >= 0, i < la)
        ea = bytes_at(ctx, a, i)
        eb = bytes_at(ctx, b, i)
        return ctx.check(z3.Not(ea == eb)) == z3.unsat
    finally:
        ctx.solver.pop()
        del ctx.constraints[n:]
        ctx.byte_terms = saved_bytes
        ctx.memo_true = saved_memo


def eq_app(ctx, fname, a, b):
    """Equality without a formula, which is the same for both orders of a and b."""
    for args, result in reversed(ctx.apps.get(fname, [])):
        if ctx.same(args[0], b) and ctx.same(args[1], a):
            return result
    return ctx.app(fname, (a, b), "bool")


def eq_formula(ctx, a, b):
    """Equality of two values as bool/SBool, usable in a path condition.

    Equalities without a quantifier-free form become uninterpreted booleans.
    """
    if a is b and not isinstance(a, Undefined):
        return True
    ka, kb = kind_of(a), kind_of(b)
    if ka in ("int", "bool", ) and kb in ("int", "bool"):
        if ka == "bool" and kb == "bool":
            return mkbool(zb(a) == zb(b))
        return mkbool(zi(a) == zi(b))
    if ka == "float" or kb == "float" or "float" in ka or "float" in kb:
        if not is_symbolic(a) and not is_symbolic(b):
            return a == b
        return eq_app(ctx, "eq", a, b)
    if ka == "bytes" and kb == "bytes":
        a, b = norm_bytes(a), norm_bytes(b)
        if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
            return bytes(a) == bytes(b)
        if isinstance(a, (bytes, bytearray)):
            a, b = b, a
        la = bytes_len(a)
        n = None
        if isinstance(b, (bytes, bytearray)):
            n = len(b)
        else:
            n = lit(simp(bytes_len(b))) if z3.is_expr(bytes_len(b)) else bytes_len(b)
            if n is None:
                n = lit(simp(la)) if z3.is_expr(la) else la
        if n is not None and n <= 64:
            lb = bytes_len(b)
            conj = [(la if z3.is_expr(la) else I(la)) == n,
                    (lb if z3.is_expr(lb) else I(lb)) == n]
            for k in range(n):
                conj.append(bytes_at(ctx, a, I(k)) == bytes_at(ctx, b, I(k)))
            return mkbool(z3.And(*conj))
        if equal_bytes(ctx, a, b):
            return True
        return eq_app(ctx, "eq_bytes", a, b)
    if ka == "str" and kb == "str":
        return eq_str_formula(ctx, a, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if (isinstance(a, Opaque) and isinstance(b, Opaque)) and equal(ctx, a, b):
            return True
        other = b if isinstance(a, Opaque) else a
        op = a if isinstance(a, Opaque) else b
        if other is None and op.kind in ("obj", "float", "uuid", "datetime"):
            return False
        return eq_app(ctx, "eq", a, b)
    if ka != kb:
        return False
    if isinstance(a, (tuple, list)):
        if any(isinstance(x, Splice) for x in list(a) + list(b)):
            if equal(ctx, a, b):
                return True
            return eq_app(ctx, "eq", a, b)
        if len(a) != len(b):
            return False
        parts = [eq_formula(ctx, x, y) for x, y in zip(a, b)]
        if any(p is False for p in parts):
            return False
        parts = [zb(p) for p in parts if p is not True]
        return mkbool(z3.And(*parts)) if parts else True
    if isinstance(a, SObj):
        return False   # identity comparison: distinct objects
    if is_symbolic(a) or is_symbolic(b):
        if equal(ctx, a, b):
            return True
        raise Unsupported(f"comparison of {ka} and {kb}")
    return a == b


def eq_str_formula(ctx, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if equal_str(ctx, a, b, 0):
        return True
    # one-sided constant against a decoded/opaque string
    chars_a = _fixed_chars(a)
    chars_b = _fixed_chars(b)
    if chars_a is not None and chars_b is not None:
        if len(chars_a) != len(chars_b):
            return False
        return mkbool(z3.And(*[x == y for x, y in zip(chars_a, chars_b)])) if chars_a else True
    if isinstance(a, str):
        a, b = b, a
    if isinstance(b, str) and b and isinstance(a, SStr):
        for p in a.parts:
            # a character the constant does not contain
            if isinstance(p, Atom) and p.kind == "op" and isinstance(
                    p.args[0], Opaque) and p.args[0].fname == "last_char" and all(
                        c in p.args[0].attrs.get("excludes", "") for c in b):
                return False
    if isinstance(b, str):
        r = _decimal_match(str_parts(a), b)
        if r is not None:
            return r
    return eq_app(ctx, "eq_str", a, b)


def _decimal_match(parts, text):
    """Equality of constants and separated decimal numbers with a constant."""
    conditions = []
    k = 0
    parts = list(parts)
    for i, p in enumerate(parts):
        if isinstance(p, str):
            if not text.startswith(p, k):
                return False
            k += len(p)
            continue
        if p.kind != "fmt" or p.args[0] != "d":
            return None
        after = parts[i + 1] if i + 1 < len(parts) else None
        if after is not None and (not isinstance(after, str) or not after
                                  or after[0].isdigit()):
            return None
        m = re.compile("-?[0-9]+").match(text, k)
        if m is None:
            return False
        value = int(m.group())
        if str(value) != m.group():
            return False
        conditions.append(zi(p.args[1]) == value)
        k = m.end()
    if k != len(text):
        return False
    return mkbool(z3.And(*conditions)) if conditions else True


def _fixed_chars(v):
    """List of z3 code points when all parts are constants or chr atoms."""
    out = []
    for p in str_parts(v):
        if isinstance(p, str):
            out.extend(I(ord(c)) for c in p)
        elif p.kind == "chr":
            out.append(zi(p.args[0]))
        else:
            return None
    return out

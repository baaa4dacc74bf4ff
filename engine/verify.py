"""Verification of contracts: path exploration, lockstep cuts, invariants.

A contract is a pair of drivers: `code` calls the real functions of /repo and
`spec` computes the specified outcome.  Both are executed symbolically on the
same arbitrary inputs.  Loops without a concrete bound are cut: the loop of the
code is paired with the loop of the specification, a relational invariant is
inferred (candidate equalities and linear facts, pruned until inductive) and the
loop body is verified once for an arbitrary iteration.
"""

import ast
import re
import sys
import threading
import time
import traceback

import z3

from engine import core, dtf, models  # pylint: disable=unused-import
from engine.core import (
    Atom, Closure, BoundMethod, Ctx, ExcVal, I, NeedFork, Opaque, PathEnd, PyRaise, Restart,
    SBool, SBytes, SDict, Seg, SInt, SObj, Splice, SStr, Stats, Undefined,
    Unsupported, bytes_len, is_int, kind_of, lit, mkbool, mkint, simp, zb, zi)
from engine.interp import Frame, Interp, IterState, assigned_names

threading.stack_size(256 * 1024 * 1024)
sys.setrecursionlimit(20000)


# -- parameters ------------------------------------------------------------------

class Param:
    """Description of one arbitrary input of a contract."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.kw = kw

    def make(self, ctx, name):
        kw = self.kw
        if self.kind == "int":
            v = z3.Int("p_" + name)
            if kw.get("lo") is not None:
                ctx.assume(v >= kw["lo"])
            if kw.get("hi") is not None:
                ctx.assume(v <= kw["hi"])
            return SInt(v)
        if self.kind == "bool":
            return SBool(z3.Bool("p_" + name))
        if self.kind == "bytes":
            src = core.ByteSrc("p_" + name)
            if kw.get("n") is not None:
                return SBytes([Seg(src=src, off=I(0), ln=I(kw["n"]))])
            ln = z3.Int("p_" + name + "_len")
            ctx.assume(ln >= kw.get("min", 0))
            if kw.get("max") is not None:
                ctx.assume(ln <= kw["max"])
            return SBytes([Seg(src=src, off=I(0), ln=ln)])
        if self.kind == "file":
            return models.SFile(ctx, "p_" + name, faulty=kw.get("faulty", False))
        if self.kind == "str":
            return core.SStr([Atom("op", Opaque("p_" + name, (), "str"))])
        if self.kind == "intseq":
            return models.SIntSeq("p_" + name, None, kw.get("lo"), kw.get("hi"))
        if self.kind == "const":
            return kw["value"]
        if self.kind == "ints":
            n = z3.Int("p_" + name + "_len")
            ctx.assume(n >= kw.get("min", 0))
            if kw.get("max") is not None:
                ctx.assume(n <= kw["max"])
            seq = models.SIntSeq("p_" + name, None, kw.get("lo"), kw.get("hi"))
            return [Splice("p_" + name, I(0), n, lambda i: seq.at(ctx, i))]
        if self.kind == "intlist":
            return [Param("int", lo=kw.get("lo"), hi=kw.get("hi")).make(
                ctx, f"{name}_{k}") for k in range(kw["n"])]
        if self.kind == "writer":
            return models.SWriter()
        if self.kind == "float":
            return Opaque("p_" + name, (), "float")
        if self.kind == "opaque":
            return Opaque("p_" + name, (), kw.get("as_", "obj"))
        if self.kind == "choice":
            values = kw["values"]
            return values[ctx.choose(len(values))]
        if self.kind == "make":
            return kw["fn"](ctx, name)
        raise ValueError(self.kind)


def Int(lo=None, hi=None, cap=None):
    """Integer; cap bounds the values of the concrete runs only."""
    return Param("int", lo=lo, hi=hi, cap=cap)


def Bool():
    return Param("bool")


def Bytes(n=None, min=0, max=None):  # pylint: disable=redefined-builtin
    return Param("bytes", n=n, min=min, max=max)


def File(faulty=False):
    return Param("file", faulty=faulty)


def Str(samples=None):
    return Param("str", samples=samples)


def IntSeq(lo=None, hi=None):
    return Param("intseq", lo=lo, hi=hi)


def Ints(lo=None, hi=None, min=0, max=None):  # pylint: disable=redefined-builtin
    return Param("ints", lo=lo, hi=hi, min=min, max=max)


def IntList(n, lo=None, hi=None):
    return Param("intlist", n=n, lo=lo, hi=hi)


def Const(value):
    return Param("const", value=value)


def Choice(*values):
    return Param("choice", values=values)


def Writer():
    return Param("writer")


def Float():
    return Param("float")


class Contract:
    """A contract: drivers, inputs and what may be assumed at call sites."""

    def __init__(self, prop, name, code, spec, params, targets, pre=None, gen=None,
                 uses=(), stubs=None, stub_patterns=(), terminates=True,
                 assumptions=(), max_paths=4000, exceptions="class", time_limit=240,
                 share=(), bounded=None, opaque=(), trace=False):
        # trace: the text written while reading a structure is specified too
        self.trace = trace
        self.prop = prop
        self.name = name
        self.code = code
        self.spec = spec
        self.params = params
        self.targets = targets          # qualified names of functions in /repo
        self.pre = pre
        self.gen = gen
        self.uses = list(uses)          # SpecUse objects
        self.stubs = dict(stubs or {})
        self.stub_patterns = [(re.compile(p), h) for p, h in stub_patterns]
        self.terminates = terminates
        self.assumptions = list(assumptions)
        self.max_paths = max_paths
        self.time_limit = time_limit
        self.seen = set()
        self.share = share
        self.bounded = bounded
        self.use_map = {}
        for use in self.uses:
            for key in use.keys:
                self.use_map[key] = use

    def lookup_spec(self, interp, fn, key):
        use = self.use_map.get(key)
        if use is None:
            return None
        return use.handler


class Use:
    """Contract applied at call sites of a function instead of its body.

    keys are the qualified names of the implementation and of the specification
    function; both become the same handler.
    """

    def __init__(self, keys, handler, contract=None):
        self.keys = keys
        self.handler = handler
        self.contract = contract


def pure_use(keys, fname, kind, bind=None, **kw):
    """Call-site contract: a pure uninterpreted function of the arguments."""
    def handler(interp, args, kwargs):
        values = tuple(args) + tuple(v for _, v in sorted(kwargs.items()))
        if bind:
            values = bind(interp, args, kwargs)
        if callable(kind):
            return kind(interp, fname, values)
        return interp.ctx.app(fname, values, kind, **kw)
    return Use(keys, handler)


# -- locations -----------------------------------------------------------------------

class Loc:
    __slots__ = ("path", "get", "set", "side")

    def __init__(self, path, get, set_, side):
        self.path, self.get, self.set, self.side = path, get, set_, side


_LEAVES = (int, SInt, SBool, bytes, SBytes, str, SStr, float, Opaque, tuple,
           type(None), Undefined, bytearray)


def walk_locations(interp, side, roots):
    """All mutable locations reachable from the frames of one side."""
    locs = {}
    seen = set()

    def visit(value, path, get, set_, depth):
        if depth > 8:
            return
        if set_ is not None and isinstance(value, _LEAVES + (
                list, SDict, SObj, IterState, models.GenList)):
            locs[path] = Loc(path, get, set_, side)
        if isinstance(value, tuple):
            for k, x in enumerate(value):
                if not isinstance(x, _LEAVES):
                    visit(x, f"{path}({k})", None, None, depth + 1)
            return
        if isinstance(value, _LEAVES):
            return
        if id(value) in seen:
            return
        seen.add(id(value))
        if isinstance(value, list):
            locs[path + "#"] = Loc(path + "#", lambda: value, None, side)
            for k, x in enumerate(value):
                if not isinstance(x, _LEAVES) and not isinstance(x, Splice):
                    visit(x, f"{path}[{k}]", None, None, depth + 1)
        elif isinstance(value, SDict):
            locs[path + "#"] = Loc(path + "#", lambda: value, None, side)
            for k, (key, x) in enumerate(value.entries):
                if not isinstance(x, _LEAVES):
                    visit(x, f"{path}[{k}]", None, None, depth + 1)
        elif isinstance(value, SObj):
            for name in sorted(value.fields):
                visit(value.fields[name], f"{path}.{name}",
                      lambda n=name: value.fields.get(n, MISSING),
                      lambda v, n=name: value.fields.__setitem__(n, v), depth + 1)
        elif isinstance(value, models.SFile):
            locs[path + ".pos"] = Loc(
                path + ".pos", lambda: value.pos,
                lambda v: setattr(value, "pos", v), side)
            locs[path + ".closed"] = Loc(
                path + ".closed", lambda: value.closed,
                lambda v: setattr(value, "closed", v), side)
        elif isinstance(value, models.SWriter):
            locs[path + ".text"] = Loc(path + ".text", lambda: value.text,
                                       lambda v: setattr(value, "text", v), side)
        elif isinstance(value, IterState):
            locs[path + ".i"] = Loc(path + ".i", lambda: value.i,
                                    lambda v: setattr(value, "i", v), side)
        elif isinstance(value, models.GenList):
            visit(value.items, path + ".items", None, None, depth + 1)
            locs[path + ".gpos"] = Loc(path + ".gpos", lambda: value.pos,
                                       lambda v: setattr(value, "pos", v), side)
        elif isinstance(value, BoundMethod):
            visit(value.obj, path + ".__self__", None, None, depth + 1)

    for depth, frame in enumerate(roots):
        for name in sorted(frame.locals):
            visit(frame.locals[name], f"{side}{depth}.{name}",
                  lambda n=name, f=frame: f.locals.get(n, MISSING),
                  lambda v, n=name, f=frame: f.locals.__setitem__(n, v), 0)
        if frame.yields is not None:
            visit(frame.yields, f"{side}{depth}.<yield>", None, None, 0)
    visit(interp.coord.stdout(interp), f"{side}.stdout", None, None, 0)
    return locs


MISSING = object()


def snapshot(v):
    if isinstance(v, list):
        return ("list", v, tuple(v))
    if isinstance(v, SDict):
        return ("dict", v, v.base, tuple((k, x) for k, x in v.entries))
    return ("val", v)


def changed(snap, v):
    if snap[0] == "list":
        return v is not snap[1] or len(v) != len(snap[2]) or any(
            not same_leaf(a, b) for a, b in zip(v, snap[2]))
    if snap[0] == "dict":
        return v is not snap[1] or v.base is not snap[2] or len(v.entries) != len(
            snap[3]) or any(not same_leaf(k, k2) or not same_leaf(x, x2) for (
                k, x), (k2, x2) in zip(v.entries, snap[3]))
    return not same_leaf(snap[1], v)


def same_leaf(a, b):
    if a is b:
        return True
    if isinstance(a, SInt) and isinstance(b, SInt):
        return a.e.eq(b.e)
    if isinstance(a, SBool) and isinstance(b, SBool):
        return a.e.eq(b.e)
    if isinstance(a, SBytes) and isinstance(b, SBytes):
        return len(a.segs) == len(b.segs) and all(
            x.const == y.const and (x.const is not None or (
                x.src is y.src and z3.is_expr(x.off) and z3.is_expr(y.off)
                and x.off.eq(y.off) and str(x.ln) == str(y.ln)))
            for x, y in zip(a.segs, b.segs))
    if type(a) is type(b) and isinstance(a, (int, str, bytes, bool, float)):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_leaf(x, y) for x, y in zip(a, b))
    return False


class LoopTable:
    """What has been learned about one loop (pair); survives restarts."""

    def __init__(self, key):
        self.key = key
        self.mods = {"c": set(), "s": set()}
        self.found = set()     # names of locations found to be changed
        self.kinds = {}
        self.dropped = set()
        self.steps = {}        # path -> set of constant deltas learned
        self.elem = {}
        self.rebound = set()
        self.objects = {}      # path -> class of the objects it refers to
        self.visits = 0
        self.measures_dropped = set()
        self.suffix_dropped = set()
        self.windows = {}      # path -> (source name, offset term)
        self.moving = {}       # path -> source name
        self.widths = {}       # path -> constants in the lengths of the window

    def retry(self):
        """Numeric facts may be inductive with what has been learned."""
        numeric = ("lin", "ub", "lb", "lt", "geE", "leE", "ge0", "gt0", "kc", "end", "full")
        self.dropped = {d for d in self.dropped if d[0] not in numeric}
        self.measures_dropped = set()

    def changed(self):
        raise Restart(str(self.key))


class Cut:
    """One activation of a cut loop on the current path."""

    def __init__(self, table):
        self.table = table
        self.snaps = {}
        self.facts = []
        self.classes = []
        self.ints = []
        self.measures = []


class Side(threading.Thread):
    def __init__(self, coord, name, run):
        super().__init__(daemon=True)
        self.coord = coord
        self.side = name
        self.run_fn = run
        self.resume = threading.Semaphore(0)
        self.event = None
        self.error = None
        self.killed = False
        self.finished = False
        self.started_ = False

    def run(self):
        self.resume.acquire()
        try:
            if not self.killed:
                self.event = self.run_fn()
        except BaseException as exception:  # pylint: disable=broad-except
            self.error = exception
        self.finished = True
        self.coord.main.release()

    def advance(self):
        if not self.started_:
            self.started_ = True
            self.start()
        self.resume.release()
        self.coord.main.acquire()
        if self.error is not None:
            raise self.error
        return self.event

    def emit(self, event):
        self.event = event
        self.coord.main.release()
        self.resume.acquire()
        if self.killed:
            raise PathEnd("killed")

    def kill(self):
        if self.started_ and not self.finished:
            self.killed = True
            self.resume.release()
            self.join(10)


class Activation:
    def __init__(self, node, nodes, frames, it):
        self.node = node
        self.nodes = nodes
        self.frames = list(frames)
        self.it = it
        self.cut = None
        self.unroll = False


class Mismatch(Exception):
    """An obligation failed on the current path."""

    def __init__(self, what, detail=""):
        super().__init__(what)
        self.what = what
        self.detail = detail


class Coord:
    """Runs one path of a contract: code and specification in lockstep."""

    def __init__(self, ctx, contract, explorer):
        self.ctx = ctx
        self.contract = contract
        self.explorer = explorer
        self.main = threading.Semaphore(0)
        self.sides = {}
        self.outputs = {"c": [], "s": []}
        self.cuts_taken = 0

    def stdout(self, interp):
        return self.outputs[interp.side]

    # called from side threads
    def loop_entry(self, interp, node, nodes, it):
        if self.ctx.no_fork:
            raise NeedFork()
        act = Activation(node, nodes, interp.frames, it)
        act.interp = interp
        self.sides[interp.side].emit(("entry", act))
        return act

    def loop_back(self, interp, act, count):
        if self.ctx.no_fork:
            raise NeedFork()
        if act.unroll:
            count += 1
            if count > 20:
                raise Mismatch("lockstep: loop without counterpart")
            return count
        self.sides[interp.side].emit(("back", act))
        return count

    def run(self):
        ctx, contract = self.ctx, self.contract
        values = {}
        for name, param in contract.params.items():
            values[name] = param.make(ctx, name)
        self.values = values
        ictx = Interp(ctx, "c", self, contract)
        sctx = Interp(ctx, "s", self, contract)
        ictx.contract = contract
        if contract.pre is not None:
            pre = Interp(ctx, "s", self, contract)
            if not pre.test(pre.call(contract.pre, [], dict(values))):
                raise PathEnd("precondition")

        def runner(interp, fn, vals):
            def run():
                try:
                    return ("done", "return", interp.call(fn, [], vals))
                except PyRaise as raised:
                    return ("done", "raise", raised.value)
            return run

        # mutable inputs are given to each side separately
        code_vals = {k: clone(v) for k, v in values.items()}
        spec_vals = {k: clone(v) for k, v in values.items()}
        self.writers = [(k, v, spec_vals[k]) for k, v in code_vals.items()
                        if isinstance(v, models.SWriter)]
        self.sides["c"] = Side(self, "c", runner(ictx, contract.code, code_vals))
        self.sides["s"] = Side(self, "s", runner(sctx, contract.spec, spec_vals))
        try:
            ec = self.sides["c"].advance()
            es = self.sides["s"].advance()
            while True:
                if ec[0] == "entry" and es[0] == "entry":
                    self.cut(ec[1], es[1])
                    ec = self.sides["c"].advance()
                    es = self.sides["s"].advance()
                elif ec[0] == "back" and es[0] == "back":
                    if ec[1].cut is None or ec[1].cut is not es[1].cut:
                        self.mismatch("lockstep: iteration of different loops")
                    self.back(ec[1].cut)
                    raise PathEnd("iteration verified")
                elif ec[0] == "done" and es[0] == "done":
                    self.compare(ec, es)
                    raise PathEnd("done")
                elif ec[0] == "entry":
                    ec[1].unroll = True
                    ec = self.sides["c"].advance()
                elif es[0] == "entry":
                    es[1].unroll = True
                    es = self.sides["s"].advance()
                else:
                    self.mismatch(
                        f"lockstep: code {describe(ec)}, specification {describe(es)}")
        finally:
            for side in self.sides.values():
                side.kill()

    def mismatch(self, what, detail=""):
        self.explorer.obligation(what, self)
        if self.ctx.check() == z3.unsat:
            raise PathEnd("infeasible")
        raise Mismatch(what, detail)

    def compare(self, ec, es):
        ctx = self.ctx
        name = "outcome"
        self.explorer.obligation(name, self)
        if ec[1] != es[1]:
            self.mismatch(f"outcome: code {describe(ec)}, specification "
                          f"{describe(es)}")
        if ec[1] == "raise":
            if ec[2].cls is not es[2].cls:
                self.mismatch(f"exception: code {ec[2].cls.__name__}, specification "
                              f"{es[2].cls.__name__}")
            return
        # what is written before an error is not specified
        for key, code, spec in self.writers:
            self.explorer.obligation("text written", self)
            if not core.equal(ctx, code.text, spec.text):
                self.mismatch("text written differs from the specification",
                              explain(ctx, code.text, spec.text))
        if core.equal(ctx, ec[2], es[2]):
            return
        ctx.deep = True
        try:
            if deep_equal(ctx, ec[2], es[2]):
                return
        finally:
            ctx.deep = False
        self.mismatch("outcome: result differs from the specification",
                      explain(ctx, ec[2], es[2]))

    # -- loop cuts ------------------------------------------------------------------

    def cut(self, ca, sa):
        ctx, explorer = self.ctx, self.explorer
        self.cuts_taken += 1
        key = (loop_key(ca), loop_key(sa))
        table = explorer.tables.get(key)
        if table is None:
            table = explorer.tables[key] = LoopTable(key)
        cut = Cut(table)
        ca.cut = sa.cut = cut
        learned = []

        locs = {}
        for side, act in (("c", ca), ("s", sa)):
            side_locs = walk_locations(act.interp, side, act.frames)
            depth = len(act.frames) - 1
            names = assigned_names(act.nodes)
            for name in names:
                table.mods[side].add(f"{side}{depth}.{name}")
            if act.it is not None:
                for path, loc in side_locs.items():
                    if path.endswith(".i") and "$it" in path:
                        pass
                itn = [n for n, v in act.frames[-1].locals.items() if v is act.it]
                if itn:
                    table.mods[side].add(f"{side}{depth}.{itn[0]}.i")
            locs.update(side_locs)
        mods = table.mods["c"] | table.mods["s"]
        self.generic_objects(cut, table, locs, mods)
        cut.locs = locs

        # kinds at entry
        entry = {}
        for path, loc in locs.items():
            if path in mods:
                v = loc.get()
                if v is MISSING or path in cut.objects:
                    continue
                entry[path] = v
                ks = table.kinds.setdefault(path, [])
                k = kind_of(v)
                if k not in ks:
                    ks.append(k)
                    if table.visits:
                        learned.append(path)
        if learned:
            table.changed()

        # numeric locations: fresh symbols plus surviving facts
        k_sym = ctx.fresh_int("k", lo=0).e
        cut.k = k_sym
        ints = []          # (path, entry term, fresh term, getter of new term)
        groups = []
        for path in sorted(entry):
            loc = locs[path]
            ks = table.kinds[path]
            if loc.set is not None and ks == ["int"]:
                fresh = ctx.fresh_int("v_" + path.split(".")[-1]).e
                ints.append((path, zi(entry[path]), fresh,
                             lambda l=loc: l.get()))
        # non-numeric locations: classes of equal values
        others = [p for p in sorted(entry) if not (
            locs[p].set is not None and table.kinds[p] == ["int"])]
        parent = {p: p for p in others}

        def find(p):
            while parent[p] != p:
                p = parent[p]
            return p

        replay = ctx.pos < len(ctx.prefix)
        pairs = []
        for p in others:
            if p[0] != "c" or poisoned(table.kinds[p]):
                continue
            for q in others:
                if q[0] != "s" or table.kinds[q] != table.kinds[p]:
                    continue
                if p.endswith("#") != q.endswith("#"):
                    continue
                if ("eq", p, q) in table.dropped:
                    continue
                if not replay and not self.entry_equal(entry[p], entry[q]):
                    table.dropped.add(("eq", p, q))
                    if explorer.verbose and p.endswith(".text"):
                        print("   entry differs", p, q, explain(ctx, entry[p], entry[q]))
                    if table.visits:
                        learned.append((p, q))
                    continue
                pairs.append((p, q))
        if learned:
            table.changed()
        for p, q in pairs:
            parent[find(p)] = find(q)
        cut.pairs = pairs
        classes = {}
        for p in others:
            classes.setdefault(find(p), []).append(p)

        # upper bound terms: unmodified integers and lengths
        bounds = {}
        for path, loc in sorted(locs.items()):
            if path in mods:
                continue
            v = loc.get()
            if isinstance(v, SInt):
                bounds[path] = v.e
            elif isinstance(v, SBytes):
                n = v.length()
                if z3.is_expr(n):
                    bounds["len:" + path] = n
            elif isinstance(v, IterState) and isinstance(v.n, SInt):
                bounds["n:" + path] = v.n.e
            elif isinstance(v, list) and any(isinstance(x, Splice) for x in v):
                n = sum_len(v)
                if z3.is_expr(n):
                    bounds["len:" + path] = n
        for side, act in (("c", ca), ("s", sa)):
            for depth, frame in enumerate(act.frames):
                for name, v in sorted(frame.locals.items()):
                    if isinstance(v, models.SFile) and z3.is_expr(v.size):
                        bounds["size:" + name] = v.size
                    if isinstance(v, IterState) and isinstance(v.n, SInt):
                        bounds[f"n:{side}{depth}.{name}"] = v.n.e
        uniq = {}
        for name, e in bounds.items():
            if not any(e.eq(e2) for e2 in uniq.values()):
                uniq[name] = e
        bounds = uniq

        # havoc
        setters = []
        for rep, members in sorted(classes.items()):
            values = self.havoc_class(cut, table, members, entry, locs)
            setters.append(values)
        for path, e0, fresh, _ in ints:
            locs[path].set(SInt(fresh))
        # derived numeric locations: lengths of sequences
        for rep, members in sorted(classes.items()):
            for p in members:
                ks = table.kinds[p]
                if p.endswith("#") and ks == ["list"]:
                    e0 = sum_len(cut.entry_lists[p])
                    ints.append(("len:" + p, e0 if z3.is_expr(e0) else I(e0),
                                 zi(mkint(sum_len(locs[p].get()))),
                                 lambda l=locs[p]: mkint(sum_len(l.get()))))
                elif ks == ["bytes"] and locs[p].set is not None:
                    e0 = bytes_len(entry[p])
                    new = bytes_len(locs[p].get())
                    ints.append(("len:" + p, e0 if z3.is_expr(e0) else I(e0),
                                 new if z3.is_expr(new) else I(new),
                                 lambda l=locs[p]: mkint(bytes_len(l.get()))))

        full = []
        for members, src, size, off0, off in getattr(cut, "moving", []):
            p = members[0]

            def offset(l=locs[p], src=src, size=size):
                w = self.window_at(l.get(), src, size)
                return None if w is None else mkint(w)
            ints.append(("off:" + p, off0, off, offset))
            for q in members:
                for width in sorted(table.widths.get(q, ())):
                    full.append((p, width, size))
        cut.ints = ints
        facts = []

        def fact(name, build, trivial=False):
            if name in table.dropped:
                return
            facts.append((name, build, trivial))

        for path, e0, fresh, get in ints:
            fact(("ge0", path), lambda v, p=path: v[p] >= 0)
            if (core.lit(e0) or 0) > 1:
                fact(("gt0", path), lambda v, p=path: v[p] > 0)
            fact(("geE", path), lambda v, p=path, e=e0: v[p] >= e, True)
            fact(("leE", path), lambda v, p=path, e=e0: v[p] <= e, True)
            for bname, b in bounds.items():
                fact(("ub", path, bname), lambda v, p=path, e=b: v[p] <= e)
                fact(("lb", path, bname), lambda v, p=path, e=b: v[p] >= e)
            for bits in (8, 16, 32, 64):
                fact(("lt", path, bits),
                     lambda v, p=path, n=bits: v[p] < 2 ** n)
            for c in table.steps.get(path, ()):
                fact(("kc", path, c), lambda v, p=path, e=e0, c=c:
                     v[p] == e + c * v["$k"], True)
        for a in range(len(ints)):
            for b in range(a + 1, len(ints)):
                pa, ea, _, _ = ints[a]
                pb, eb, _, _ = ints[b]
                for c in (1, -1):
                    fact(("lin", pa, pb, c), lambda v, p=pa, q=pb, e=ea, f=eb, c=c:
                         v[p] - e == c * (v[q] - f), True)
                fact(("p2", pa, pb), lambda v, p=pa, q=pb: z3.And(
                    v[q] >= 0, v[p] >= 0, v[p] < models.pow2(ctx, v[q])))
                fact(("p2", pb, pa), lambda v, p=pb, q=pa: z3.And(
                    v[q] >= 0, v[p] >= 0, v[p] < models.pow2(ctx, v[q])))
        for members, _, _, _, _ in getattr(cut, "moving", []):
            p = members[0]
            for path, _, _, _ in ints:
                if not path.startswith(("len:", "off:")):
                    fact(("end", path, "off:" + p), lambda v, q=path, p=p:
                         v[q] == v["off:" + p] + v["len:" + p])
        for p, width, size in full:
            fact(("full", "len:" + p, "off:" + p, width), lambda v, p=p, w=width, n=size:
                 z3.Or(v["len:" + p] == w, v["off:" + p] + v["len:" + p] == n))
        if not explorer.uses_pow2:
            facts = [f for f in facts if f[0][0] != "p2"]

        # initiation
        if not replay:
            vals = {p: e0 for p, e0, _, _ in ints}
            vals["$k"] = I(0)
            explorer.obligation("invariant initially: " + short(key), self)
            for name, build, trivial in facts:
                if trivial:
                    continue
                if not ctx.implied(build(vals), timeout=400):
                    table.dropped.add(name)
                    learned.append(name)
            if learned and table.visits:
                table.changed()
            facts = [f for f in facts if f[0] not in table.dropped]
        table.visits += 1
        vals = {p: fresh for p, _, fresh, _ in ints}
        vals["$k"] = k_sym
        for name, build, _ in facts:
            ctx.assume(build(vals))
        cut.facts = facts
        # measures for termination
        cut.measures = []
        if self.contract.terminates:
            for path, _, fresh, get in ints:
                cut.measures.append((("down", path), fresh, lambda g=get: zi(g())))
                for bname, b in bounds.items():
                    cut.measures.append((
                        ("up", path, bname), b - fresh,
                        lambda g=get, b=b: b - zi(g())))
        # snapshots after havoc
        for path, loc in locs.items():
            cut.snaps[path] = snapshot(loc.get())
        cut.object_snaps = {(path, n): snapshot(x) for path, clone in cut.objects.items()
                            for n, x in clone.fields.items()}

    def generic_objects(self, cut, table, locs, mods):
        """Variables that refer to another object in every iteration.

        The objects have to be of one class and are not changed, hence the variable can
        refer to an object with any values of the fields.
        """
        cut.objects = {}
        for path in sorted(locs):
            if path not in locs:
                continue
            loc = locs[path]
            v = loc.get()
            if path not in mods or loc.set is None or not isinstance(v, SObj):
                continue
            if table.objects.setdefault(path, v.cls) is not v.cls:
                table.objects[path] = None
            if table.objects[path] is None or any(
                    w is v if not isinstance(w, list) else any(x is v for x in w)
                    for w in (locs[q].get() for q in locs if q != path)):
                table.objects[path] = None
                continue
            clone = SObj(v.cls)
            clone.fields.update((k, list(x) if isinstance(x, list) else x)
                                for k, x in v.fields.items())
            loc.set(clone)
            cut.objects[path] = clone
            for q in [q for q in locs if q.startswith(path + ".")]:
                del locs[q]
            for name in sorted(clone.fields):
                def get(name=name, loc=loc):
                    holder = loc.get()
                    return holder.fields.get(name, MISSING) if isinstance(
                        holder, SObj) else MISSING
                if isinstance(clone.fields[name], _LEAVES + (list,)):
                    locs[f"{path}.{name}"] = Loc(
                        f"{path}.{name}", get, lambda w, n=name, o=clone:
                        o.fields.__setitem__(n, w), path[0])

    def check_objects(self, cut, table):
        """The objects stay of one class and are not changed."""
        for path, clone in cut.objects.items():
            v = cut.locs[path].get()
            if not isinstance(v, SObj) or v.cls is not clone.cls or set(
                    v.fields) != set(clone.fields) or any(
                        changed(cut.object_snaps[path, n], x)
                        for n, x in clone.fields.items()):
                table.objects[path] = None
                table.changed()

    def entry_equal(self, a, b):
        try:
            return core.equal(self.ctx, a, b)
        except (Unsupported, NeedFork):
            return False

    def havoc_class(self, cut, table, members, entry, locs):
        ctx = self.ctx
        if not hasattr(cut, "entry_lists"):
            cut.entry_lists = {}
        kinds = table.kinds[members[0]]
        if poisoned(kinds):
            for p in members:
                if locs[p].set is not None:
                    locs[p].set(Undefined(p))
                else:
                    raise Unsupported(f"havoc of {p}")
            return
        if members[0].endswith("#"):
            # in place content of a list or dict
            if kinds == ["list"]:
                ek = None
                eks = {table.elem.get(p) for p in members}
                if len(eks) == 1:
                    ek = eks.pop()
                sym = core.fresh_name("l")
                ln = z3.Int(sym + "_len")
                ctx.assume(ln >= 0)

                lo = None
                if ek == "int" and ("nonneg", tuple(members)) not in table.dropped:
                    if all(self.nonneg_items(locs[p].get()) for p in members):
                        lo = 0
                        cut.nonneg = getattr(cut, "nonneg", [])
                        cut.nonneg.append((members, sym))
                    else:
                        table.dropped.add(("nonneg", tuple(members)))

                def elem(i, sym=sym, ek=ek, lo=lo):
                    if lo is not None:
                        return ctx.app("elem:" + sym, (mkint(i),), "int", lo=lo)
                    return typed_app(ctx, "elem:" + sym, (mkint(i),), ek)
                for p in members:
                    lst = locs[p].get()
                    cut.entry_lists[p] = list(lst)
                    lst[:] = [Splice(sym, I(0), ln, elem)]
            else:
                base = Opaque(core.fresh_name("map"), (), "map")
                for p in members:
                    d = locs[p].get()
                    cut.entry_lists[p] = SDict([list(x) for x in d.entries], d.base)
                    d.entries = []
                    d.base = base
            return
        kind = kinds[ctx.choose(len(kinds))]
        e0 = entry[members[0]]
        value = None
        if kind == "int":
            value = ctx.fresh_int("v")
        elif kind == "bool":
            value = ctx.fresh_bool("v")
        elif kind == "bytes":
            suffix = [p for p in members if ("suffix", p) not in table.dropped]
            window = self.window_of(table, members, entry)
            if window is not None:
                src, off = window
                ln = ctx.fresh_int("win", lo=0).e
                value = SBytes([Seg(src=src, off=off, ln=ln)])
                cut.windows = getattr(cut, "windows", [])
                cut.windows.append((members, src, off))
            elif self.moving_window(table, members, entry) is not None:
                src, size, off0 = self.moving_window(table, members, entry)
                off = ctx.fresh_int("woff", lo=0).e
                ln = ctx.fresh_int("win", lo=0).e
                ctx.assume(off + ln <= size)
                value = SBytes([Seg(src=src, off=off, ln=ln)])
                cut.moving = getattr(cut, "moving", [])
                cut.moving.append((members, src, size, off0, off))
            elif len(suffix) == len(members) and kinds == ["bytes"] and isinstance(
                    e0, SBytes):
                n = bytes_len(e0)
                d = ctx.fresh_int("cut", lo=0).e
                ctx.assume(d <= n)
                value = core.take(ctx, e0, d, simp((n if z3.is_expr(
                    n) else I(n)) - d))
                cut.suffix = getattr(cut, "suffix", [])
                cut.suffix.append((members, e0))
            else:
                value = ctx.fresh_bytes("v")
        elif kind == "str":
            value = ctx.fresh_str("v")
        elif kind == "none":
            value = None
        elif kind == "list":
            # the list object itself is rebound in the loop
            value = None
            for p in members:
                ek = table.elem.get(p)
            sym = core.fresh_name("l")
            ln = z3.Int(sym + "_len")
            ctx.assume(ln >= 0)
            for p in members:
                if p in table.rebound:
                    locs[p].set([Splice(sym, I(0), ln, lambda i, ek=ek: typed_app(
                        ctx, "elem:" + sym, (mkint(i),), ek))])
            return
        elif kind == "dict":
            base = Opaque(core.fresh_name("map"), (), "map")
            for p in members:
                if p in table.rebound:
                    locs[p].set(SDict([], base))
            return
        elif kind == "tuple":
            shapes = table.elem.get(members[0])
            raise_poison = True
            for p in members:
                locs[p].set(Undefined(p))
            return
        elif kind == "float" or kind.startswith("opaque:"):
            value = Opaque(core.fresh_name("v"), (), kind.split(":")[-1])
        else:
            raise Unsupported(f"havoc of {kind}")
        for p in members:
            locs[p].set(value)

    def nonneg_items(self, items, sym=None):
        """True if all elements of a list are integers that are not negative."""
        ctx = self.ctx
        for x in items:
            if isinstance(x, Splice):
                if x.sym == sym:
                    continue
                i = ctx.fresh_int("i", lo=0).e
                x = x.elem(i)
            if not is_int(x) or not ctx.implied(zi(x) >= 0):
                return False
        return True

    def window_of(self, table, members, entry):
        """Candidate invariant: the bytes are a window of an input at a fixed offset."""
        for p in members:
            w = table.windows.get(p)
            if w is None:
                continue
            src = self.source(w[0])
            if src is None or ("window", p, str(w)) in table.dropped:
                continue
            for q in members:
                e0 = entry[q]
                if kind_of(e0) != "bytes":
                    break
                n = bytes_len(e0)
                n = n if z3.is_expr(n) else I(n)
                if not self.ctx.implied(n == 0) and not core.equal(
                        self.ctx, e0, SBytes([Seg(src=src, off=w[1], ln=n)])):
                    break
            else:
                return src, w[1]
            table.dropped.add(("window", p, str(w)))
        return None

    def moving_window(self, table, members, entry):
        """Candidate invariant: the bytes are a window of an input."""
        if any(("moving", p) in table.dropped for p in members):
            return None
        names = {table.moving[p] for p in members if p in table.moving}
        if len(names) != 1:
            return None
        src, size = self.source_size(names.pop())
        if src is None:
            return None
        off = None
        for p in members:
            w = self.window_at(entry[p], src, size)
            if w is None:
                table.dropped.add(("moving", p))
                return None
            off = w
        return src, size, off

    def window_at(self, v, src, size):
        """Offset of bytes within a source, None if they are not a window of it."""
        v = core.norm_bytes(v)
        if not isinstance(v, SBytes) or len(v.segs) != 1 or v.segs[0].src is not src:
            return None
        off, ln = v.segs[0].off, v.segs[0].ln
        off = off if z3.is_expr(off) else I(off)
        ln = ln if z3.is_expr(ln) else I(ln)
        if not self.ctx.implied(z3.And(off >= 0, ln >= 0, off + ln <= size)):
            return None
        return off

    def source_size(self, name):
        for v in self.values.values():
            if isinstance(v, models.SFile) and v.src.name == name:
                return v.src, v.size if z3.is_expr(v.size) else I(v.size)
            if isinstance(v, SBytes) and len(v.segs) == 1 and v.segs[
                    0].src is not None and v.segs[0].src.name == name:
                n = bytes_len(v)
                return v.segs[0].src, n if z3.is_expr(n) else I(n)
        return None, None

    def source(self, name):
        for v in self.values.values():
            if isinstance(v, models.SFile) and v.src.name == name:
                return v.src
            if isinstance(v, SBytes) and v.segs and v.segs[0].src is not None and (
                    v.segs[0].src.name == name):
                return v.segs[0].src
        return None

    def back(self, cut):
        """Checks that the invariant is preserved by the iteration."""
        ctx, explorer, table = self.ctx, self.explorer, cut.table
        learned = []
        self.check_objects(cut, table)
        # modified locations outside the havoc set
        for path, loc in cut.locs.items():
            v = loc.get()
            if path in cut.objects:
                continue
            if path in table.mods[path[0]]:
                if v is MISSING or path not in table.kinds:
                    continue
                k = kind_of(v)
                if isinstance(v, Undefined):
                    continue
                if k not in table.kinds[path]:
                    table.kinds[path].append(k)
                    learned.append(path)
                if loc.set is not None and kind_of(v) in ("list", "dict"):
                    snap = cut.snaps[path]
                    if v is not snap[1] and path not in table.rebound:
                        table.rebound.add(path)
                        learned.append(path)
                continue
            if v is MISSING:
                continue
            if changed(cut.snaps[path], v):
                # What was dropped may hold when this location is known to change.
                if path[0] + ":" + path.rsplit(".", 1)[-1] not in table.found:
                    table.found.add(path[0] + ":" + path.rsplit(".", 1)[-1])
                    table.dropped = set()
                    table.measures_dropped = set()
                    table.suffix_dropped = set()
                table.mods[path[0]].add(path)
                learned.append(path)
        # element kinds of accumulated lists
        for path in list(table.kinds):
            if path in cut.locs and table.kinds[path] == ["list"]:
                v = cut.locs[path].get()
                if isinstance(v, list):
                    new = {elem_kind(x) for x in v if not isinstance(x, Splice)}
                    known = table.elem.get(path)
                    if new:
                        nk = new.pop() if len(new) == 1 else "mixed"
                        if known is None:
                            table.elem[path] = nk
                            learned.append(path)
                        elif known != nk and known != "mixed":
                            table.elem[path] = "mixed"
                            learned.append(path)
        # windows of inputs at a fixed offset
        for path in list(table.kinds):
            if table.kinds[path] == ["bytes"] and path in cut.locs and (
                    path not in table.windows
                    or ("window", path, str(table.windows[path])) in table.dropped):
                v = cut.locs[path].get()
                if isinstance(v, SBytes) and len(v.segs) == 1 and (
                        v.segs[0].src is not None) and self.source(
                            v.segs[0].src.name) is not None:
                    if stable(v.segs[0].off) and path not in table.windows:
                        table.windows[path] = (v.segs[0].src.name, v.segs[0].off)
                        learned.append(path)
                    elif path not in table.moving:
                        table.moving[path] = v.segs[0].src.name
                        table.retry()
                        learned.append(path)
                    found = constants(v.segs[0].ln)
                    if not found <= table.widths.setdefault(path, set()):
                        table.widths[path] |= found
                        learned.append(path)
        # constant steps
        for path, e0, fresh, get in cut.ints:
            new = get()
            if not core.is_int(new):
                continue
            d = lit(simp(zi(new) - fresh))
            if d is not None and d not in table.steps.setdefault(path, set()) and len(
                    table.steps[path]) < 3:
                table.steps[path].add(d)
                learned.append(path)
        if learned:
            table.changed()
        # preserved facts
        vals = {}
        for path, e0, fresh, get in cut.ints:
            new = get()
            if core.is_int(new):
                vals[path] = zi(new)
        vals["$k"] = cut.k + 1
        explorer.obligation("invariant preserved: " + short(table.key), self)
        goals = []
        for name, build, _ in cut.facts:
            paths = [n for n in name[1:3] if isinstance(n, str)]
            if any(p in [i[0] for i in cut.ints] and p not in vals for p in paths):
                table.dropped.add(name)
                learned.append(name)
                continue
            goals.append((name, build(vals)))
        if learned:
            table.changed()
        if goals:
            conj = z3.And(*[g for _, g in goals])
            if not ctx.implied(conj, timeout=3000):
                for name, goal in goals:
                    if not ctx.implied(goal, timeout=1500) and not (
                            name[0] in ("lin", "lt") and explorer.deep_facts
                            and bv_prove(ctx, goal)):
                        table.dropped.add(name)
                        learned.append(name)
            if learned:
                table.changed()
        for members, sym in getattr(cut, "nonneg", []):
            if not all(self.nonneg_items(cut.locs[p].get(), sym) for p in members):
                table.dropped.add(("nonneg", tuple(members)))
                learned.append(members)
                table.changed()
        # equal classes
        for p, q in cut.pairs:
            a, b = cut.locs[p].get(), cut.locs[q].get()
            if a is MISSING or b is MISSING or not core.equal(ctx, a, b):
                ctx.deep = True
                try:
                    if a is not MISSING and b is not MISSING and deep_equal(
                            ctx, a, b):
                        continue
                finally:
                    ctx.deep = False
                table.dropped.add(("eq", p, q))
                learned.append((p, q))
                if explorer.verbose:
                    print("   drop", p, q, a, b)
        for members, src, off in getattr(cut, "windows", []):
            for p in members:
                v = cut.locs[p].get()
                n = bytes_len(v)
                if not core.equal(ctx, v, SBytes([Seg(
                        src=src, off=off, ln=n if z3.is_expr(n) else I(n))])):
                    for q in members:
                        if q in table.windows:
                            table.dropped.add(("window", q, str(table.windows[q])))
                    learned.append(p)
        for members, src, size, _, _ in getattr(cut, "moving", []):
            for p in members:
                if self.window_at(cut.locs[p].get(), src, size) is None:
                    table.dropped.add(("moving", p))
                    learned.append(p)
        for members, e0 in getattr(cut, "suffix", []):
            for p in members:
                v = cut.locs[p].get()
                n = bytes_len(e0)
                l = bytes_len(v)
                le = l if z3.is_expr(l) else I(l)
                if not ctx.implied(le <= n) or not core.equal(
                        ctx, v, core.take(ctx, e0, simp(n - le), le)):
                    table.dropped.add(("suffix", p))
                    learned.append(p)
        if learned:
            table.changed()
        # termination measure
        if self.contract.terminates:
            explorer.obligation("loop terminates: " + short(table.key), self)
            alive = []
            for name, old, get in cut.measures:
                if name in table.measures_dropped:
                    continue
                try:
                    new = get()
                except Unsupported:
                    table.measures_dropped.add(name)
                    continue
                if ctx.implied(z3.And(old >= 0, new <= old - 1)):
                    alive.append(name)
                else:
                    table.measures_dropped.add(name)
            if not alive:
                raise Mismatch("loop terminates: no decreasing measure for "
                               + short(table.key))


def explain(ctx, a, b, path="result"):
    """Where two values differ."""
    if isinstance(a, SObj) and isinstance(b, SObj):
        for name, v in b.fields.items():
            w = a.fields.get(name, "missing")
            if not core.equal(ctx, w, v):
                return explain(ctx, w, v, path + "." + name)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(
            a) == len(b):
        for k, (w, v) in enumerate(zip(a, b)):
            if not isinstance(w, Splice) and not isinstance(
                    v, Splice) and not core.equal(ctx, w, v):
                return explain(ctx, w, v, f"{path}[{k}]")
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        x, y = list(core.str_parts(a)), list(core.str_parts(b))
        while x and y and (x[0] == y[0] if isinstance(x[0], str) or isinstance(
                y[0], str) else core.equal_atom(ctx, x[0], y[0], 0)):
            x.pop(0)
            y.pop(0)
        a, b = SStr(x), SStr(y)
    return f"{path}: code={a!r}\nspec={b!r}"


def constants(e):
    """Positive integer literals of a length term."""
    if not z3.is_expr(e):
        return {e} if e > 0 else set()
    out, todo, count = set(), [e], 0
    while todo and count < 60:
        count += 1
        t = todo.pop()
        k = lit(t)
        if k is not None and k > 1:
            out.add(k)
        todo.extend(t.children())
    return set(sorted(out)[:4])


def stable(e):
    """True if a term is made of inputs only."""
    if not z3.is_expr(e):
        return True
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return e.decl().name().startswith("p_")
    if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not e.decl().name(
            ).startswith("p_"):
        return False
    return all(stable(c) for c in e.children())


def elem_kind(x):
    """Kind of a list element, with the shape of tuples."""
    if isinstance(x, tuple):
        return ("tuple",) + tuple(elem_kind(y) for y in x)
    return kind_of(x)


def typed_app(ctx, fname, args, kind):
    if isinstance(kind, tuple):
        return tuple(typed_app(ctx, f"{fname}.{k}", args, sub)
                     for k, sub in enumerate(kind[1:]))
    if kind in ("int", "bool", "bytes", "str", "none"):
        return ctx.app(fname, args, kind)
    return ctx.app(fname, args, "obj")


def poisoned(kinds):
    for k in kinds:
        if k.startswith("obj:") or k.startswith("py:"):
            return True
    if "tuple" in kinds:
        return True
    return False


def sum_len(lst):
    total = 0
    for x in lst:
        total = total + (x.ln if isinstance(x, Splice) else 1)
    return simp(total) if z3.is_expr(total) else total


def loop_key(act):
    return (act.frames[-1].name, getattr(act.node, "lineno", 0),
            getattr(act.node, "col_offset", 0), len(act.frames))


def short(key):
    return f"{key[0][0]}:{key[0][1]}"


def describe(event):
    if event[0] == "done":
        if event[1] == "raise":
            return f"raises {event[2].cls.__name__}"
        return "returns"
    if event[0] == "entry":
        return f"enters the loop of {event[1].frames[-1].name}"
    return f"continues the loop of {event[1].frames[-1].name}"


def clone(v):
    """Separate copy of a mutable input for one side."""
    if isinstance(v, models.SFile):
        f = models.SFile.__new__(models.SFile)
        f.__dict__.update(v.__dict__)
        return f
    if isinstance(v, models.SWriter):
        return models.SWriter()
    if isinstance(v, list):
        return [clone(x) for x in v]
    if isinstance(v, SDict):
        return SDict([[clone(k), clone(x)] for k, x in v.entries], v.base)
    if isinstance(v, SObj):
        return SObj(v.cls, {k: clone(x) for k, x in v.fields.items()})
    return v


# -- deeper proof attempts ---------------------------------------------------------------

def deep_equal(ctx, a, b):
    """equal() with longer timeouts and bit-vector lifting for integers."""
    saved = ctx.implied
    def implied(e, timeout=None):
        if saved(e, timeout=6000):
            return True
        if isinstance(e, SBool):
            e = e.e
        if isinstance(e, bool):
            return e
        return bv_prove(ctx, e)
    ctx.implied = implied
    try:
        return core.equal(ctx, a, b)
    finally:
        ctx.implied = saved


class NoLift(Exception):
    pass


def bv_prove(ctx, goal, plain=False):
    """Proves a goal by translating it to bit-vectors wide enough to be exact."""
    try:
        return Lifter(ctx).prove(goal, plain)
    except (NoLift, z3.Z3Exception):
        return False


class Lifter:
    def __init__(self, ctx):
        self.ctx = ctx
        self.bounds = {}
        self.memo_range = {}
        self.memo_bits = {}
        for c in ctx.constraints:
            self.note(c)

    # What a constraint says about the range of a term, per constraint.
    SCANNED = {}

    def note(self, c):
        found = self.SCANNED.get(c.get_id())
        if found is None:
            if len(self.SCANNED) > 50000:
                self.SCANNED.clear()
            found = []
            self.scan(c, found)
            found = self.SCANNED[c.get_id()] = (found, c)
        for term, lo, hi in found[0]:
            entry = self.bounds.setdefault(term.get_id(), [None, None, term])
            if lo is not None and (entry[0] is None or lo > entry[0]):
                entry[0] = lo
            if hi is not None and (entry[1] is None or hi < entry[1]):
                entry[1] = hi

    # The atoms of a term, per term.
    ATOMS = {}

    def atoms_of(self, e):
        found = self.ATOMS.get(e.get_id())
        if found is not None:
            return found[0]
        if not z3.is_app(e):
            found = None
        elif self.atomic(e) or not e.num_args():
            found = frozenset() if z3.is_int_value(e) else frozenset([e.get_id()])
        else:
            found = frozenset()
            for x in e.children():
                n = self.atoms_of(x)
                if n is None:
                    found = None
                    break
                found |= n
        if len(self.ATOMS) > 200000:
            self.ATOMS.clear()
        self.ATOMS[e.get_id()] = (found, e)
        return found

    def relevant(self, goal):
        """The constraints that share an atom with the goal, transitively."""
        reached = self.atoms_of(goal)
        if reached is None:
            return list(self.ctx.constraints)
        rest = [(c, self.atoms_of(c)) for c in self.ctx.constraints]
        taken = []
        while True:
            more = [(c, v) for c, v in rest if v is not None and v & reached]
            if not more:
                return taken
            taken.extend(c for c, _ in more)
            rest = [(c, v) for c, v in rest if v is not None and not v & reached]
            reached = reached.union(*[v for _, v in more])

    def scan(self, c, found):
        if z3.is_and(c):
            for x in c.children():
                self.scan(x, found)
            return
        neg = False
        if z3.is_not(c):
            neg = True
            c = c.arg(0)
        kind = c.decl().kind() if z3.is_app(c) else None
        if kind not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT,
                        z3.Z3_OP_EQ):
            return
        if not z3.is_int(c.arg(0)):
            return
        l, r = c.arg(0), c.arg(1)
        kl, kr = lit(l), lit(r)
        if kr is None and kl is None:
            return
        if kl is not None:
            l, r, kr = r, l, kl
            kind = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE,
                    z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT,
                    z3.Z3_OP_EQ: z3.Z3_OP_EQ}[kind]
        if neg:
            kind = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LT,
                    z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GT: z3.Z3_OP_LE}.get(kind)
            if kind is None:
                return
        lo = hi = None
        if kind == z3.Z3_OP_LE:
            hi = kr
        elif kind == z3.Z3_OP_LT:
            hi = kr - 1
        elif kind == z3.Z3_OP_GE:
            lo = kr
        elif kind == z3.Z3_OP_GT:
            lo = kr + 1
        else:
            lo = hi = kr
        found.append((l, lo, hi))

    def range(self, e):
        key = e.get_id()
        if key in self.memo_range:
            return self.memo_range[key][:2]
        r = self.range_(e)
        b = self.bounds.get(key)
        if b is not None:
            lo, hi = r
            if b[0] is not None and (lo is None or b[0] > lo):
                lo = b[0]
            if b[1] is not None and (hi is None or b[1] < hi):
                hi = b[1]
            r = (lo, hi)
        self.memo_range[key] = r + (e,)
        return r

    def range_(self, e):
        k = lit(e)
        if k is not None:
            return (k, k)
        kind = e.decl().kind()
        ch = e.children()
        if kind == z3.Z3_OP_ADD:
            rs = [self.range(c) for c in ch]
            lo = None if any(r[0] is None for r in rs) else sum(r[0] for r in rs)
            hi = None if any(r[1] is None for r in rs) else sum(r[1] for r in rs)
            return lo, hi
        if kind == z3.Z3_OP_SUB and len(ch) == 2:
            a, b = self.range(ch[0]), self.range(ch[1])
            return (None if a[0] is None or b[1] is None else a[0] - b[1],
                    None if a[1] is None or b[0] is None else a[1] - b[0])
        if kind == z3.Z3_OP_UMINUS:
            a = self.range(ch[0])
            return (None if a[1] is None else -a[1], None if a[0] is None else -a[0])
        if kind == z3.Z3_OP_MUL:
            rs = [self.range(c) for c in ch]
            if any(r[0] is None or r[1] is None for r in rs):
                return None, None
            lo, hi = rs[0]
            for r in rs[1:]:
                c = [lo * r[0], lo * r[1], hi * r[0], hi * r[1]]
                lo, hi = min(c), max(c)
            return lo, hi
        if kind == z3.Z3_OP_IDIV:
            d = lit(ch[1])
            a = self.range(ch[0])
            if d and d > 0:
                return (None if a[0] is None else a[0] // d,
                        None if a[1] is None else a[1] // d)
            return None, None
        if kind == z3.Z3_OP_MOD:
            d = lit(ch[1])
            a = self.range(ch[0])
            if d and d > 0:
                if a[0] is not None and a[1] is not None and 0 <= a[0] and a[1] < d:
                    return a
                return 0, d - 1
            return None, None
        if kind == z3.Z3_OP_ITE:
            a, b = self.range(ch[1]), self.range(ch[2])
            return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                    None if a[1] is None or b[1] is None else max(a[1], b[1]))
        if e.decl().name() == "band":
            a, b = self.range(ch[0]), self.range(ch[1])
            if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0:
                his = [x for x in (a[1], b[1]) if x is not None]
                return 0, min(his) if his else None
        if e.decl().name() in ("bxor", "bor"):
            a, b = self.range(ch[0]), self.range(ch[1])
            if all(x is not None and x >= 0 for x in a + b):
                return 0, 2 ** max(int(a[1]).bit_length(), int(b[1]).bit_length()) - 1
        return None, None

    def bits(self, e):
        """Largest magnitude of any subterm, in bits."""
        key = e.get_id()
        n = self.memo_bits.get(key)
        if n is None:
            n = 1
            is_int = z3.is_int(e)
            if is_int:
                lo, hi = self.range(e)
                n = (0 if lo is None or hi is None else
                     max(n, int(lo).bit_length() + 1, int(hi).bit_length() + 1))
            if n and z3.is_app(e) and not (is_int and self.atomic(e)):
                for c in e.children():
                    try:
                        n = max(n, self.bits(c))
                    except NoLift:
                        n = 0
                        break
            self.memo_bits[key] = n
        if not n:
            raise NoLift("size")
        return n

    def atomic(self, e):
        return z3.is_int(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
            e.decl().name() not in ("band", "bxor", "bor")

    def tr(self, e):
        key = e.get_id()
        if key in self.memo:
            return self.memo[key][0]
        r = self.tr_(e)
        self.memo[key] = (r, e)
        return r

    def tr_(self, e):
        W = self.W
        if z3.is_int(e):
            k = lit(e)
            if k is not None:
                return z3.BitVecVal(k, W)
            if self.atomic(e):
                v = z3.BitVec(f"lift{len(self.atoms)}", W)
                self.atoms.append((v, e))
                lo, hi = self.range(e)
                self.side.append(z3.And(v >= lo, v <= hi))
                return v
            kind = e.decl().kind()
            ch = e.children()
            if kind == z3.Z3_OP_ADD:
                r = self.tr(ch[0])
                for c in ch[1:]:
                    r = r + self.tr(c)
                return r
            if kind == z3.Z3_OP_SUB:
                r = self.tr(ch[0])
                for c in ch[1:]:
                    r = r - self.tr(c)
                return r
            if kind == z3.Z3_OP_UMINUS:
                return -self.tr(ch[0])
            if kind == z3.Z3_OP_MUL:
                r = self.tr(ch[0])
                for c in ch[1:]:
                    r = r * self.tr(c)
                return r
            if kind in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                d = lit(ch[1])
                a = self.tr(ch[0])
                if d is None or d <= 0:
                    raise NoLift("division")
                if d & (d - 1) == 0:
                    s = d.bit_length() - 1
                    if kind == z3.Z3_OP_IDIV:
                        return a >> s
                    return a & z3.BitVecVal(d - 1, W)
                lo, _ = self.range(ch[0])
                if lo is None or lo < 0:
                    raise NoLift("signed division")
                return (z3.UDiv(a, z3.BitVecVal(d, W)) if kind == z3.Z3_OP_IDIV
                        else z3.URem(a, z3.BitVecVal(d, W)))
            if kind == z3.Z3_OP_ITE:
                return z3.If(self.tr(ch[0]), self.tr(ch[1]), self.tr(ch[2]))
            if e.decl().name() == "band":
                return self.tr(ch[0]) & self.tr(ch[1])
            if e.decl().name() == "bxor":
                return self.tr(ch[0]) ^ self.tr(ch[1])
            if e.decl().name() == "bor":
                return self.tr(ch[0]) | self.tr(ch[1])
            raise NoLift(e.decl().name())
        kind = e.decl().kind()
        ch = e.children()
        if kind == z3.Z3_OP_TRUE or kind == z3.Z3_OP_FALSE:
            return e
        if kind == z3.Z3_OP_AND:
            return z3.And(*[self.tr(c) for c in ch])
        if kind == z3.Z3_OP_OR:
            return z3.Or(*[self.tr(c) for c in ch])
        if kind == z3.Z3_OP_NOT:
            return z3.Not(self.tr(ch[0]))
        if kind == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.tr(ch[0]), self.tr(ch[1]))
        if kind == z3.Z3_OP_ITE:
            return z3.If(self.tr(ch[0]), self.tr(ch[1]), self.tr(ch[2]))
        if kind == z3.Z3_OP_EQ:
            return self.tr(ch[0]) == self.tr(ch[1])
        if kind == z3.Z3_OP_LE:
            return self.tr(ch[0]) <= self.tr(ch[1])
        if kind == z3.Z3_OP_LT:
            return self.tr(ch[0]) < self.tr(ch[1])
        if kind == z3.Z3_OP_GE:
            return self.tr(ch[0]) >= self.tr(ch[1])
        if kind == z3.Z3_OP_GT:
            return self.tr(ch[0]) > self.tr(ch[1])
        if kind == z3.Z3_OP_UNINTERPRETED and not ch:
            return e
        raise NoLift(e.decl().name())

    def prove(self, goal, plain=False):
        goal = simp(goal)
        self.memo = {}
        self.atoms = []
        self.side = []
        usable = []
        width = self.bits(goal)
        for c in self.relevant(goal) if not plain else ():
            try:
                w = self.bits(c)
                if w <= 160:
                    usable.append(c)
                    width = max(width, w)
            except NoLift:
                continue
        self.W = width + 2
        solver = z3.SolverFor("QF_BV")
        solver.set("timeout", 20000 if not plain else 3000)
        solver.add(z3.Not(self.tr(goal)))
        for c in usable:
            try:
                solver.add(self.tr(c))
            except NoLift:
                continue
        solver.add(*self.side)
        t0 = time.time()
        r = solver.check()
        self.ctx.stats.solver_s += time.time() - t0
        self.ctx.stats.queries += 1
        self.ctx.stats.by_backend["bv"] = self.ctx.stats.by_backend.get("bv", 0) + 1
        return r == z3.unsat


# -- exploration ---------------------------------------------------------------------------

class Failure:
    def __init__(self, what, detail, model, exact, where):
        self.what, self.detail, self.model = what, detail, model
        self.exact, self.where = exact, where


class Result:
    def __init__(self, contract):
        self.contract = contract
        self.ok = False
        self.failures = []
        self.obligations = 0
        self.names = {}
        self.paths = 0
        self.restarts = 0
        self.seconds = 0.0
        self.queries = 0
        self.solver_s = 0.0
        self.error = None
        self.loops = 0


class Explorer:
    def __init__(self, contract, verbose=False):
        self.contract = contract
        self.stats = Stats()
        self.tables = {}
        self.const_srcs = {}
        self.verbose = verbose
        self.uses_pow2 = getattr(contract, "uses_pow2", False)
        self.deep_facts = True
        self.names = {}

    def obligation(self, name, coord):
        self.names[name] = self.names.get(name, 0) + 1

    def explore(self):
        """Explores every path once; raises Restart if a loop table changed."""
        self.names = {}
        for table in self.tables.values():
            table.visits = 0
        prefix = []
        paths = 0
        completed = 0
        failed = None
        while True:
            if failed and (paths > failed_at + 400 or time.time() > failed_until):
                return paths, completed, failed
            if time.time() > self.deadline:
                raise Unsupported("time limit of the contract")
            ctx = Ctx(self, prefix)
            coord = Coord(ctx, self.contract, self)
            try:
                coord.run()
            except PathEnd as end:
                if str(end) in ("done", "iteration verified"):
                    completed += 1
            except Mismatch as mismatch:
                model = None
                if ctx.check() == z3.sat:
                    model = ctx.solver.model()
                failure = Failure(mismatch.what, mismatch.detail, None,
                                  coord.cuts_taken == 0, getattr(ctx, "line", None))
                failure.inputs = extract(coord, model) if model else None
                if coord.cuts_taken == 0:
                    return paths, completed, failure
                # another path may show that an invariant has to be weakened
                if failed is None:
                    failed, failed_at, failed_until = failure, paths, time.time() + 60
            paths += 1
            if paths > self.contract.max_paths:
                raise Unsupported("path limit")
            taken = ctx.taken
            while taken and not taken[-1][1]:
                taken.pop()
            if not taken:
                return paths, completed, failed
            choice, alts = taken[-1]
            prefix = taken[:-1] + [(alts[0], alts[1:])]

    def verify(self):
        result = Result(self.contract)
        t0 = time.time()
        self.deadline = t0 + self.contract.time_limit
        try:
            for _ in range(400):
                try:
                    paths, completed, failure = self.explore()
                    result.paths = paths
                    if failure is not None:
                        result.failures.append(failure)
                    elif not completed:
                        result.failures.append(Failure(
                            "vacuous: no path reaches an outcome", "", None, False,
                            None))
                    break
                except Restart as restart:
                    result.restarts += 1
                    if self.verbose:
                        print("  restart", restart)
            else:
                result.error = "invariant inference did not converge"
        except Unsupported as unsupported:
            result.error = f"unsupported: {unsupported}"
        except z3.Z3Exception as exception:
            result.error = "solver: " + "".join(traceback.format_exception(exception))[-1500:]
        except Exception as exception:  # pylint: disable=broad-except
            result.error = "engine: " + "".join(traceback.format_exception(
                exception))[-1500:]
        result.names = dict(self.names)
        result.obligations = sum(self.names.values())
        result.seconds = time.time() - t0
        result.queries = self.stats.queries
        result.solver_s = self.stats.solver_s
        result.loops = len(self.tables)
        result.ok = (not result.failures and result.error is None
                     and result.obligations > 0)
        return result


def extract(coord, model):
    """Concrete inputs of a counter-model."""
    out = {}
    for name, value in coord.values.items():
        try:
            out[name] = concretize(value, model)
        except Exception:  # pylint: disable=broad-except
            return None
    return out


def mval(model, e):
    v = model.eval(e if z3.is_expr(e) else I(e), model_completion=True)
    return v.as_long()


def concretize(v, model):
    if isinstance(v, SInt):
        return mval(model, v.e)
    if isinstance(v, SBool):
        return z3.is_true(model.eval(v.e, model_completion=True))
    if isinstance(v, SBytes):
        seg = v.segs[0]
        n = mval(model, seg.ln)
        if n > 1 << 16:
            raise ValueError("too large")
        return bytes(mval(model, seg.src.f(I(k))) & 255 for k in range(n))
    if isinstance(v, models.SFile):
        n = mval(model, v.size)
        if n > 1 << 16:
            raise ValueError("too large")
        return bytes(mval(model, v.src.f(I(k))) & 255 for k in range(n))
    if isinstance(v, models.SIntSeq):
        return [mval(model, v.f(I(k))) for k in range(64)]
    if isinstance(v, models.SWriter):
        return None
    if isinstance(v, list):
        out = []
        for x in v:
            if isinstance(x, Splice):
                n = mval(model, x.ln)
                if n > 4096:
                    raise ValueError("too large")
                raise ValueError("list")
            out.append(concretize(x, model))
        return out
    if core.is_symbolic(v):
        raise ValueError("not concrete")
    return v

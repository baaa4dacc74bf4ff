"""Symbolic interpreter for the Python code of /repo (and for the contracts).

The interpreter runs one path at a time; branches ask the path context which
way to go and the explorer re-executes the program for every other way.
"""

import ast
import builtins
import collections
import inspect
import os
import struct
import sys
import types

import z3

from engine import core
from engine.core import (
    Atom, BoundMethod, Closure, ExcVal, I, NativeMethod, NeedFork, Opaque,
    PyRaise, SBool, SBytes, SDict, Seg, SInt, SObj, Splice, SRange, SStr, Undefined,
    Unsupported, bytes_at, bytes_len, concat_bytes, eq_formula, is_int,
    is_symbolic, kind_of, lit, mkbool, mkint, norm_bytes, simp, slice_bytes,
    str_len, str_parts, zb, zi)
from engine import models

UNROLL_CAP = 700
SMALL_BOUND = 16

_ast_cache = {}


def module_ast(path):
    """Parsed functions of a source file by (name, first line)."""
    entry = _ast_cache.get(path)
    if entry is None:
        with open(path, encoding="utf-8") as file_object:
            source = file_object.read()
        tree = ast.parse(source, path)
        entry = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                lines = [node.lineno]
                name = getattr(node, "name", "<lambda>")
                lines.extend(d.lineno for d in getattr(node, "decorator_list", ()))
                for line in lines:
                    entry[(name, line)] = node
        _ast_cache[path] = entry
    return entry


def function_node(fn):
    code = fn.__code__
    node = module_ast(code.co_filename).get((code.co_name, code.co_firstlineno))
    if node is None:
        raise Unsupported(f"no source of {fn.__qualname__}")
    return node


_INTERPRETED = ("dtformats", "contracts", "scripts")


def is_interpretable(fn):
    module = getattr(fn, "__module__", None) or ""
    return module.split(".")[0] in _INTERPRETED


def guarded(node):
    """The loop with the condition under which it is left in its head: "while
    True: if c: break; ..." is "while not c: ..."."""
    found = getattr(node, "guarded", None)
    if found is None:
        found = node
        first = node.body[0]
        if (isinstance(node.test, ast.Constant) and node.test.value is True
                and isinstance(first, ast.If) and not first.orelse
                and len(first.body) == 1 and isinstance(first.body[0], ast.Break)):
            test = (first.test.operand if isinstance(first.test, ast.UnaryOp)
                    and isinstance(first.test.op, ast.Not)
                    else ast.UnaryOp(op=ast.Not(), operand=first.test))
            found = ast.copy_location(ast.While(
                test=ast.copy_location(test, first.test),
                body=node.body[1:] or [ast.copy_location(ast.Pass(), first)],
                orelse=[]), node)
        node.guarded = found
    return found


class BreakLoop(Exception):
    pass


class ContinueLoop(Exception):
    pass


class ReturnValue(Exception):
    def __init__(self, value):
        super().__init__()
        self.value = value


class Frame:
    def __init__(self, name, globals_, parent=None, cls=None, self_obj=None):
        self.name = name
        self.locals = {}
        self.globals = globals_
        self.parent = parent
        self.cls = cls
        self.self_obj = self_obj
        self.yields = None
        self.global_names = set()
        self.nonlocal_names = set()
        self.handling = []
        self.body = None      # statements of the function


class IterState:
    """Iterator over a sequence of symbolic length; i is a loop location."""

    def __init__(self, n, get):
        self.i = 0
        self.n = n            # int or SInt
        self.get = get        # function(index int/SInt) -> value

    def __repr__(self):
        return f"IterState(i={self.i}, n={self.n})"


def contains_yield(node):
    for child in ast.walk(node):
        if isinstance(child, (ast.Yield, ast.YieldFrom)):
            # nested function definitions do not matter in this code base
            return True
    return False


def assigned_names(nodes):
    names = set()
    for node in nodes:
        for child in ast.walk(node):
            if isinstance(child, ast.Name) and isinstance(
                    child.ctx, (ast.Store, ast.Del)):
                names.add(child.id)
            elif isinstance(child, ast.ExceptHandler) and child.name:
                names.add(child.name)
    # comprehension targets are local to the comprehension
    for node in nodes:
        for child in ast.walk(node):
            if isinstance(child, (ast.ListComp, ast.SetComp, ast.DictComp,
                                  ast.GeneratorExp)):
                pass
    return names


class Interp:
    def __init__(self, ctx, side, coord, contract):
        self.ctx = ctx
        self.side = side
        self.coord = coord
        self.contract = contract
        self.frames = []
        self.depth = 0
        self.stubs = contract.stubs
        self.unroll = {}

    # -- helpers -------------------------------------------------------------

    def throw(self, cls, *args):
        raise PyRaise(ExcVal(cls, args))

    def truth(self, v):
        """Truth value as bool/SBool."""
        ctx = self.ctx
        if isinstance(v, (bool, SBool)):
            return v
        if v is None:
            return False
        if isinstance(v, SInt):
            return mkbool(v.e != 0)
        if isinstance(v, (SBytes,)):
            n = v.length()
            return mkbool(n != 0) if z3.is_expr(n) else n != 0
        if isinstance(v, SStr):
            if models.is_missing(self, v):
                return False
            n = 0
            for p in v.parts:
                if isinstance(p, str):
                    return True
                if p.kind in ("fmt", "chr"):
                    return True
            n = str_len(ctx, v)
            return mkbool(zi(n) != 0)
        if isinstance(v, (list, tuple)):
            n = self.seq_len(v)
            return n != 0 if isinstance(n, int) else mkbool(zi(n) != 0)
        if isinstance(v, SDict):
            if v.entries:
                return True
            if v.base is not None:
                return ctx.app("dict_nonempty", (v.base,), "bool")
            return False
        if isinstance(v, SObj):
            for name in ("__bool__", "__len__"):
                if hasattr(v.cls, name):
                    return self.truth(self.call(self.getattr(v, name), [], {}))
            return True
        if isinstance(v, Opaque):
            if v.kind in ("obj", "datetime", "uuid"):
                return True
            if v.kind == "falsy":
                return False
            return ctx.app("truth", (v,), "bool")
        if isinstance(v, models.SFile):
            return True
        if isinstance(v, (BoundMethod, Closure, NativeMethod, ExcVal)):
            return True
        if isinstance(v, Undefined):
            raise Unsupported(f"read of undetermined location {v.why}")
        if isinstance(v, models.SSet):
            return self.truth(self.seq_len(v))
        return bool(v)

    def test(self, v):
        return self.ctx.decide(self.truth(v))

    def seq_len(self, v):
        if isinstance(v, SStr) and models.is_missing(self, v):
            self.throw(TypeError, "len of None")
        """len() as int or SInt."""
        if isinstance(v, (list, tuple)):
            total = 0
            for x in v:
                total = total + (x.ln if isinstance(x, Splice) else 1)
            return total if isinstance(total, int) else mkint(total)
        if isinstance(v, (bytes, bytearray, str, dict, set, frozenset, range)):
            return len(v)
        if isinstance(v, SBytes):
            n = v.length()
            return n if isinstance(n, int) else mkint(n)
        if isinstance(v, SStr):
            return str_len(self.ctx, v)
        if isinstance(v, SDict):
            if v.base is None:
                return len(v.entries)
            return self.ctx.app("dict_len", (v,), "int", lo=0)
        if isinstance(v, SRange):
            return self.range_len(v)
        if isinstance(v, models.SIntSeq):
            return v.length
        if isinstance(v, models.SSet):
            return len(v.items)
        if isinstance(v, SObj) and hasattr(v.cls, "__len__"):
            return self.call(self.getattr(v, "__len__"), [], {})
        if isinstance(v, Opaque):
            return self.ctx.app("len", (v,), "int", lo=0)
        if v is None or is_int(v):
            self.throw(TypeError, "object has no len()")
        raise Unsupported(f"len of {kind_of(v)}")

    def range_len(self, r):
        step = r.step
        if not isinstance(step, int):
            raise Unsupported("symbolic range step")
        span = zi(r.stop) - zi(r.start) if step > 0 else zi(r.start) - zi(r.stop)
        step = abs(step)
        n = simp((span + (step - 1)) / step) if step != 1 else simp(span)
        if not self.ctx.implied(n >= 0):
            n = simp(z3.If(n < 0, I(0), n))
        return mkint(n)

    # -- function calls ------------------------------------------------------

    def call(self, fn, args, kwargs):
        if isinstance(fn, BoundMethod):
            return self.call_function(fn.fn, [fn.obj] + list(args), kwargs)
        if isinstance(fn, NativeMethod):
            return models.call_method(self, fn.obj, fn.name, args, kwargs)
        if isinstance(fn, Closure):
            return self.call_closure(fn, args, kwargs)
        if isinstance(fn, types.FunctionType):
            return self.call_function(fn, args, kwargs)
        if isinstance(fn, types.MethodType):
            return self.call_function(fn.__func__, [fn.__self__] + list(args), kwargs)
        if isinstance(fn, models.StubFunction):
            return fn.handler(self, args, kwargs)
        if isinstance(fn, type):
            return self.call_class(fn, args, kwargs)
        if isinstance(fn, Undefined):
            raise Unsupported(f"call of undetermined location {fn.why}")
        if isinstance(fn, SObj) and hasattr(fn.cls, "__call__"):
            return self.call(self.getattr(fn, "__call__"), args, kwargs)
        return models.call_native(self, fn, args, kwargs)

    def no_optional(self):
        """Call-site contracts may have effects."""
        if self.ctx.optional is not None:
            raise NeedFork()

    def call_class(self, cls, args, kwargs):
        if isinstance(cls, type) and issubclass(cls, BaseException):
            exc = ExcVal(cls, tuple(args))
            return exc
        stub = self.stubs.get(f"{cls.__module__}.{cls.__qualname__}")
        if stub:
            self.no_optional()
            return stub(self, args, kwargs)
        if cls.__module__.split(".")[0] in _INTERPRETED:
            obj = SObj(cls)
            init = None
            for klass in cls.__mro__:
                if "__init__" in klass.__dict__:
                    init = klass.__dict__["__init__"]
                    break
            if isinstance(init, types.FunctionType):
                self.call_function(init, [obj] + list(args), kwargs)
            elif args or kwargs:
                self.throw(TypeError, "takes no arguments")
            return obj
        return models.call_native(self, cls, args, kwargs)

    def call_function(self, fn, args, kwargs):
        key = f"{fn.__module__}.{fn.__qualname__}"
        spec = self.contract.lookup_spec(self, fn, key)
        if spec is not None:
            self.no_optional()
            return spec(self, args, kwargs)
        stub = self.stubs.get(key)
        if stub is not None:
            self.no_optional()
            value = stub(self, args, kwargs)
            if value is not NotImplemented:
                return value
        for pattern, handler in self.contract.stub_patterns:
            if pattern.fullmatch(key):
                self.no_optional()
                return handler(self, args, kwargs)
        if not is_interpretable(fn):
            return models.call_native(self, fn, args, kwargs)
        stub = models.GLOBAL_STUBS.get(key)
        if stub is not None and self.side == "c":
            result = stub(self, args, kwargs)
            if result is not NotImplemented:
                return result
        self.contract.seen.add(key)
        node = function_node(fn)
        cls = None
        if fn.__closure__ and "__class__" in fn.__code__.co_freevars:
            cls = fn.__closure__[fn.__code__.co_freevars.index("__class__")
                                 ].cell_contents
        frame = Frame(fn.__qualname__, fn.__globals__, cls=cls,
                      self_obj=args[0] if args else None)
        if fn.__closure__:
            for name, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                if name != "__class__":
                    frame.locals[name] = cell.cell_contents
        defaults = list(fn.__defaults__ or ())
        frame.body = getattr(node, "body", None)
        self.bind(node, frame, args, kwargs, defaults, fn.__kwdefaults__ or {})
        return self.run_frame(node, frame)

    def call_closure(self, closure, args, kwargs):
        frame = Frame("<closure>", closure.frame.globals, parent=closure.frame,
                      cls=closure.frame.cls, self_obj=closure.frame.self_obj)
        self.bind(closure.node, frame, args, kwargs, closure.defaults,
                  closure.kw_defaults)
        if isinstance(closure.node, ast.Lambda):
            self.frames.append(frame)
            try:
                return self.eval(closure.node.body)
            finally:
                self.frames.pop()
        return self.run_frame(closure.node, frame)

    def bind(self, node, frame, args, kwargs, defaults, kw_defaults):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(names):
            if a.vararg:
                frame.locals[a.vararg.arg] = tuple(args[len(names):])
                args = args[:len(names)]
            else:
                self.throw(TypeError, "too many positional arguments")
        elif a.vararg:
            frame.locals[a.vararg.arg] = ()
        for name, value in zip(names, args):
            frame.locals[name] = value
        offset = len(names) - len(defaults)
        for index, name in enumerate(names):
            if index < len(args):
                if name in kwargs:
                    self.throw(TypeError, "multiple values for argument")
                continue
            if name in kwargs:
                frame.locals[name] = kwargs.pop(name)
            elif index >= offset:
                frame.locals[name] = defaults[index - offset]
            else:
                self.throw(TypeError, f"missing argument {name}")
        for arg in a.kwonlyargs:
            if arg.arg in kwargs:
                frame.locals[arg.arg] = kwargs.pop(arg.arg)
            elif arg.arg in kw_defaults:
                frame.locals[arg.arg] = kw_defaults[arg.arg]
            else:
                self.throw(TypeError, f"missing argument {arg.arg}")
        if a.kwarg:
            d = SDict()
            for k, v in kwargs.items():
                d.entries.append([k, v])
            frame.locals[a.kwarg.arg] = d
        elif kwargs:
            self.throw(TypeError, "unexpected keyword argument")

    def run_frame(self, node, frame):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("call depth")
        self.frames.append(frame)
        try:
            if contains_yield(node):
                frame.yields = []
                try:
                    self.exec_block(node.body)
                except ReturnValue:
                    pass
                return models.GenList(frame.yields)
            try:
                self.exec_block(node.body)
            except ReturnValue as ret:
                return ret.value
            return None
        finally:
            self.frames.pop()
            self.depth -= 1

    # -- statements ----------------------------------------------------------

    @property
    def frame(self):
        return self.frames[-1]

    def exec_block(self, body):
        for stmt in body:
            self.exec(stmt)

    def exec(self, node):
        method = getattr(self, "exec_" + type(node).__name__, None)
        if method is None:
            raise Unsupported(f"statement {type(node).__name__}")
        self.ctx.line = (self.frame.name, getattr(node, "lineno", 0))
        return method(node)

    def exec_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        self.eval(node.value)

    def exec_Pass(self, node):
        pass

    def exec_Import(self, node):
        for alias in node.names:
            module = __import__(alias.name)
            self.frame.locals[alias.asname or alias.name.split(".")[0]] = module

    def exec_ImportFrom(self, node):
        module = __import__(node.module, fromlist=[a.name for a in node.names])
        for alias in node.names:
            self.frame.locals[alias.asname or alias.name] = getattr(
                module, alias.name)

    def exec_Global(self, node):
        raise Unsupported("global statement")

    def exec_Nonlocal(self, node):
        self.frame.nonlocal_names.update(node.names)

    def exec_Assert(self, node):
        if not self.test(self.eval(node.test)):
            self.throw(AssertionError)

    def exec_Return(self, node):
        raise ReturnValue(self.eval(node.value) if node.value else None)

    def exec_Break(self, node):
        raise BreakLoop()

    def exec_Continue(self, node):
        raise ContinueLoop()

    def exec_Delete(self, node):
        for target in node.targets:
            if isinstance(target, ast.Name):
                self.frame.locals.pop(target.id, None)
            elif isinstance(target, ast.Subscript):
                obj = self.eval(target.value)
                key = self.eval_index(target.slice)
                models.delitem(self, obj, key)
            else:
                raise Unsupported("del target")

    def exec_Assign(self, node):
        value = self.eval(node.value)
        for target in node.targets:
            self.assign(target, value)

    def exec_AnnAssign(self, node):
        if node.value is not None:
            self.assign(node.target, self.eval(node.value))

    def exec_AugAssign(self, node):
        target = node.target
        if isinstance(target, ast.Name):
            old = self.lookup(target.id)
            value = self.eval(node.value)
            if isinstance(old, list) and isinstance(node.op, ast.Add):
                models.list_extend(self, old, value)
                return
            self.assign(target, self.binop(node.op, old, value))
        elif isinstance(target, ast.Attribute):
            obj = self.eval(target.value)
            old = self.getattr(obj, target.attr)
            value = self.eval(node.value)
            if isinstance(old, list) and isinstance(node.op, ast.Add):
                models.list_extend(self, old, value)
                return
            self.setattr(obj, target.attr, self.binop(node.op, old, value))
        elif isinstance(target, ast.Subscript):
            obj = self.eval(target.value)
            key = self.eval_index(target.slice)
            old = models.getitem(self, obj, key)
            value = self.eval(node.value)
            models.setitem(self, obj, key, self.binop(node.op, old, value))
        else:
            raise Unsupported("augmented assignment target")

    def assign(self, target, value):
        if isinstance(target, ast.Name):
            name = target.id
            frame = self.frame
            if name in frame.nonlocal_names:
                parent = frame.parent
                while parent is not None:
                    if name in parent.locals:
                        parent.locals[name] = value
                        return
                    parent = parent.parent
            frame.locals[name] = value
        elif isinstance(target, ast.Attribute):
            self.setattr(self.eval(target.value), target.attr, value)
        elif isinstance(target, ast.Subscript):
            obj = self.eval(target.value)
            key = self.eval_index(target.slice)
            models.setitem(self, obj, key, value)
        elif isinstance(target, (ast.Tuple, ast.List)):
            values = self.unpack(value, target.elts)
            for t, v in zip(target.elts, values):
                if isinstance(t, ast.Starred):
                    t = t.value
                self.assign(t, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, value, targets):
        n = len(targets)
        star = [k for k, t in enumerate(targets) if isinstance(t, ast.Starred)]
        if isinstance(value, models.GenList):
            value = value.items
        if value is None or is_int(value):
            self.throw(TypeError, "cannot unpack")
        if isinstance(value, SBytes):
            length = value.length()
            if not self.ctx.decide(mkbool((length if z3.is_expr(length)
                                           else I(length)) == n)):
                self.throw(ValueError, "unpack")
            return [mkint(bytes_at(self.ctx, value, I(k))) for k in range(n)]
        if isinstance(value, (bytes, str, range)):
            value = list(value)
        if isinstance(value, SDict):
            value = [e[0] for e in value.entries]
        if isinstance(value, dict):
            value = list(value)
        if isinstance(value, SStr):
            raise Unsupported("unpack of symbolic string")
        if isinstance(value, Opaque) and value.kind.startswith("tuple"):
            return [self.ctx.app(f"item{k}", (value,), "obj") for k in range(n)]
        if not isinstance(value, (list, tuple)):
            raise Unsupported(f"unpack of {kind_of(value)}")
        value = list(value)
        if any(isinstance(x, Splice) for x in value):
            total = self.seq_len(value)
            if not self.ctx.decide(mkbool(zi(total) == n)):
                self.throw(ValueError, "unpack")
            return [models.getitem(self, value, k) for k in range(n)]
        if star:
            k = star[0]
            after = n - k - 1
            if len(value) < n - 1:
                self.throw(ValueError, "unpack")
            return value[:k] + [value[k:len(value) - after]] + value[len(value) - after:]
        if len(value) != n:
            self.throw(ValueError, "unpack")
        return value

    def optional_text(self, node, cond):
        """Merges a statement that only writes a text if the condition holds."""
        ctx = self.ctx
        if ctx.no_fork or ctx.optional is not None or ctx.implied(
                cond.e) or ctx.implied(z3.Not(cond.e)):
            return False
        ctx.optional = []
        try:
            done = self.speculate(cond.e, lambda: self.eval(node.body[0].value))
            written = ctx.optional
        finally:
            ctx.optional = None
        if done is None or not written or not all(
                isinstance(text, str) for _, text in written):
            return False
        for writer, text in written:
            self.call(self.getattr(writer, "WriteText"), [
                models.optional_text(cond.e, text)], {})
        return True

    def exec_If(self, node):
        cond = self.truth(self.eval(node.test))
        if isinstance(cond, SBool) and not node.orelse and len(
                node.body) == 1 and isinstance(node.body[0], ast.Expr) and isinstance(
                    node.body[0].value, ast.Call) and self.optional_text(node, cond):
            return
        if self.ctx.decide(cond):
            self.exec_block(node.body)
        else:
            self.exec_block(node.orelse)

    def exec_Raise(self, node):
        if node.exc is None:
            for frame in reversed(self.frames):
                if frame.handling:
                    raise PyRaise(frame.handling[-1])
            raise Unsupported("bare raise")
        exc = self.eval(node.exc)
        if isinstance(exc, type) and issubclass(exc, BaseException):
            exc = ExcVal(exc, ())
        if not isinstance(exc, ExcVal):
            raise Unsupported("raise of non-exception")
        raise PyRaise(exc)

    def exec_Try(self, node):
        try:
            try:
                self.exec_block(node.body)
            except PyRaise as raised:
                exc = raised.value
                for handler in node.handlers:
                    if self.matches(exc, handler.type):
                        if handler.name:
                            self.frame.locals[handler.name] = exc
                        self.frame.handling.append(exc)
                        try:
                            self.exec_block(handler.body)
                        finally:
                            self.frame.handling.pop()
                            if handler.name:
                                self.frame.locals.pop(handler.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(node.orelse)
        except (PyRaise, ReturnValue, BreakLoop, ContinueLoop):
            self.exec_block(node.finalbody)
            raise
        else:
            self.exec_block(node.finalbody)

    def matches(self, exc, type_node):
        if type_node is None:
            return True
        types_ = self.eval(type_node)
        if not isinstance(types_, tuple):
            types_ = (types_,)
        for t in types_:
            if not isinstance(t, type):
                raise Unsupported("except type")
            if issubclass(exc.cls, t):
                return True
            if issubclass(t, exc.cls) and exc.fields.get("maybe_subclass"):
                raise Unsupported("imprecise exception")
        return False

    def exec_With(self, node):
        if len(node.items) != 1:
            raise Unsupported("multiple with items")
        item = node.items[0]
        manager = self.eval(item.context_expr)
        value = models.enter(self, manager)
        if item.optional_vars is not None:
            self.assign(item.optional_vars, value)
        try:
            self.exec_block(node.body)
        except PyRaise as raised:
            if models.exit(self, manager, raised.value):
                return
            raise
        except (ReturnValue, BreakLoop, ContinueLoop):
            models.exit(self, manager, None)
            raise
        models.exit(self, manager, None)

    def exec_FunctionDef(self, node):
        defaults = [self.eval(d) for d in node.args.defaults]
        kw = {a.arg: self.eval(d) for a, d in zip(
            node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        self.frame.locals[node.name] = Closure(node, self.frame, defaults, kw)

    # -- loops ---------------------------------------------------------------

    def concrete_guard(self, test):
        """Value of a loop guard if it is concrete without branching."""
        ctx = self.ctx
        if isinstance(test, ast.Constant):
            return "cut" if test.value else False
        ctx.no_fork += 1
        saved = {k: list(v) for k, v in ctx.apps.items()}
        try:
            v = self.eval(test)
            t = self.truth(v)
        except (NeedFork, PyRaise):
            t = "cut"
        finally:
            ctx.no_fork -= 1
            ctx.apps = saved
        if isinstance(t, SBool):
            return "cut"
        return t

    def first_iteration(self, node):
        """True if a loop is entered and its first iteration, taken apart from the
        others, defines a variable that is read after the loop."""
        body = self.frame.body
        if body is None:
            return False
        stored = {n.id for s in node.body for n in ast.walk(s)
                  if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        bound = {n.id for s in body for c in ast.walk(s)
                 if isinstance(c, ast.comprehension) for n in ast.walk(c.target)
                 if isinstance(n, ast.Name)}
        after = {}
        for n in sorted((n for s in body for n in ast.walk(s)
                         if isinstance(n, ast.Name) and n.lineno > node.end_lineno),
                        key=lambda n: (n.lineno, n.col_offset)):
            after.setdefault(n.id, n)
        # A variable that is assigned before it is read again is not read here.
        late = {name for name in stored - bound if name in after
                and isinstance(after[name].ctx, ast.Load)}
        if not any(name not in self.frame.locals for name in late):
            return False
        self.ctx.no_fork += 1
        saved = {k: list(v) for k, v in self.ctx.apps.items()}
        try:
            t = self.truth(self.eval(node.test))
        except (NeedFork, PyRaise):
            return False
        finally:
            self.ctx.no_fork -= 1
            self.ctx.apps = saved
        return isinstance(t, SBool) and self.ctx.implied(t.e)

    def exec_While(self, node):
        node = guarded(node)
        count = 0
        while True:
            guard = self.concrete_guard(node.test)
            if guard == "cut" and not (count == 0 and self.first_iteration(node)):
                break
            if not self.test(self.eval(node.test)):
                self.exec_block(node.orelse)
                return
            try:
                self.exec_block(node.body)
            except BreakLoop:
                return
            except ContinueLoop:
                pass
            count += 1
            if count > UNROLL_CAP:
                raise Unsupported("loop unrolling cap")
        act = self.coord.loop_entry(self, node, node.body, None)
        count = 0
        while True:
            if not self.test(self.eval(node.test)):
                self.exec_block(node.orelse)
                return
            try:
                self.exec_block(node.body)
            except BreakLoop:
                return
            except ContinueLoop:
                pass
            count = self.coord.loop_back(self, act, count)

    def exec_For(self, node):
        iterable = self.eval(node.iter)
        self.run_for(node, iterable, lambda v: self.assign(node.target, v),
                     lambda: self.exec_block(node.body), node.orelse,
                     [node.target] + node.body)

    def run_for(self, node, iterable, assign, body, orelse, nodes):
        it = models.make_iter(self, iterable)
        if isinstance(it, list):
            for value in it:
                assign(value)
                try:
                    body()
                except BreakLoop:
                    return
                except ContinueLoop:
                    pass
            if orelse:
                self.exec_block(orelse)
            return
        # symbolic length: small bound -> split on the length
        n = it.n
        if isinstance(n, SInt):
            bound = None
            if self.ctx.implied(n.e <= SMALL_BOUND, timeout=300):
                bound = SMALL_BOUND
            if bound is not None:
                for k in range(bound + 1):
                    if k == bound:
                        self.ctx.assume(n.e == k)
                        n = k
                        break
                    if self.ctx.decide(n.e == k):
                        n = k
                        break
        if isinstance(n, int):
            for k in range(n):
                assign(it.get(k))
                try:
                    body()
                except BreakLoop:
                    return
                except ContinueLoop:
                    pass
            if orelse:
                self.exec_block(orelse)
            return
        if self.ctx.implied(zi(n) == 0):
            if orelse:
                self.exec_block(orelse)
            return
        name = f"$it{getattr(node, 'lineno', 0)}_{getattr(node, 'col_offset', 0)}"
        self.frame.locals[name] = it
        act = self.coord.loop_entry(self, node, nodes, it)
        count = 0
        while True:
            if not self.ctx.decide(mkbool(zi(it.i) < zi(it.n))):
                self.frame.locals.pop(name, None)
                if orelse:
                    self.exec_block(orelse)
                return
            value = it.get(it.i)
            it.i = mkint(zi(it.i) + 1)
            assign(value)
            try:
                body()
            except BreakLoop:
                self.frame.locals.pop(name, None)
                return
            except ContinueLoop:
                pass
            count = self.coord.loop_back(self, act, count)

    # -- expressions ---------------------------------------------------------

    def eval(self, node):
        method = getattr(self, "eval_" + type(node).__name__, None)
        if method is None:
            raise Unsupported(f"expression {type(node).__name__}")
        return method(node)

    def eval_Constant(self, node):
        return node.value

    def eval_Name(self, node):
        return self.lookup(node.id)

    def lookup(self, name):
        frame = self.frame
        while frame is not None:
            if name in frame.locals:
                value = frame.locals[name]
                if isinstance(value, Undefined):
                    raise Unsupported(f"read of undetermined location {value.why}")
                return value
            if frame.parent is None:
                break
            frame = frame.parent
        if name in frame.globals:
            return frame.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.throw(NameError, name)

    def eval_NamedExpr(self, node):
        value = self.eval(node.value)
        self.assign(node.target, value)
        return value

    def eval_Attribute(self, node):
        return self.getattr(self.eval(node.value), node.attr)

    def eval_Tuple(self, node):
        return tuple(self.eval_elts(node.elts))

    def eval_List(self, node):
        return self.eval_elts(node.elts)

    def eval_elts(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value)
                if isinstance(v, models.GenList):
                    v = v.items
                if not isinstance(v, (list, tuple)):
                    it = models.make_iter(self, v)
                    if not isinstance(it, list):
                        raise Unsupported("starred expression")
                    v = it
                out.extend(v)
            else:
                out.append(self.eval(e))
        return out

    def eval_Set(self, node):
        return models.make_set(self, [self.eval(e) for e in node.elts])

    def eval_Dict(self, node):
        d = SDict()
        for k, v in zip(node.keys, node.values):
            if k is None:
                other = self.eval(v)
                for kk, vv in models.dict_items(self, other):
                    models.setitem(self, d, kk, vv)
            else:
                models.setitem(self, d, self.eval(k), self.eval(v))
        return d

    def eval_JoinedStr(self, node):
        parts = []
        for value in node.values:
            if isinstance(value, ast.Constant):
                parts.append(value.value)
            else:
                spec = ""
                if value.format_spec is not None:
                    spec = self.eval(value.format_spec)
                    if isinstance(spec, SStr):
                        raise Unsupported("symbolic format spec")
                v = self.eval(value.value)
                parts.extend(str_parts(
                    models.format_value(self, v, spec, value.conversion)))
        return models.mkstr(parts)

    def eval_FormattedValue(self, node):
        return self.eval_JoinedStr(ast.JoinedStr(values=[node]))

    def eval_UnaryOp(self, node):
        v = self.eval(node.operand)
        if isinstance(node.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else mkbool(z3.Not(t.e))
        if v is None or isinstance(v, (str, bytes, SStr, SBytes)):
            self.throw(TypeError, "bad operand type")
        if isinstance(v, float):
            return -v if isinstance(node.op, ast.USub) else v
        if isinstance(v, Opaque):
            return self.ctx.app("unary" + type(node.op).__name__, (v,), v.kind)
        if isinstance(node.op, ast.USub):
            return -v if isinstance(v, int) else mkint(-zi(v))
        if isinstance(node.op, ast.Invert):
            return ~v if isinstance(v, int) else mkint(-zi(v) - 1)
        return v

    def eval_BoolOp(self, node):
        ctx = self.ctx
        is_and = isinstance(node.op, ast.And)
        values = node.values
        v = self.eval(values[0])
        for k, nxt in enumerate(values[1:]):
            t = self.truth(v)
            if isinstance(t, bool):
                if t != is_and:
                    return v
                v = self.eval(nxt)
                continue
            # try to build a formula without branching
            if isinstance(v, (bool, SBool)):
                merged = self.speculate(t.e if is_and else z3.Not(t.e),
                                        lambda n=nxt: self.eval(n))
                if merged is not None and isinstance(merged[0], (bool, SBool)):
                    other = zb(merged[0])
                    v = mkbool(z3.And(t.e, other) if is_and
                               else z3.Or(t.e, other))
                    continue
            if ctx.decide(t) != is_and:
                return v
            v = self.eval(nxt)
        return v

    def speculate(self, cond, thunk):
        """Evaluates thunk under an assumption without branching.

        Returns a 1-tuple with the value or None if it had to branch, raise or
        would leave effects.
        """
        ctx = self.ctx
        ctx.solver.push()
        n = len(ctx.constraints)
        saved_bytes = set(ctx.byte_terms)
        saved_memo, ctx.memo_true = ctx.memo_true, {}
        ctx.no_fork += 1
        saved_apps = {k: list(v) for k, v in ctx.apps.items()}
        effects = ctx.events
        try:
            ctx.constraints.append(cond)
            ctx.solver.add(cond)
            value = thunk()
            if ctx.events != effects:
                raise Unsupported("effect in speculation")
            return (value,)
        except (NeedFork, PyRaise, Unsupported):
            if ctx.events != effects:
                raise Unsupported("effect in speculation")
            return None
        finally:
            ctx.no_fork -= 1
            ctx.solver.pop()
            new = ctx.constraints[n:]
            del ctx.constraints[n:]
            ctx.apps = saved_apps
            ctx.byte_terms = saved_bytes
            ctx.memo_true = saved_memo

    def eval_IfExp(self, node):
        t = self.truth(self.eval(node.test))
        if isinstance(t, bool):
            return self.eval(node.body if t else node.orelse)
        a = self.speculate(t.e, lambda: self.eval(node.body))
        if a is not None:
            b = self.speculate(z3.Not(t.e), lambda: self.eval(node.orelse))
            if b is not None:
                merged = models.merge(self, t.e, a[0], b[0])
                if merged is not None:
                    return merged[0]
        if self.ctx.decide(t):
            return self.eval(node.body)
        return self.eval(node.orelse)

    def eval_Compare(self, node):
        left = self.eval(node.left)
        result = True
        for op, right_node in zip(node.ops, node.comparators):
            right = self.eval(right_node)
            r = self.compare(op, left, right)
            if result is True:
                result = r
            else:
                result = mkbool(z3.And(zb(result), zb(r)))
            if result is False:
                return False
            left = right
        return result

    def compare(self, op, a, b):
        ctx = self.ctx
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identity(a, b)
            return models.negate(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = models.contains(self, b, a)
            return models.negate(r) if isinstance(op, ast.NotIn) else r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = models.eq(self, a, b)
            return models.negate(r) if isinstance(op, ast.NotEq) else r
        if is_int(a) and is_int(b):
            if isinstance(a, int) and isinstance(b, int):
                return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b,
                        ast.GtE: a >= b}[type(op)]
            ea, eb = zi(a), zi(b)
            return mkbool({ast.Lt: ea < eb, ast.LtE: ea <= eb, ast.Gt: ea > eb,
                           ast.GtE: ea >= eb}[type(op)])
        if a is None or b is None:
            self.throw(TypeError, "comparison with None")
        if not is_symbolic(a) and not is_symbolic(b):
            try:
                return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
                        ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
            except TypeError:
                self.throw(TypeError, "comparison")
        if isinstance(op, (ast.Gt, ast.GtE)):
            a, b = b, a
        strict = isinstance(op, (ast.Lt, ast.Gt))
        return ctx.app("cmpLt" if strict else "cmpLtE", (a, b), "bool")

    def identity(self, a, b):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, Undefined) or isinstance(b, Undefined):
                raise Unsupported("read of undetermined location")
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                return eq_formula(self.ctx, a, b)
            other = b if a is None else a
            if isinstance(other, Opaque) and (a is None or b is None):
                if other.kind == "maybe":
                    return self.ctx.app("is_none", (other,), "bool")
                return False
            if isinstance(other, SStr) and (a is None or b is None):
                return models.is_missing(self, other)
            return a is b
        return a is b

    def eval_BinOp(self, node):
        return self.binop(node.op, self.eval(node.left), self.eval(node.right))

    def binop(self, op, a, b):
        return models.binop(self, op, a, b)

    def eval_index(self, node):
        if isinstance(node, ast.Slice):
            return slice(
                self.eval(node.lower) if node.lower else None,
                self.eval(node.upper) if node.upper else None,
                self.eval(node.step) if node.step else None)
        return self.eval(node)

    def eval_Subscript(self, node):
        obj = self.eval(node.value)
        key = self.eval_index(node.slice)
        return models.getitem(self, obj, key)

    def eval_Lambda(self, node):
        return Closure(node, self.frame, [self.eval(d) for d in node.args.defaults],
                       {})

    def eval_Starred(self, node):
        raise Unsupported("starred expression")

    def eval_Call(self, node):
        func = node.func
        if isinstance(func, ast.Name) and func.id == "super" and not node.args:
            frame = self.frame
            while frame is not None and frame.cls is None:
                frame = frame.parent
            return models.SuperProxy(frame.cls, frame.self_obj)
        fn = self.eval(func)
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                it = models.make_iter(self, v)
                if not isinstance(it, list):
                    raise Unsupported("star argument of symbolic length")
                args.extend(it)
            else:
                args.append(self.eval(a))
        kwargs = {}
        for k in node.keywords:
            if k.arg is None:
                v = self.eval(k.value)
                for kk, vv in models.dict_items(self, v):
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value)
        return self.call(fn, args, kwargs)

    def comprehension(self, node, emit):
        # comprehension scope: a child frame sharing the enclosing variables
        outer = self.frame
        frame = Frame("<comp>", outer.globals, parent=outer, cls=outer.cls,
                      self_obj=outer.self_obj)
        iterable0 = self.eval(node.generators[0].iter)
        self.frames.append(frame)
        try:
            def level(k):
                if k == len(node.generators):
                    emit()
                    return
                gen = node.generators[k]
                iterable = iterable0 if k == 0 else self.eval(gen.iter)

                def body():
                    for cond in gen.ifs:
                        if not self.test(self.eval(cond)):
                            return
                    level(k + 1)

                self.run_for(gen.iter, iterable,
                             lambda v: self.assign(gen.target, v),
                             body, None, [gen.target])
            level(0)
        finally:
            self.frames.pop()

    def eval_ListComp(self, node):
        out = []
        self.frame.locals[f"$comp{node.lineno}_{node.col_offset}"] = out
        name = f"$comp{node.lineno}_{node.col_offset}"
        frame = self.frame
        self.comprehension(node, lambda: models.list_append(
            self, out, self.eval(node.elt)))
        frame.locals.pop(name, None)
        return out

    def eval_GeneratorExp(self, node):
        return models.GenList(self.eval_ListComp(node))

    def eval_SetComp(self, node):
        return models.make_set(self, self.eval_ListComp(node))

    def eval_DictComp(self, node):
        out = SDict()
        name = f"$comp{node.lineno}_{node.col_offset}"
        self.frame.locals[name] = out
        frame = self.frame

        def emit():
            key = self.eval(node.key)
            models.setitem(self, out, key, self.eval(node.value))
        self.comprehension(node, emit)
        frame.locals.pop(name, None)
        return out

    def frame_yields(self):
        for frame in reversed(self.frames):
            if frame.yields is not None:
                return frame.yields
        raise Unsupported("yield outside generator")

    def eval_Yield(self, node):
        value = self.eval(node.value) if node.value else None
        models.list_append(self, self.frame_yields(), value)
        return None

    def eval_YieldFrom(self, node):
        value = self.eval(node.value)
        models.list_extend(self, self.frame_yields(), value)
        return None

    # -- attributes ----------------------------------------------------------

    def getattr(self, obj, name, default=models.MISSING):
        return models.get_attribute(self, obj, name, default)

    def setattr(self, obj, name, value):
        self.ctx.events += 1
        if isinstance(obj, SObj):
            for klass in obj.cls.__mro__:
                attr = klass.__dict__.get(name)
                if isinstance(attr, property):
                    if attr.fset is None:
                        self.throw(AttributeError, name)
                    self.call_function(attr.fset, [obj, value], {})
                    return
            obj.fields[name] = value
            return
        if isinstance(obj, ExcVal):
            obj.fields[name] = value
            return
        if isinstance(obj, (models.SFile, models.SWriter, Opaque)):
            if isinstance(obj, Opaque):
                obj.attrs[name] = value
                return
        if obj is None:
            self.throw(AttributeError, name)
        raise Unsupported(f"attribute assignment on {kind_of(obj)}")

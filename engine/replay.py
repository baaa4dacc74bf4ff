"""Concrete execution of contracts on the real code (CPython).

The same drivers that are verified symbolically are run natively: `code` against
the functions in /repo and `spec` as the oracle.
"""

import base64
import io
import math
import logging
import random
import os
import signal
import traceback
import sys
import time
import uuid

from engine import speclib


class Hang(BaseException):
    """The code under contract did not finish in time."""


class ConcreteFile:
    """File with the interface the contracts assume."""

    def __init__(self, content, faults=()):
        self.content = bytes(content)
        self.size = len(content)
        self.faults = set(faults)
        self.pos = 0
        self.closed = False

    def seek(self, offset, whence=0):
        base = {0: 0, 1: self.pos, 2: self.size}.get(whence)
        if base is None:
            raise ValueError("whence")
        if base + offset < 0:
            raise OSError("negative seek")
        self.pos = base + offset
        return self.pos

    def tell(self):
        return self.pos

    get_offset = tell

    def get_size(self):
        return self.size

    def read(self, size=None):
        if self.pos in self.faults:
            raise OSError("I/O error")
        if size is None or size < 0:
            data = self.content[self.pos:]
        else:
            data = self.content[self.pos:self.pos + size]
        self.pos += len(data)
        return data

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


class ConcreteSeq:
    """Arbitrary sequence of integers."""

    def __init__(self, values):
        self.values = list(values)

    def __getitem__(self, index):
        if 0 <= index < len(self.values):
            return self.values[index]
        return 0


class ConcreteWriter:
    def __init__(self, trace=True):
        self.text = ""
        self.trace = trace

    def WriteText(self, text):
        frame = None if self.trace else sys._getframe(1)
        while frame is not None:
            if frame.f_code.co_name == "_ReadStructureFromFileObject":
                return
            frame = frame.f_back
        self.text += text

    def Open(self):
        pass

    def Close(self):
        pass


_INTERESTING = [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256,
                4095, 4096, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1,
                2**32, 2**63 - 1, 2**63, 2**64 - 1, -1, -2, -8, -128, -32768, -2**31]


def gen_int(rng, lo, hi):
    for _ in range(8):
        r = rng.random()
        if r < 0.35:
            v = rng.randint(0, 24)
        elif r < 0.6:
            v = rng.choice(_INTERESTING)
        elif r < 0.7 and lo is not None:
            v = lo + rng.randint(0, 4)
        elif r < 0.8 and hi is not None:
            v = hi - rng.randint(0, 4)
        elif r < 0.9:
            v = rng.getrandbits(rng.choice([4, 8, 16, 32, 64]))
        else:
            v = -rng.randint(0, 40)
        if (lo is None or v >= lo) and (hi is None or v <= hi):
            return v
    lo = lo if lo is not None else -100
    hi = hi if hi is not None else lo + 200
    return rng.randint(lo, hi)


def gen_bytes(rng, n):
    r = rng.random()
    if r < 0.15:
        return bytes(n)
    if r < 0.3:
        return bytes([rng.choice([0, 1, 0x7F, 0x80, 0xFF])] * n)
    if r < 0.6:
        return bytes(rng.choice([0, 1, 2, 3, 4, 8, 16, 0x20, 0x41, 0x7E, 0x7F, 0x80,
                                 0x81, 0xFE, 0xFF]) for _ in range(n))
    return bytes(rng.getrandbits(8) for _ in range(n))


def gen_param(param, rng):
    kw = param.kw
    if param.kind == "int":
        if kw.get("cap") is not None:
            return rng.randint(kw.get("lo") or 0, kw["cap"])
        return gen_int(rng, kw.get("lo"), kw.get("hi"))
    if param.kind == "bool":
        return rng.random() < 0.5
    if param.kind == "bytes":
        if kw.get("n") is not None:
            return gen_bytes(rng, kw["n"])
        hi = kw.get("max")
        n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 64,
                        65, 100])
        n = max(n, kw.get("min", 0))
        if hi is not None:
            n = min(n, hi)
        return gen_bytes(rng, n)
    if param.kind == "file":
        return gen_bytes(rng, rng.choice([0, 1, 3, 4, 8, 15, 16, 20, 32, 64, 100, 200]))
    if param.kind == "str":
        samples = kw.get("samples")
        if samples and rng.random() < 0.7:
            return rng.choice(samples)
        return "".join(rng.choice("abcXYZ/\\.: 019é\u4e2d\x00") for _ in range(
            rng.randint(0, 12)))
    if param.kind == "intseq":
        return [gen_int(rng, kw.get("lo"), kw.get("hi")) if rng.random() < 0.6
                else rng.randint(0, 9) for _ in range(90)]
    if param.kind == "ints":
        n = max(rng.choice([0, 1, 2, 3, 4, 5, 8, 16]), kw.get("min", 0))
        if kw.get("max") is not None:
            n = min(n, kw["max"])
        return [gen_int(rng, kw.get("lo"), kw.get("hi")) for _ in range(n)]
    if param.kind == "intlist":
        return [gen_int(rng, kw.get("lo"), kw.get("hi")) for _ in range(kw["n"])]
    if param.kind == "const":
        return kw["value"]
    if param.kind == "choice":
        return rng.choice(kw["values"])
    if param.kind == "float":
        return rng.choice([0.0, 1.5, -2.25, 1e9, 123456.789])
    return None


def native_value(param, value, trace=False):
    """Fresh native object of a generated input."""
    if param.kind == "file":
        return ConcreteFile(value)
    if param.kind == "intseq":
        return ConcreteSeq(value)
    if param.kind == "writer":
        return ConcreteWriter(trace)
    if param.kind in ("ints", "intlist"):
        return list(value)
    return value


def call(fn, contract, inputs, seconds=2.0):
    """Outcome of a driver: ('return', value), ('raise', class name) or hang."""
    kwargs = {name: native_value(param, inputs[name], contract.trace)
              for name, param in contract.params.items()}

    written = [v for v in kwargs.values() if isinstance(v, ConcreteWriter)]

    def on_alarm(signum, frame):
        raise Hang()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        value = fn(**kwargs)
        if hasattr(value, "__next__"):
            value = list(value)
        return ("return", value) + tuple(w.text for w in written)
    except Hang:
        return ("hang",)
    except MemoryError:
        return ("hang",)
    except RecursionError:
        return ("raise", "RecursionError") + tuple(w.text for w in written)
    except Exception as exception:  # pylint: disable=broad-except
        if os.environ.get("VERIF_TRACE"):
            traceback.print_exc()
        if unbound(exception):
            return ("unbound", repr(exception))
        return ("raise", type(exception).__name__) + tuple(
            w.text for w in written)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def unbound(exception):
    """True if a driver does not fit the interface of the code any more."""
    if not isinstance(exception, (AttributeError, TypeError, NameError, ImportError)):
        return False
    tb = exception.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return "/contracts/" in tb.tb_frame.f_code.co_filename


def match(code, spec, depth=0):
    """True if a result of the code is the specified one."""
    if depth > 14:
        return True
    if isinstance(spec, speclib.Rec):
        return all(hasattr(code, k) and match(getattr(code, k), v, depth + 1)
                   for k, v in vars(spec).items())
    if hasattr(code, "__next__"):
        code = list(code)
    if isinstance(spec, (list, tuple)) and isinstance(code, (list, tuple)):
        return len(code) == len(spec) and all(
            match(a, b, depth + 1) for a, b in zip(code, spec))
    if isinstance(spec, dict) and isinstance(code, dict):
        return list(code) == list(spec) and all(
            match(code[k], spec[k], depth + 1) for k in spec)
    return normalize(code) == normalize(spec)


def normalize(value, depth=0):
    if depth > 12:
        return repr(value)
    if isinstance(value, (list, tuple)):
        return (type(value).__name__,) + tuple(
            normalize(v, depth + 1) for v in value)
    if isinstance(value, dict):
        return ("dict",) + tuple(sorted(
            (repr(k), normalize(v, depth + 1)) for k, v in value.items()))
    if isinstance(value, bool):
        return ("bool", value)
    if isinstance(value, (int, str, bytes, type(None))):
        return value
    if isinstance(value, bytearray):
        return bytes(value)
    if isinstance(value, float):
        return ("float", repr(value))
    if isinstance(value, uuid.UUID):
        return ("uuid", str(value))
    if hasattr(value, "__next__"):
        return ("list",) + tuple(normalize(v, depth + 1) for v in value)
    if hasattr(value, "__dict__"):
        return (type(value).__name__,) + tuple(sorted(
            (k, normalize(v, depth + 1)) for k, v in vars(value).items()
            if not k.startswith("__")))
    return repr(value)


def outcomes(contract, inputs):
    if contract.pre is not None:
        pre = call(contract.pre, contract, inputs)
        if pre[:2] != ("return", True):
            return None
    spec = call(contract.spec, contract, inputs)
    if spec[0] == "hang":
        return None
    code = call(contract.code, contract, inputs)
    return code, spec


def differs(contract, inputs):
    """None or (code outcome, spec outcome) if they differ on these inputs."""
    pair = outcomes(contract, inputs)
    if pair is None:
        return None
    code, spec = pair
    if code[0] == "unbound":
        return None
    if code[0] == spec[0] == "return":
        if match(code[1], spec[1]) and code[2:] == spec[2:]:
            return None
    elif code[:2] == spec[:2] and code[0] != "return":
        return None
    return tuple((o[0], normalize(o[1])) + o[2:] if o[0] == "return" else o
                 for o in (code, spec))


def generate(contract, rng):
    if contract.gen is not None and rng.random() < 0.85:
        inputs = contract.gen(rng)
        for name, param in contract.params.items():
            if name not in inputs:
                inputs[name] = gen_param(param, rng)
        return inputs
    return {name: gen_param(param, rng) for name, param in contract.params.items()}


def silence(contract):
    """Turns the debug output functions a contract leaves out into no-ops."""
    import importlib
    for key, stub in (contract.stubs or {}).items():
        if getattr(stub, "__name__", "") != "nothing":
            continue
        parts = key.split(".")
        try:
            owner = getattr(importlib.import_module(".".join(parts[:-2])), parts[-2])
        except (ImportError, AttributeError):
            continue
        if hasattr(owner, parts[-1]):
            setattr(owner, parts[-1], lambda *a, **k: None)
    logging.disable(logging.CRITICAL)


def search(contract, seed, seconds, first=(), max_cases=100000):
    """Searches a failing input; returns (inputs, code, spec) or None, count."""
    silence(contract)
    deadline = time.time() + seconds
    count = 0
    for inputs in first:
        if inputs is None:
            continue
        for name, param in contract.params.items():
            if name not in inputs:
                break
        else:
            count += 1
            try:
                d = differs(contract, inputs)
            except Exception:  # pylint: disable=broad-except
                d = None
            if d:
                return (inputs,) + d, count
    rng = random.Random(seed)
    while time.time() < deadline and count < max_cases:
        inputs = generate(contract, rng)
        count += 1
        d = differs(contract, inputs)
        if d:
            return (inputs,) + d, count
    return None, count


def jsonable(value):
    if isinstance(value, (bytes, bytearray)):
        return {"bytes": bytes(value).hex()}
    if isinstance(value, (list, tuple)):
        return [jsonable(v) for v in value]
    if isinstance(value, dict):
        return {str(k): jsonable(v) for k, v in value.items()}
    if isinstance(value, (int, str, bool, type(None), float)):
        return value
    return repr(value)


def unjson(value):
    if isinstance(value, dict):
        if set(value) == {"bytes"}:
            return bytes.fromhex(value["bytes"])
        return {k: unjson(v) for k, v in value.items()}
    if isinstance(value, list):
        return [unjson(v) for v in value]
    return value

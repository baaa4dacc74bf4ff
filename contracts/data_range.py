"""Contracts of the in-file data range."""

from dtformats import data_range

from engine.verify import Contract, File, Int, IntSeq


def pick_size(value):
    # -1000 stands for None (no size given)
    if value == -1000:
        return None
    return value


def code_history(f, offset, size, n, ops):
    results = []
    range_object = data_range.DataRange(f, data_offset=offset, data_size=size)
    for i in range(n):
        op = ops[3 * i]
        a = ops[3 * i + 1]
        b = ops[3 * i + 2]
        try:
            if op == 0:
                results.append(range_object.read(pick_size(a)))
            elif op == 1:
                results.append(range_object.read())
            elif op == 2:
                results.append(range_object.seek(a))
            elif op == 3:
                results.append(range_object.seek(a, b))
            elif op == 4:
                results.append(range_object.tell())
            elif op == 5:
                results.append(range_object.get_offset())
            elif op == 6:
                results.append(range_object.get_size())
            elif op == 7:
                f.seek(b * b, 0)
            else:
                results.append(range_object.seekable())
        except OSError:
            results.append("OSError")
    return results


def spec_history(f, offset, size, n, ops):
    results = []
    content = f.content
    position = 0
    for i in range(n):
        op = ops[3 * i]
        a = ops[3 * i + 1]
        b = ops[3 * i + 2]
        if op == 0 or op == 1:
            if offset < 0 or size < 0:
                results.append("OSError")
            else:
                count = size - position
                if op == 0 and a >= 0:
                    count = min(count, a)
                if count < 0:
                    count = 0
                data = content[offset + position : offset + position + count]
                results.append(data)
                position += len(data)
        elif op == 2 or op == 3:
            target = a
            valid = size >= 0
            if op == 3:
                if b == 1:
                    target = position + a
                elif b == 2:
                    target = size + a
                elif b != 0:
                    valid = False
            if valid and target >= 0:
                position = target
                results.append(None)
            else:
                results.append("OSError")
        elif op == 4 or op == 5:
            results.append(position)
        elif op == 6:
            results.append(size)
        elif op == 7:
            pass
        else:
            results.append(True)
    return results


CONTRACTS = [
    Contract(
        "P01", "data_range.history", code_history, spec_history,
        {"f": File(), "offset": Int(), "size": Int(), "n": Int(lo=0, cap=12),
         "ops": IntSeq()},
        targets=["dtformats.data_range.DataRange." + m for m in (
            "__init__", "read", "seek", "tell", "get_offset", "get_size",
            "seekable")]),
]

"""Contracts of the Safari cookies format."""

import datetime

from dtformats import errors
from dtformats import safari_cookies

from contracts import show
from contracts.windows_records import cut, missing
from engine.speclib import find_terminator, float_of, u
from engine.verify import Bool, Bytes, Contract, File, Float, Int, Writer

B = "dtformats.safari_cookies.BinaryCookiesFile."


def code_time(value):
    return safari_cookies.BinaryCookiesFile()._FormatFloatingPointAsCocoaTime(value)


def time_text(value):
    try:
        date = datetime.datetime(2001, 1, 1) + datetime.timedelta(seconds=int(value))
    except (OverflowError, ValueError):
        return f"{value:f}"
    return f"{date!s} ({value:f})"


def code_record(data, offset, debug, writer):
    o = safari_cookies.BinaryCookiesFile(debug=debug, output_writer=writer)
    o._ReadRecord(data, offset)


def string_at(data, offset, relative):
    if relative == 0:
        return ""
    rest = data[offset + relative:]
    end = find_terminator(rest, b"\0", 1)
    if end >= 0:
        try:
            return rest[:end].decode("ascii").rstrip("\0")
        except UnicodeDecodeError:
            pass
    raise errors.ParseError("invalid string")


def spec_record(data, offset, debug, writer):
    record = data[offset:]
    missing(record, 56)
    if debug:
        writer.WriteText(
            show.block("Record data", show.dump(data[offset : offset + u(record, 0, 4)]))
            + show.line("Size", f"{u(record, 0, 4):d}")
            + show.line("Unknown1", f"0x{u(record, 4, 4):08x}")
            + show.line("Flags", f"0x{u(record, 8, 4):08x}")
            + show.line("Unknown2", f"0x{u(record, 12, 4):08x}")
            + show.line("URL offset", f"{u(record, 16, 4):d}")
            + show.line("Name offset", f"{u(record, 20, 4):d}")
            + show.line("Path offset", f"{u(record, 24, 4):d}")
            + show.line("Value offset", f"{u(record, 28, 4):d}")
            + show.line("Unknown3", f"0x{u(record, 32, 8):08x}")
            + show.line("Expiration time", time_text(float_of(record[40:48], "little")))
            + show.line("Creation time", time_text(float_of(record[48:56], "little")))
            + "\n")
    text = string_at(data, offset, u(record, 16, 4))
    if debug:
        writer.WriteText(show.line("URL", text))
    text = string_at(data, offset, u(record, 20, 4))
    if debug:
        writer.WriteText(show.line("Name", text))
    text = string_at(data, offset, u(record, 24, 4))
    if debug:
        writer.WriteText(show.line("Path", text))
    text = string_at(data, offset, u(record, 28, 4))
    if debug:
        writer.WriteText(show.line("Value", text) + "\n")


def read_record(page, offset, debug, writer):
    spec_record(page, offset, debug, writer)


def code_page(f, offset, size, debug, writer):
    o = safari_cookies.BinaryCookiesFile(debug=debug, output_writer=writer)
    o._ReadPage(f, offset, size)


def spec_page(f, offset, size, debug, writer):
    page = f.content[offset : offset + size]
    missing(page, size)
    missing(page, 8)
    count = u(page, 4, 4)
    missing(page, 8 + 4 * count)
    if debug:
        writer.WriteText(
            show.block("Page header data", show.dump(page[: 8 + 4 * count]))
            + show.line("Signature", f"0x{u(page, 0, 4):08x}")
            + show.line("Number of records", f"{count:d}"))
    offsets = []
    for index in range(count):
        offsets.append(u(page, 8 + 4 * index, 4))
        if debug:
            writer.WriteText(show.line(f"Record: {index:d} offset",
                                       f"{u(page, 8 + 4 * index, 4):d}"))
    if count > 0 and debug:
        writer.WriteText("\n")
    for record_offset in offsets:
        read_record(page, record_offset, debug, writer)


def code_file(f, debug, writer):
    o = safari_cookies.BinaryCookiesFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)


def read_page(f, offset, size, debug, writer):
    spec_page(f, offset, size, debug, writer)


def spec_file(f, debug, writer):
    data = f.content
    missing(data, 8)
    if data[:4] != b"cook":
        raise errors.ParseError("unsupported signature")
    count = u(data, 4, 4, "big")
    if debug:
        writer.WriteText(show.line("Signature", str(data[:4]))
                         + show.line("Number of pages", f"{count:d}") + "\n")
    sizes = data[8 : 8 + 4 * count]
    page_sizes = []
    if count > 0:
        missing(sizes, 4 * count)
        if debug:
            writer.WriteText(show.block("Page sizes data", show.dump(sizes)))
        for index in range(count):
            page_sizes.append(u(sizes, 4 * index, 4, "big"))
            if debug:
                writer.WriteText(show.line(f"Page: {index:d} size",
                                           f"{u(sizes, 4 * index, 4, 'big'):d}"))
        if debug:
            writer.WriteText("\n")
    offset = 8 + 4 * count
    for size in page_sizes:
        read_page(f, offset, size, debug, writer)
        offset += size
    missing(data[offset:], 8)


def double(rng):
    import struct
    return struct.pack("<d", rng.choice([
        0.0, -1.0, 1e300, float("nan"), float("inf"), 252455616000.0, 252455615999.5,
        -63113904000.0, -63113904001.0, rng.uniform(0, 1e9), 9e14]))


def record_data(rng):
    texts = [rng.choice([b"", b"a", b".example.com", b"\xe9", b"x\ny"]) + b"\0"
             for _ in range(4)]
    data = b""
    offsets = [0] * 4
    for index in rng.choice([range(4), rng.sample(range(4), 4)]):
        offsets[index] = rng.choice([0, 56 + len(data), 56 + len(data)])
        data += texts[index]
    offsets = b"".join(offset.to_bytes(4, "little") for offset in offsets)
    size = 56 + len(data) + rng.choice([0, 0, 0, 4])
    return size.to_bytes(4, "little") + bytes(rng.getrandbits(8) for _ in range(12)) + (
        offsets + bytes(rng.getrandbits(8) for _ in range(8)) + double(rng) + double(rng)
        + data[: len(data) - rng.choice([0, 0, 0, 1])])


def page_data(rng):
    records = [record_data(rng) for _ in range(rng.choice([0, 1, 1, 2]))]
    offset = 8 + 4 * len(records) + 4
    data = b"\0\0\1\0" + len(records).to_bytes(4, "little")
    for record in records:
        data += rng.choice([offset, offset, offset, offset + 1, 2000]).to_bytes(4, "little")
        offset += len(record)
    return data + bytes(4) + b"".join(records)


def gen_record(rng):
    offset = rng.choice([0, 3, 10])
    return {"data": cut(rng, bytes(offset) + record_data(rng)), "offset": offset}


def gen_page(rng):
    page = page_data(rng)
    offset = rng.choice([0, 8, 100])
    return {"f": bytes(offset) + page + bytes(rng.choice([0, 10])), "offset": offset,
            "size": max(0, len(page) - rng.choice([0, 0, 0, 1, 20, 1000]))}


def gen_file(rng):
    pages = [page_data(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    data = rng.choice([b"cook", b"cook", b"cook", b"Cook"]) + len(pages).to_bytes(4, "big")
    for page in pages:
        data += (len(page) + rng.choice([0, 0, 0, 0, 1])).to_bytes(4, "big")
    return {"f": cut(rng, data + b"".join(pages) + bytes(8))}


def after_page(interp, args):
    """The position after a page is the end of the page."""
    from engine import core, models
    f, offset, size = args[-3:]
    if hasattr(f, "pos"):
        f.pos = models.mkint(models.zi(offset) + models.zi(size))


STUBS = {**show.STUBS, B + "_FormatFloatingPointAsCocoaTime": show.pure_time("cocoa"),
         "contracts.safari_cookies.time_text": show.pure_time("cocoa")}
RECORD = {B + "_ReadRecord": show.effect("record", show.method_input),
          "contracts.safari_cookies.read_record": show.effect(
              "record", show.function_input)}
PAGE = {B + "_ReadPage": show.effect("page", show.method_input, after_page),
        "contracts.safari_cookies.read_page": show.effect("page", show.function_input)}

CONTRACTS = [
    Contract("P10", "safari_cookies.time", code_time, time_text, {"value": Float()},
             targets=[B + "_FormatFloatingPointAsCocoaTime"]),
    Contract("P10", "safari_cookies.record", code_record, spec_record,
             {"data": Bytes(), "offset": Int(0, 2 ** 32 - 1), "debug": Bool(),
              "writer": Writer()}, gen=gen_record, stubs=STUBS,
             targets=[B + "_ReadRecord", B + "_ReadCString",
                      B + "_DebugPrintRecordHeader"]),
    Contract("P10", "safari_cookies.page", code_page, spec_page,
             {"f": File(), "offset": Int(0, 2 ** 40), "size": Int(0, 2 ** 32 - 1),
              "debug": Bool(), "writer": Writer()}, gen=gen_page,
             stubs={**STUBS, **RECORD}, targets=[B + "_ReadPage"]),
    Contract("P10", "safari_cookies.file", code_file, spec_file,
             {"f": File(), "debug": Bool(), "writer": Writer()}, gen=gen_file,
             stubs={**STUBS, **PAGE},
             targets=[B + "ReadFileObject", B + "_ReadFileHeader", B + "_ReadPages",
                      B + "_ReadFileFooter", B + "_DebugPrintFileHeader"]),
]

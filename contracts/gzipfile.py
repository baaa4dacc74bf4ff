"""Contracts of the gzip compressed stream format."""

import ast
import zlib

from dtformats import errors
from dtformats import gzipfile

from contracts import show
from contracts.windows_records import cut, missing, word
from engine import models
from engine.speclib import find_terminator, s, u
from engine.verify import Bool, Contract, File, Int, Writer

G = "dtformats.gzipfile.GZipFile."


def deflate_end(data):
    """Size of the deflate stream at the start, -1 if invalid and -2 if incomplete."""
    decompressor = zlib.decompressobj(-zlib.MAX_WBITS)
    try:
        decompressor.decompress(data)
    except zlib.error:
        return -1
    if not decompressor.eof:
        return -2
    return len(data) - len(decompressor.unused_data)


class Decompressor:
    """Call-site contract of zlib.decompressobj.

    The data given has to be the data of the file from the first data given on, without
    gaps. The decompressor ends at the end of the deflate stream, what follows is unused.
    """

    def __init__(self):
        self.eof = False
        self.unused_data = b""
        self.size = 0

    def decompress(self, data):
        if self.eof:
            self.unused_data = self.unused_data + data
            return b""
        end = stream_end(data, self.size)
        if end == -1:
            raise zlib.error("invalid data")
        self.size += len(data)
        if end >= 0 and self.size >= end:
            self.eof = True
            self.unused_data = data[len(data) - (self.size - end) :]
        return decompressed(data)


def stream_end(data, size):
    """Size of the deflate stream that has the data at an offset, in proofs only."""
    raise NotImplementedError


def decompressed(data):
    """What is decompressed of the data, in proofs only."""
    raise NotImplementedError


def end_stub(interp, args, kwargs):
    """The end of a deflate stream is a function of its position in the file."""
    data = args[0]
    if not interp.ctx.decide(models.mkbool(data.length() > 0)):
        return -2
    offset = models.mkint(data.segs[0].off)
    if len(args) > 1:
        offset = models.binop(interp, ast.Sub(), offset, args[1])
    end = interp.ctx.app("deflate_end", (offset,), "int", lo=-2)
    if data.segs[0].src is not None and kwargs.get("whole"):
        interp.ctx.assume(end.e <= data.length())
    return end


def code_compressed(f, offset):
    if offset > f.size:
        return offset
    o = gzipfile.GZipFile()
    f.seek(offset)
    o._ReadMemberCompressedData(f)
    return f.tell()


def spec_compressed(f, offset):
    data = f.content[offset:]
    end = deflate_end(data)
    size = 0
    if end >= 0:
        while size < len(data):
            size += min(gzipfile.GZipFile._BUFFER_SIZE, len(data) - size)
            if size >= end:
                break
        return offset + end
    while size < len(data):
        if end == -1:
            raise errors.ParseError("invalid data")
        size += min(gzipfile.GZipFile._BUFFER_SIZE, len(data) - size)
    return offset + size


def code_header(f, offset, debug, writer):
    o = gzipfile.GZipFile(debug=debug, output_writer=writer)
    f.seek(offset)
    o._ReadMemberHeader(f)
    return f.tell()


def string(data, offset):
    """Size of a string with terminator."""
    end = find_terminator(data[offset:], b"\0", 1)
    if end < 0:
        raise errors.ParseError("missing end of string")
    return end


def spec_header(f, offset, debug, writer):
    data = f.content[offset:]
    missing(data, 10)
    if debug:
        writer.WriteText(
            show.line("Signature", f"0x{u(data, 0, 2):04x}")
            + show.line("Compression method", f"{s(data, 2, 1):d}")
            + show.line("Flags", f"0x{data[3]:02x}")
            + show.line("Modification time", show.posix_text(s(data, 4, 4)))
            + show.line("Operating system", f"{data[9]:d}")
            + show.line("Compression flags", f"0x{data[8]:02x}") + "\n")
    if data[:3] != b"\x1f\x8b\x08":
        raise errors.ParseError("unsupported format")
    size = 10
    if data[3] & 4:
        missing(data, size + 2)
        size += 2 + u(data, size, 2)
    if data[3] & 8:
        end = string(data, size)
        if debug:
            writer.WriteText(show.line("Original filename",
                                       data[size : size + end].decode("latin-1")))
        size += end + 1
    if data[3] & 16:
        end = string(data, size)
        if debug:
            writer.WriteText(show.line("Comment",
                                       data[size : size + end].decode("latin-1")))
        size += end + 1
    if data[3] & 2:
        size += min(2, max(0, len(data) - size))
    return offset + size


def code_file(f, debug, writer):
    o = gzipfile.GZipFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)


def spec_file(f, debug, writer):
    data = f.content
    offset = 0
    while offset < len(data):
        offset = spec_header(f, offset, debug, writer)
        offset = spec_compressed(f, offset)
        missing(data[offset:], 8)
        if debug:
            writer.WriteText(
                show.line("Checksum", f"0x{u(data, offset, 4):08x}")
                + show.line("Uncompressed data size", f"{u(data, offset + 4, 4):d}")
                + "\n")
        offset += 8


def gen_stream(rng, data):
    compressor = zlib.compressobj(rng.choice([0, 6]), zlib.DEFLATED, -zlib.MAX_WBITS)
    return compressor.compress(data) + compressor.flush()


def gen_data(rng):
    return rng.choice([b"", b"a", b"abc" * 99, bytes(rng.getrandbits(8) for _ in range(40))])


def gen_compressed(rng):
    data = bytes(3) + gen_stream(rng, gen_data(rng)) + rng.choice([b"", bytes(9)])
    return {"f": cut(rng, data), "offset": rng.choice([3, 3, 3, 3, 0])}


def gen_member(rng):
    flags = rng.choice([0, 8, 4, 2, 16, 30, rng.getrandbits(8)])
    data = rng.choice([b"\x1f\x8b\x08"] * 9 + [b"\x1f\x8b\x07", b"\x1f\x8c\x08"])
    data += bytes([flags]) + rng.choice([bytes(4), word(rng)]) + word(rng, 2)
    if flags & 4:
        size = rng.choice([0, 1, 5])
        data += size.to_bytes(2, "little") + bytes(size)
    for flag in (8, 16):
        if flags & flag:
            data += rng.choice([b"", b"name", b"\xe9\n"]) + b"\0"
    if flags & 2:
        data += word(rng, 2)
    return data


def gen_header(rng):
    return {"f": cut(rng, bytes(3) + gen_member(rng)), "offset": rng.choice([3, 3, 3, 0, 9])}


def gen_file(rng):
    data = b""
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        data += gen_member(rng) + gen_stream(rng, gen_data(rng)) + word(rng, 8)
    return {"f": cut(rng, data)}


def at(args):
    """Contents and position of the file a method reads."""
    return [args[1], models.mkint(args[1].pos)], args[0].fields["_debug"], (
        args[0].fields["_output_writer"])


def silent_at(args):
    return at(args)[0], False, None


def moved(fname, lo):
    """The position after what was read, in the file."""
    def after(interp, args):
        f = args[1]
        keys = (interp.getattr(f, "content"), models.mkint(f.pos))
        f.pos = models.binop(interp, ast.Add(), models.mkint(f.pos),
                             interp.ctx.app(fname, keys, "int", lo=lo))
    return after


def moved_from(fname, lo):
    """The position after what was read, in a specification."""
    def after(interp, args):
        keys = (interp.getattr(args[0], "content"), args[1])
        return models.binop(interp, ast.Add(), args[1],
                            interp.ctx.app(fname, keys, "int", lo=lo))
    return after


HEADER = {
    G + "_ReadMemberHeader": show.effect("gzip_header", at, moved("gzip_header_size", 10)),
    "contracts.gzipfile.spec_header": show.effect(
        "gzip_header", show.function_input, moved_from("gzip_header_size", 10)),
}
COMPRESSED = {
    G + "_ReadMemberCompressedData": show.effect(
        "gzip_data", silent_at, moved("gzip_data_size", 0)),
    "contracts.gzipfile.spec_compressed": show.effect(
        "gzip_data", lambda args: (args, False, None), moved_from("gzip_data_size", 0)),
}
ZLIB = {
    "zlib.decompressobj": lambda interp, args, kwargs: interp.call(Decompressor, [], {}),
    "contracts.gzipfile.stream_end": end_stub,
    "contracts.gzipfile.deflate_end":
        lambda interp, args, kwargs: end_stub(interp, args, {"whole": True}),
    "contracts.gzipfile.decompressed":
        lambda interp, args, kwargs: interp.ctx.fresh_bytes("decompressed"),
}

CONTRACTS = [
    Contract("P11", "gzip.header", code_header, spec_header,
             {"f": File(), "offset": Int(0, 2 ** 40), "debug": Bool(), "writer": Writer()},
             gen=gen_header, stubs=show.STUBS, targets=[G + "_ReadMemberHeader"]),
    Contract("P11", "gzip.compressed", code_compressed, spec_compressed,
             {"f": File(), "offset": Int(0, 2 ** 40)}, gen=gen_compressed,
             stubs={**show.STUBS, **ZLIB}, assumptions=[
                 "zlib.decompressobj finds the end of a deflate stream, whatever the"
                 " parts the stream is given in"],
             targets=[G + "_ReadMemberCompressedData", G + "_ReadCompressedData"]),
    Contract("P11", "gzip.file", code_file, spec_file,
             {"f": File(), "debug": Bool(), "writer": Writer()}, gen=gen_file,
             stubs={**show.STUBS, **HEADER, **COMPRESSED},
             targets=[G + "ReadFileObject", G + "_ReadMemberFooter"]),
]

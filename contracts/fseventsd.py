"""Contracts of the MacOS fseventsd disk log stream format."""

import gzip
import io

from dtformats import errors
from dtformats import fseventsd

from contracts import show
from contracts.windows_records import cut, missing, word
from engine.speclib import find_terminator, u
from engine.verify import Bool, Contract, File, Writer

F = "dtformats.fseventsd.FseventsFile."


def compressed(f):
    """The file as gzip file; in proofs decompression is the identity."""
    return io.BytesIO(gzip.compress(f.content))


class GzipFile:
    """Call-site contract of pygzipf.file: the uncompressed data as read-only file."""

    def __init__(self):
        self.f = None

    def open_file_object(self, file_object):
        self.f = file_object

    def get_uncompressed_data_size(self):
        return self.f.size

    def read(self, size):
        return self.f.read(size)

    def seek(self, offset, whence=0):
        return self.f.seek(offset, whence)

    def close(self):
        pass


def code_file(f, debug, writer):
    o = fseventsd.FseventsFile(debug=debug, output_writer=writer)
    o.ReadFileObject(compressed(f))


def text_of(data):
    try:
        return data.decode("utf8")
    except UnicodeDecodeError:
        pass
    raise errors.ParseError("invalid path")


def spec_file(f, debug, writer):
    data = f.content
    offset = 0
    while offset < len(data):
        header = data[offset : offset + 12]
        missing(header, 12)
        if header[:4] == b"1SLD":
            tail = 12
        elif header[:4] == b"2SLD":
            tail = 20
        else:
            raise errors.ParseError("unsupported signature")
        if debug:
            writer.WriteText(show.structure(
                show.value("Signature", show.stream(header[:4])),
                show.block("Unknown1", show.dump(header[4:8])),
                show.line("Page size", f"{u(header, 8, 4):d}")))
        page_end = offset + u(header, 8, 4)
        offset += 12
        while offset < page_end:
            entry = data[offset:]
            end = find_terminator(entry, b"\0", 1)
            if end < 0:
                raise errors.ParseError("missing end of path")
            path = text_of(entry[:end])
            missing(entry, end + 1 + tail)
            if debug:
                lines = [show.value("Path", path.rstrip("\0")),
                         show.line("Event identifier", f"{u(entry, end + 1, 8):d}"),
                         show.line("Flags", f"0x{u(entry, end + 9, 4):04x}")]
                if tail == 20:
                    lines.append(show.line("Node identifier",
                                           f"{u(entry, end + 13, 8):d}"))
                writer.WriteText(show.structure(*lines))
            offset += end + 1 + tail


def gen_file(rng):
    data = b""
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        version = rng.choice([1, 2])
        page = b""
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            page += rng.choice([b"", b"private/var", b"a\nb", "é".encode(), b"\xe9",
                                b"z" * 300]) + b"\0" + word(rng, 8) + word(rng)
            if version == 2:
                page += word(rng, 8)
        data += rng.choice([b"%dSLD" % version] * 9 + [b"3SLD"]) + word(rng) + (
            12 + len(page) - rng.choice([0] * 9 + [1, 12])).to_bytes(4, "little") + page
    return {"f": cut(rng, data)}


def gzip_stub(interp, args, kwargs):
    return interp.call(GzipFile, [], {})


STUBS = {**show.STUBS, "pygzipf.file": gzip_stub,
         "contracts.fseventsd.compressed": lambda interp, args, kwargs: args[0]}

CONTRACTS = [
    Contract("P10", "fseventsd.file", code_file, spec_file,
             {"f": File(), "debug": Bool(), "writer": Writer()}, gen=gen_file,
             stubs=STUBS, assumptions=[
                 "pygzipf.file gives the uncompressed data as a read-only file"],
             targets=[F + "ReadFileObject", F + "_ReadDLSPageHeader",
                      F + "_ReadDLSRecord"]),
]

"""Contracts of the streams maps beside Apple Spotlight store databases."""

import io
import os
import random

from dtformats import errors
from dtformats import spotlight_storedb

from contracts import spotlight as spot
from engine import core
from engine.verify import Choice, Contract, Int

S = spot.S
HERE = "contracts.spotlight_streams."
BASE = "dtformats.data_format.BinaryDataFile."
PATHS = ("/.Spotlight-V100/Store-V2/0A/store.db", "/a/b/../store.db", "/store.db")
FOLDERS = {PATHS[0]: "/.Spotlight-V100/Store-V2/0A/", PATHS[1]: "/a/", PATHS[2]: "/"}


class Files:
    """A file system of which the files are determined by a number."""

    def __init__(self, number):
        self.number = number

    def SplitPath(self, path):
        return [x for x in path.split("/") if x]

    def JoinPath(self, path_segments):
        return "/" + "/".join(path_segments)

    def GetFileSizeByPath(self, path):
        return len(content_of(self.number, path))

    def OpenFileByPath(self, path):
        return io.BytesIO(content_of(self.number, path))


def content_of(number, path):
    rng = random.Random(f"{number:d}{path:s}")
    size = number % 30
    count = number // 30 % 4
    if path.endswith("header"):
        return (b"\0PataD\0\0" + bytes(12) + size.to_bytes(4, "little") + bytes(4)
                + count.to_bytes(4, "little") + bytes(24))[:56 if number % 7 else 50]
    if path.endswith("offsets"):
        return b"".join(rng.randrange(30).to_bytes(4, "little") for _ in range(count))
    if path.endswith("data"):
        return rng.randbytes(size if number % 5 else size // 2)
    raise OSError("no such file")


def code_streams(path, index, number):
    o = spotlight_storedb.SpotlightStoreDatabaseFile(file_system_helper=Files(number))
    o._path = path
    return o._ReadStreamsMap(index)


def header_of(path, number):
    o = spotlight_storedb.SpotlightStreamsMapHeaderFile(file_system_helper=Files(number))
    o.Open(path)
    return o.data_size, o.number_of_offsets


def ranges_of(path, size, count, number):
    o = spotlight_storedb.SpotlightStreamsMapOffsetsFile(
        size, count, file_system_helper=Files(number))
    o.Open(path)
    return o.ranges


def values_of(path, size, ranges, number):
    o = spotlight_storedb.SpotlightStreamsMapDataFile(
        size, ranges, file_system_helper=Files(number))
    o.Open(path)
    return o.stream_values


def spec_streams(path, index, number):
    """The files of a streams map are in the folder of the store."""
    name = f"{FOLDERS[path]:s}dbStr-{index:d}.map."
    size, count = header_of(name + "header", number)
    ranges = ranges_of(name + "offsets", size, count, number)
    return values_of(name + "data", size, ranges, number)


def valid(interp, name, keys):
    if not interp.ctx.decide(interp.ctx.app(name + "_ok", keys, "bool")):
        interp.throw(errors.ParseError)


def header_values(interp, keys):
    valid(interp, "streams_header", keys)
    return (interp.ctx.app("streams_size", keys, "int", lo=0),
            interp.ctx.app("streams_count", keys, "int", lo=0))


def list_values(interp, name, keys):
    valid(interp, name, keys)
    return interp.ctx.app(name, keys, "obj")


def opened(interp, args, kwargs):
    """Call-site contract of opening the files, by the contracts of their content."""
    o, path = args
    number = o.fields["_file_system_helper"].fields["number"]
    kind = o.cls.__name__
    if kind.endswith("HeaderFile"):
        o.fields["data_size"], o.fields["number_of_offsets"] = header_values(
            interp, (path, number))
    elif kind.endswith("OffsetsFile"):
        o.fields["ranges"] = list_values(interp, "streams_ranges", (
            path, o.fields["_data_size"], o.fields["_number_of_entries"], number))
    else:
        o.fields["stream_values"] = list_values(interp, "streams_values", (
            path, o.fields["_data_size"], o.fields["_ranges"], number))


CONTRACTS = [
    Contract("P22", "spotlight.streams", code_streams, spec_streams,
             {"path": Choice(*PATHS), "index": Choice(1, 2, 3, 4, 5), "number": Int(0)},
             targets=[S + "_ReadStreamsMap"], stubs={
                 "posixpath.abspath": lambda interp, args, kwargs: os.path.abspath(
                     args[0]),
                 BASE + "Open": opened, BASE + "Close": lambda interp, args, kwargs: None,
                 HERE + "header_of": lambda interp, args, kwargs: header_values(
                     interp, tuple(args)),
                 HERE + "ranges_of": lambda interp, args, kwargs: list_values(
                     interp, "streams_ranges", tuple(args)),
                 HERE + "values_of": lambda interp, args, kwargs: list_values(
                     interp, "streams_values", tuple(args))},
             assumptions=["The path of the store is one of three."]),
]

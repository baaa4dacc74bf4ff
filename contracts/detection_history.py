"""Contracts of Windows Defender scan DetectionHistory files."""

from dtformats import detection_history
from dtformats import errors

from contracts import show
from contracts.windows_records import cut, missing, wide, word
from engine import core, models
from engine.speclib import u, until, uuid_of
from engine.verify import Bool, Bytes, Contract, File, Int, Writer

D = "dtformats.detection_history.WindowsDefenderScanDetectionHistoryFile."
HERE = "contracts.detection_history."


def reader(f, debug, writer):
    o = detection_history.WindowsDefenderScanDetectionHistoryFile(
        debug=debug, output_writer=writer)
    o._file_size = f.size
    return o


def padded(size):
    return size + (8 - size % 8) % 8


def code_value(f, offset, debug, writer):
    o = reader(f, debug, writer)
    value = o._ReadValue(f, offset)
    return value, f.tell()


def spec_value(f, offset, debug, writer):
    """Shows a value, gives the value and where the next one starts."""
    data = f.content[offset:]
    missing(data, 8)
    size = u(data, 0, 4)
    kind = u(data, 4, 4)
    missing(data, 8 + size)
    end = padded(8 + size)
    missing(data, end)
    if kind in (0, 5, 6):
        if size != 4:
            raise errors.ParseError("unsupported size of integer")
        value = u(data, 8, 4)
        line = show.line("Value integer", f"{value:d}")
    elif kind == 8:
        if size != 8:
            raise errors.ParseError("unsupported size of integer")
        value = u(data, 8, 8)
        line = show.line("Value integer", f"{value:d}")
    elif kind == 0x0a:
        if size != 8:
            raise errors.ParseError("unsupported size of date and time")
        value = u(data, 8, 8)
        line = show.line("Value FILETIME", show.filetime_text(value))
    elif kind == 0x15:
        value = wide(until(data[8:8 + size], b"\0\0", 2))
        line = show.value("Value string", value.rstrip("\0"))
    elif kind == 0x1e:
        if size != 16:
            raise errors.ParseError("unsupported size of identifier")
        value = uuid_of(data[8:24], "little")
        line = show.line("Value GUID", str(value))
    elif kind == 0x28:
        value = data[8:8 + size]
        line = show.block("Data", show.dump(value))
    else:
        raise errors.ParseError("unsupported type of value")
    if debug:
        writer.WriteText(show.structure(
            show.line("Data size", f"{size:d}"),
            show.line("Data type", f"0x{kind:08x}"),
            line,
            show.block("Alignment padding", show.dump(data[8 + size:end]))))
    return value, offset + end


def code_tracked(data, offset, debug, writer):
    o = detection_history.WindowsDefenderScanDetectionHistoryFile(
        debug=debug, output_writer=writer)
    _, size = o._ReadThreatTrackingValue(data, offset)
    return size


def spec_tracked(data, offset, debug, writer):
    """Shows a value of threat tracking data, gives its size."""
    missing(data, 4)
    key_size = u(data, 0, 4)
    end = 4 + key_size
    missing(data, end)
    key = wide(until(data[4:end], b"\0\0", 2))
    missing(data, end + 4)
    kind = u(data, end, 4)
    end += 4
    if kind == 5:
        missing(data, end + 1)
        lines = [show.line("Value integer", f"{data[end]:d}")]
        size = end + 1
    elif kind == 3:
        missing(data, end + 4)
        lines = [show.line("Value integer", f"{u(data, end, 4):d}")]
        size = end + 4
    elif kind == 4:
        missing(data, end + 8)
        lines = [show.line("Value integer", f"{u(data, end, 8):d}")]
        size = end + 8
    elif kind == 6:
        missing(data, end + 4)
        value_size = u(data, end, 4)
        size = end + 4 + value_size
        missing(data, size)
        lines = [show.line("Value string size", f"{value_size:d}"),
                 show.value("Value string", wide(until(
                     data[end + 4:size], b"\0\0", 2)).rstrip("\0"))]
    elif kind == 7:
        missing(data, end + 5)
        lines = [show.block("Value data", show.dump(data[end:end + 5]))]
        size = end + 5
    else:
        raise errors.ParseError("unsupported type of value")
    if debug:
        writer.WriteText(show.structure(
            show.line("Key string size", f"{key_size:d}"),
            show.value("Key string", key.rstrip("\0")),
            show.line("Value type", f"0x{kind:08x}"),
            *lines))
    return size


def code_tracking(data, offset, debug, writer):
    o = detection_history.WindowsDefenderScanDetectionHistoryFile(
        debug=debug, output_writer=writer)
    o._ReadThreatTrackingData(data, offset)


def spec_tracking(data, offset, debug, writer):
    """Shows threat tracking data."""
    if not data:
        raise errors.ParseError("no data")
    if debug:
        writer.WriteText(f"\nReading threat tracking data at offset: {offset:d} "
                         f"(0x{offset:08x})\n")
    missing(data, 4)
    end = u(data, 0, 4)
    position = 4
    if end == 1:
        missing(data, 20)
        if debug:
            writer.WriteText(show.structure(
                show.line("Version", "1"),
                show.line("Header size", f"{u(data, 4, 4):d}"),
                show.line("Values data size", f"{u(data, 8, 4):d}"),
                show.line("Total data size", f"{u(data, 12, 4):d}"),
                show.line("Unknown2", f"0x{u(data, 16, 4):08x}")))
        position = u(data, 4, 4) + 4
        end = u(data, 12, 4)
    if end > len(data):
        raise errors.ParseError("values beyond the data")
    while position < end:
        position += spec_tracked(data[position:], offset + position, debug, writer)


def code_other_tracking(value, debug, writer):
    o = detection_history.WindowsDefenderScanDetectionHistoryFile(
        debug=debug, output_writer=writer)
    o._ReadThreatTrackingData(value, 0)


def spec_other_tracking(value, debug, writer):
    raise errors.ParseError("threat tracking data is binary data")


DESCRIPTIONS = [
    {0: "Threat identifier", 1: "Identifier"},
    {0: "UnknownMagic1", 1: "Threat name", 4: "Category"},
    {0: "UnknownMagic2", 1: "Resource type", 2: "Resource location",
     4: "Threat tracking data size", 5: "Threat tracking data",
     6: "Last threat status change time", 12: "Domain user1", 14: "Process name",
     18: "Initial detection time", 20: "Remediation time", 24: "Domain user2"}]

CATEGORIES = {
    i: name for i, name in enumerate(
        "INVALID ADWARE SPYWARE PASSWORDSTEALER TROJANDOWNLOADER WORM BACKDOOR "
        "REMOTEACCESSTROJAN TROJAN EMAILFLOODER KEYLOGGER DIALER MONITORINGSOFTWARE "
        "BROWSERMODIFIER COOKIE BROWSERPLUGIN AOLEXPLOIT NUKER SECURITYDISABLER "
        "JOKEPROGRAM HOSTILEACTIVEXCONTROL SOFTWAREBUNDLER STEALTHNOTIFIER "
        "SETTINGSMODIFIER TOOLBAR REMOTECONTROLSOFTWARE TROJANFTP "
        "POTENTIALUNWANTEDSOFTWARE ICQEXPLOIT TROJANTELNET EXPLOIT FILESHARINGPROGRAM "
        "MALWARE_CREATION_TOOL REMOTE_CONTROL_SOFTWARE TOOL - TROJAN_DENIALOFSERVICE "
        "TROJAN_DROPPER TROJAN_MASSMAILER TROJAN_MONITORINGSOFTWARE "
        "TROJAN_PROXYSERVER - VIRUS KNOWN UNKNOWN SPP BEHAVIOR VULNERABILTIY POLICY "
        "EUS RANSOM ASR".split()) if name != "-"}


def code_file(f, debug, writer):
    reader(f, debug, writer).ReadFileObject(f)


def spec_file(f, debug, writer):
    values = []
    offset = 0
    while offset < f.size:
        value, end = spec_value(f, offset, debug, writer)
        values.append((offset, value))
        offset = end
    if debug:
        part = 0
        index = 0
        for offset, value in values:
            if value == "Magic.Version:1.2":
                if part < 2:
                    part += 1
                index = 0
            if part == 2 and index == 5:
                show_tracking(value, offset + 8, debug, writer)
            else:
                label = DESCRIPTIONS[part].get(index, f"UNKNOWN_{part:d}_{index:d}")
                if part == 1 and index == 4:
                    name = CATEGORIES.get(value, "UNKNOWN")
                    text = f"{value!s} ({name:s})"
                else:
                    text = f"{value!s}"
                writer.WriteText(show.line(label, text))
            index += 1


def show_tracking(value, offset, debug, writer):
    if not isinstance(value, bytes):
        raise errors.ParseError("unsupported threat tracking data")
    spec_tracking(value, offset, debug, writer)


def value_of(interp, f, offset):
    """The value, and the position of the next value which is set."""
    ctx = interp.ctx
    key = interp.getattr(f, "content"), offset
    size = ctx.app("detection_value_size", key, "int", lo=8)
    end = core.mkint(models.zi(offset) + size.e)
    return ctx.app("detection_value", key, "obj"), end


def after_value(interp, args):
    value, end = value_of(interp, args[1], args[2])
    args[1].pos = end
    return value


def at(args):
    return args[1:3], args[0].fields["_debug"], args[0].fields["_output_writer"]


def spec_at(args):
    return args[:2], args[2], args[3]


TRACKED = {D + "_ReadThreatTrackingValue": show.effect(
               "tracked", lambda args: (
                   [args[1]], args[0].fields["_debug"], args[0].fields["_output_writer"]),
               lambda interp, args: (None, interp.ctx.app(
                   "tracked_size", (args[1],), "int", lo=9))),
           HERE + "spec_tracked": show.effect(
               "tracked", lambda args: ([args[0]], args[2], args[3]),
               lambda interp, args: interp.ctx.app(
                   "tracked_size", (args[0],), "int", lo=9))}
VALUE = {D + "_ReadValue": show.effect("detection", at, after_value),
         HERE + "spec_value": show.effect("detection", spec_at, lambda interp, args: (
             value_of(interp, args[0], args[1]))),
         D + "_ReadThreatTrackingData": show.effect("tracking", at),
         HERE + "show_tracking": show.effect("tracking", spec_at)}


def gen_one(rng, kind=None):
    kind = rng.choice([0, 5, 6, 8, 10, 0x15, 0x1e, 0x28, 7]) if kind is None else kind
    if kind == 0x15:
        data = rng.choice(["Magic.Version:1.2", "abc", "", "a\0b", "\u4e2d"]).encode(
            "utf-16-le") + rng.choice([b"\0\0", b"\0\0", b"", b"\0"])
    elif kind == 0x28:
        data = rng.randbytes(rng.choice([0, 8, 3]))
    else:
        size = {8: 8, 10: 8, 0x1e: 16}.get(kind, 4)
        data = rng.choice([bytes(size), b"\x20" + bytes(size - 1), rng.randbytes(size)])
    size = rng.choice([len(data)] * 30 + [len(data) + 4])
    data = size.to_bytes(4, "little") + kind.to_bytes(4, "little") + data
    return data + bytes(-len(data) % 8)


def gen_value(rng):
    head = rng.randbytes(rng.choice([0, 8]))
    return {"f": cut(rng, head + gen_one(rng)), "offset": len(head)}


def gen_item(rng):
    def text():
        return rng.choice([b"a\0b\0\0\0", b"", b"a\0", b"\0\0b\0", b"\0\xd8", b"a"])
    key = text()
    kind = rng.choice([3, 4, 5, 6, 7, 6, 8])
    if kind == 6:
        data = text()
        data = len(data).to_bytes(4, "little") + data
    else:
        data = rng.randbytes({3: 4, 4: 8, 5: 1, 7: 5}.get(kind, 2))
    return (len(key).to_bytes(4, "little") + key + kind.to_bytes(4, "little") + data)


def gen_tracked(rng):
    data = gen_item(rng)
    return {"data": data[:rng.randrange(1, len(data) + 1)] if rng.random() < 0.2 else data,
            "offset": 8}


def gen_tracking(rng):
    items = b"".join(gen_item(rng) for _ in range(rng.choice([0, 1, 2])))
    if rng.random() < 0.5:
        head = b""
        end = 4 + len(items)
    else:
        end = 24 + len(items)
        head = (b"\1\0\0\0" + rng.choice([20] * 5 + [400]).to_bytes(4, "little") + word(rng)
                + (end + rng.choice([0] * 5 + [4])).to_bytes(4, "little") + word(rng))
    data = head + rng.choice([end] * 8 + [end + 1, 0]).to_bytes(4, "little") + items
    return {"data": data[:rng.randrange(len(data))] if rng.random() < 0.1 else data,
            "offset": 8}


def gen_file(rng):
    magic = (34).to_bytes(4, "little") + b"\x15\0\0\0" + "Magic.Version:1.2".encode(
        "utf-16-le") + bytes(6)
    parts = []
    for kind in range(rng.choice([1, 3, 3])):
        values = [gen_one(rng, rng.choice([5, 6, 0x15, 8, 0x1e, 0x28, 10])) for _ in range(
            rng.choice([2, 4, 7]))]
        if kind == 1 and len(values) > 3:
            values[3] = b"\4\0\0\0\5\0\0\0" + rng.choice(
                [42, 35, 51, 52, 3]).to_bytes(8, "little")
        if kind == 2 and len(values) > 4 and rng.random() < 0.8:
            data = gen_tracking(rng)["data"]
            values[4] = len(data).to_bytes(4, "little") + b"\x28\0\0\0" + data + bytes(
                -len(data) % 8)
        parts.append((magic if kind else b"") + b"".join(values))
    data = b"".join(parts)
    return {"f": data if rng.random() < 0.9 else cut(rng, data)}


CONTRACTS = [
    Contract("P18", "detection.value", code_value, spec_value,
             {"f": File(), "offset": Int(0), "debug": Bool(), "writer": Writer()},
             gen=gen_value, stubs=show.STUBS, targets=[D + "_ReadValue"]),
    Contract("P18", "detection.tracking_value", code_tracked, spec_tracked,
             {"data": Bytes(min=1), "offset": Int(0), "debug": Bool(),
              "writer": Writer()}, gen=gen_tracked, stubs=show.STUBS,
             targets=[D + "_ReadThreatTrackingValue"]),
    Contract("P18", "detection.tracking", code_tracking, spec_tracking,
             {"data": Bytes(), "offset": Int(0), "debug": Bool(), "writer": Writer()},
             gen=gen_tracking, stubs={**show.STUBS, **TRACKED},
             targets=[D + "_ReadThreatTrackingData", D + "_ReadThreatTrackingHeader"]),
    Contract("P18", "detection.tracking_other", code_other_tracking, spec_other_tracking,
             {"value": Int(0, 2**64 - 1), "debug": Bool(), "writer": Writer()},
             stubs=show.STUBS, targets=[D + "_ReadThreatTrackingData"]),
    Contract("P18", "detection.file", code_file, spec_file,
             {"f": File(), "debug": Bool(), "writer": Writer()}, gen=gen_file,
             stubs={**show.STUBS, **VALUE}, targets=[D + "ReadFileObject"]),
]

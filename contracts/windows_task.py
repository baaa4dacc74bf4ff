"""Contracts of the Windows task (job) and USN change journal formats."""

from dtformats import errors
from dtformats import job
from dtformats import usn_journal

from contracts import show
from contracts.windows_records import cut, missing, stamp, wide, word
from engine.speclib import Rec, u, until, uuid_of
from engine.verify import Bool, Contract, File, Writer

J = "dtformats.job.WindowsTaskSchedulerJobFile."
U = "dtformats.usn_journal.USNRecords."


def code_job(f, debug, writer):
    o = job.WindowsTaskSchedulerJobFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)
    return o.GetWindowsTaskConfiguration()


def show_fixed(data):
    version = u(data, 0, 2)
    return show.structure(
        show.line("Product version",
                  f"0x{version:04x} ({version // 256:d}.{version % 256:d})"),
        show.line("Format version", f"{u(data, 2, 2):d}"),
        show.line("Job identifier", str(uuid_of(data[4:20], "little"))),
        show.line("Application name offset", f"0x{u(data, 20, 2):04x}"),
        show.line("Triggers offset", f"0x{u(data, 22, 2):04x}"),
        show.line("Error retry count", f"{u(data, 24, 2):d}"),
        show.line("Error retry interval", f"{u(data, 26, 2):d} minutes"),
        show.line("Idle deadline", f"{u(data, 28, 2):d} minutes"),
        show.line("Idle wait", f"{u(data, 30, 2):d} minutes"),
        show.line("Priority", f"0x{u(data, 32, 4):08x}"),
        show.line("Maximum run time", f"{u(data, 36, 4):d} milliseconds"),
        show.line("Exit code", f"0x{u(data, 40, 4):08x}"),
        show.line("Status", f"0x{u(data, 44, 4):08x}"),
        show.line("Flags", f"0x{u(data, 48, 4):08x}"),
        show.line("Last run time",
                  f"{u(data, 52, 2):04d}-{u(data, 54, 2):02d}-{u(data, 58, 2):02d} "
                  f"{u(data, 60, 2):02d}:{u(data, 62, 2):02d}:{u(data, 64, 2):02d}"
                  f".{u(data, 66, 2):03d}"))


def string_at(data, offset):
    """Number of characters, text and end offset of a string."""
    missing(data, offset + 2)
    count = u(data, offset, 2)
    end = offset + 2 + count * 2
    missing(data, end)
    return count, wide(until(data[offset + 2 : end], b"\0\0", 2)), end


def stream_at(data, offset):
    missing(data, offset + 2)
    end = offset + 2 + u(data, offset, 2)
    missing(data, end)
    return data[offset + 2 : end], end


def show_string(label, count, text):
    return show.value(label, f"({count * 2:d} bytes) {text}")


def show_trigger(entry):
    return show.structure(
        show.line("Size", f"{u(entry, 0, 2):d}"),
        show.line("Reserved1", f"0x{u(entry, 2, 2):04x}"),
        show.line("Start date",
                  f"{u(entry, 4, 2):04d}-{u(entry, 6, 2):02d}-{u(entry, 8, 2):02d}"),
        show.line("End date",
                  f"{u(entry, 10, 2):04d}-{u(entry, 12, 2):02d}-{u(entry, 14, 2):02d}"),
        show.line("Start time", f"{u(entry, 16, 2):02d}:{u(entry, 18, 2):02d}"),
        show.line("Duration", f"{u(entry, 20, 4):d} minutes"),
        show.line("Interval", f"{u(entry, 24, 4):d} minutes"),
        show.line("Trigger flags", f"0x{u(entry, 28, 4):08x}"),
        show.line("Trigger type", f"0x{u(entry, 32, 4):08x}"),
        show.line("Trigger arg0", f"0x{u(entry, 36, 2):04x}"),
        show.line("Trigger arg1", f"0x{u(entry, 38, 2):04x}"),
        show.line("Trigger arg2", f"0x{u(entry, 40, 2):04x}"),
        show.line("Trigger padding", f"0x{u(entry, 42, 2):04x}"),
        show.line("Trigger reserved2", f"0x{u(entry, 44, 2):04x}"),
        show.line("Trigger reserved3", f"0x{u(entry, 46, 2):04x}"))


def spec_job(f, debug, writer):
    data = f.content
    missing(data, 68)
    if debug:
        writer.WriteText(show_fixed(data))
    rest = data[68:]
    missing(rest, 2)
    application_size, application, offset = string_at(rest, 2)
    parameters_size, parameters, offset = string_at(rest, offset)
    directory_size, directory, offset = string_at(rest, offset)
    author_size, author, offset = string_at(rest, offset)
    comment_size, comment, offset = string_at(rest, offset)
    user_data, offset = stream_at(rest, offset)
    reserved_data, offset = stream_at(rest, offset)
    missing(rest, offset + 2)
    count = u(rest, offset, 2)
    triggers = rest[offset + 2:]
    missing(triggers, count * 48)
    if debug:
        writer.WriteText(show.structure(
            show.line("Running instance count", f"{u(rest, 0, 2):d}"),
            show_string("Application name", application_size, application),
            show_string("Parameters", parameters_size, parameters),
            show_string("Working directory", directory_size, directory),
            show_string("Author", author_size, author),
            show_string("Comment", comment_size, comment),
            show.block("User data", show.dump(user_data)),
            show.block("Reserved data", show.dump(reserved_data))))
        for index in range(count):
            writer.WriteText(show_trigger(triggers[index * 48 : index * 48 + 48]))
    return Rec(application_name=application, author=author, comment=comment,
               error_retry_count=u(data, 24, 2), error_retry_interval=u(data, 26, 2),
               identifier=str(uuid_of(data[4:20], "little")), parameters=parameters,
               priority=u(data, 32, 4), working_directory=directory)


def code_usn(f, debug, writer):
    o = usn_journal.USNRecords(debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)
    return list(o.ReadRecords())


def show_usn(entry, name):
    return show.structure(
        show.line("Size", f"{u(entry, 0, 4):d}"),
        show.line("Major format version", f"{u(entry, 4, 2):d}"),
        show.line("Minor format version", f"{u(entry, 6, 2):d}"),
        show.line("File reference", f"0x{u(entry, 8, 8):08x}"),
        show.line("Parent file reference", f"0x{u(entry, 16, 8):08x}"),
        show.line("Timestamp", show.filetime_text(u(entry, 32, 8))),
        show.line("Update reason flags", f"0x{u(entry, 40, 4):08x}"),
        show.line("Update source flags", f"0x{u(entry, 44, 4):08x}"),
        show.line("Security descriptor entry", f"{u(entry, 48, 4):d}"),
        show.line("File attribute flags", f"0x{u(entry, 52, 4):08x}"),
        show.line("Name size", f"{u(entry, 56, 2):d}"),
        show.line("Name offset", f"{u(entry, 58, 2):d}"),
        show.value("Name", name.rstrip("\0")))


def spec_usn(f, debug, writer):
    data = f.content
    records = []
    offset = 0
    while offset < len(data):
        block_end = min(offset + 4096, len(data))
        while block_end - offset > 60 and data[offset : offset + 60] != bytes(60):
            entry = data[offset:]
            missing(entry, 60)
            size = u(entry, 0, 4)
            if u(entry, 4, 2) != 2 or u(entry, 6, 2) != 0:
                raise errors.ParseError("unsupported version")
            name_size = u(entry, 56, 2)
            if size < 60 + name_size:
                raise errors.ParseError("invalid size")
            missing(entry, size)
            name = wide(entry[60 : 60 + name_size])
            if debug:
                writer.WriteText(show_usn(entry, name))
            records.append(Rec(
                size=size, major_format_version=2, minor_format_version=0,
                file_reference=u(entry, 8, 8), parent_file_reference=u(entry, 16, 8),
                sequence_number=u(entry, 24, 8), timestamp=u(entry, 32, 8),
                update_reason_flags=u(entry, 40, 4), update_source_flags=u(entry, 44, 4),
                security_descriptor_entry=u(entry, 48, 4),
                file_attribute_flags=u(entry, 52, 4), name_size=name_size,
                name_offset=u(entry, 58, 2), name=name,
                padding=entry[60 + name_size : size]))
            offset += size
        offset = block_end
    return records


def gen_job(rng):
    def string():
        raw = rng.choice(["", "a", "x y", "\u00e9", "a\0b", "l\nm", "a\0"]).encode("utf-16-le")
        if rng.random() < 0.05:
            raw += b"\x00\xd8"
        raw += rng.choice([b"", b"\0\0", b"\0\0"])
        return (len(raw) // 2).to_bytes(2, "little") + raw

    def stream():
        raw = bytes(rng.choice([0, 0, 1, 8, 40]))
        return len(raw).to_bytes(2, "little") + raw

    data = bytes(rng.getrandbits(8) for _ in range(68)) + word(rng, 2)
    data += b"".join(string() for _ in range(5)) + stream() + stream()
    count = rng.choice([0, 0, 1, 2, 3])
    data += count.to_bytes(2, "little")
    data += bytes(rng.getrandbits(8) for _ in range(48 * count + rng.choice([0, 0, 4])))
    return {"f": cut(rng, data)}


def gen_usn(rng):
    data = b""
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        block = b""
        for _ in range(rng.choice([0, 1, 2, 3])):
            raw = rng.choice(["", "a", "file.txt", "\u00e9", "a\0b", "l\nm", "a\0"]
                             ).encode("utf-16-le")
            if rng.random() < 0.05:
                raw += b"\x00\xd8"
            size = 60 + len(raw) + rng.choice([0, 2, 4, 8])
            if rng.random() < 0.2:
                size = 4096 - len(block) - rng.choice([0, 8, 60, 61, 64, 100])
            if size < 60 + len(raw):
                size = 60 + len(raw)
            block += (size.to_bytes(4, "little") + rng.choice([2, 2, 2, 2, 2, 3]).to_bytes(
                2, "little") + bytes(2) + word(rng, 8) + word(rng, 8) + word(rng, 8)
                + stamp(rng) + word(rng) + word(rng) + word(rng) + word(rng)
                + len(raw).to_bytes(2, "little") + word(rng, 2) + raw).ljust(size, b"\0")
        data += block.ljust(rng.choice([len(block), 4096, 4096]), b"\0")
    return {"f": cut(rng, data)}


PARAMS = {"f": File(), "debug": Bool(), "writer": Writer()}

CONTRACTS = [
    Contract("P09", "job.file", code_job, spec_job, PARAMS, gen=gen_job,
             stubs=show.STUBS,
             targets=[J + "ReadFileObject", J + "GetWindowsTaskConfiguration",
                      J + "_FormatDataStream", J + "_FormatDate",
                      J + "_FormatIntegerAsIntervalInMilliseconds",
                      J + "_FormatIntegerAsIntervalInMinutes",
                      J + "_FormatIntegerAsProductVersion", J + "_FormatString",
                      J + "_FormatSystemTime", J + "_FormatTime"]),
    Contract("P09", "usn_journal.records", code_usn, spec_usn, PARAMS, gen=gen_usn,
             stubs=show.STUBS,
             targets=[U + "ReadFileObject", U + "ReadRecords", U + "_ReadRecordV2"]),
]

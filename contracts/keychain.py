"""Contracts of the macOS keychain database format."""

from dtformats import errors
from dtformats import keychain

from contracts import show
from contracts.windows_records import cut, missing, word
from engine import models
from engine.speclib import s, u
from engine.verify import Bool, Bytes, Choice, Contract, File, Int, Writer

K = "dtformats.keychain.KeychainDatabaseFile."
HERE = "contracts.keychain."

RECORD_TYPES = {
    0x00: "CSSM_DL_DB_SCHEMA_INFO", 0x01: "CSSM_DL_DB_SCHEMA_INDEXES",
    0x02: "CSSM_DL_DB_SCHEMA_ATTRIBUTES", 0x03: "CSSM_DL_DB_SCHEMA_PARSING_MODULE",
    0x0A: "CSSM_DL_DB_RECORD_ANY", 0x0B: "CSSM_DL_DB_RECORD_CERT",
    0x0C: "CSSM_DL_DB_RECORD_CRL", 0x0D: "CSSM_DL_DB_RECORD_POLICY",
    0x0E: "CSSM_DL_DB_RECORD_GENERIC", 0x0F: "CSSM_DL_DB_RECORD_PUBLIC_KEY",
    0x10: "CSSM_DL_DB_RECORD_PRIVATE_KEY", 0x11: "CSSM_DL_DB_RECORD_SYMMETRIC_KEY",
    0x12: "CSSM_DL_DB_RECORD_ALL_KEYS",
    0x80000000: "CSSM_DL_DB_RECORD_GENERIC_PASSWORD",
    0x80000001: "CSSM_DL_DB_RECORD_INTERNET_PASSWORD",
    0x80000002: "CSSM_DL_DB_RECORD_APPLESHARE_PASSWORD",
    0x80000003: "CSSM_DL_DB_RECORD_USER_TRUST",
    0x80000004: "CSSM_DL_DB_RECORD_X509_CRL",
    0x80000005: "CSSM_DL_DB_RECORD_UNLOCK_REFERRAL",
    0x80000006: "CSSM_DL_DB_RECORD_EXTENDED_ATTRIBUTE",
    0x80001000: "CSSM_DL_DB_RECORD_X509_CERTIFICATE",
    0x80008000: "CSSM_DL_DB_RECORD_METADATA"}

DATA_TYPES = {
    0: "CSSM_DB_ATTRIBUTE_FORMAT_STRING", 1: "CSSM_DB_ATTRIBUTE_FORMAT_SINT32",
    2: "CSSM_DB_ATTRIBUTE_FORMAT_UINT32", 3: "CSSM_DB_ATTRIBUTE_FORMAT_BIG_NUM",
    4: "CSSM_DB_ATTRIBUTE_FORMAT_REAL", 5: "CSSM_DB_ATTRIBUTE_FORMAT_TIME_DATE",
    6: "CSSM_DB_ATTRIBUTE_FORMAT_BLOB", 7: "CSSM_DB_ATTRIBUTE_FORMAT_MULTI_UINT32",
    8: "CSSM_DB_ATTRIBUTE_FORMAT_COMPLEX"}


def ascii_text(data):
    try:
        return data.decode("ascii")
    except UnicodeDecodeError:
        pass
    raise errors.ParseError("invalid characters")


def value_data(data, start, offset):
    """The data of an attribute value, start is where the values start in the record."""
    index = offset - start - 1
    if index < 0 or index >= len(data):
        raise errors.ParseError("invalid offset")
    return data[index:]


def integer_value(data, start, offset):
    if offset == 0:
        return None
    rest = value_data(data, start, offset)
    missing(rest, 4)
    return u(rest, 0, 4, "big")


def signed_value(data, start, offset):
    if offset == 0:
        return None
    rest = value_data(data, start, offset)
    missing(rest, 4)
    return s(rest, 0, 4, "big")


def string_value(data, start, offset):
    if offset == 0:
        return None
    rest = value_data(data, start, offset)
    missing(rest, 4)
    size = u(rest, 0, 4, "big")
    missing(rest, 4 + size)
    return ascii_text(rest[4:4 + size])


def blob_value(data, start, offset):
    if offset == 0:
        return None
    rest = value_data(data, start, offset)
    missing(rest, 4)
    size = u(rest, 0, 4, "big")
    missing(rest, 4 + size)
    return repr(rest[4:4 + size])


def date_time_value(data, start, offset):
    if offset == 0:
        return None
    rest = value_data(data, start, offset)
    missing(rest, 16)
    return ascii_text(rest[:16]).rstrip("\0")


def code_value(data, record_offset, start, offset, kind):
    o = keychain.KeychainDatabaseFile()
    if kind == 0:
        return o._ReadAttributeValueString(data, record_offset, start, offset, "value")
    if kind == 1:
        return o._ReadAttributeValueSignedInteger(
            data, record_offset, start, offset, "value")
    if kind == 2:
        return o._ReadAttributeValueInteger(data, record_offset, start, offset, "value")
    if kind == 5:
        return o._ReadAttributeValueDateTime(data, record_offset, start, offset, "value")
    return o._ReadAttributeValueBinaryData(data, record_offset, start, offset, "value")


def spec_value(data, record_offset, start, offset, kind):
    if kind == 0:
        return string_value(data, start, offset)
    if kind == 1:
        return signed_value(data, start, offset)
    if kind == 2:
        return integer_value(data, start, offset)
    if kind == 5:
        return date_time_value(data, start, offset)
    return blob_value(data, start, offset)


def gen_value(rng):
    start = rng.choice([0, 24, 48])
    value = rng.choice([b"a", b"", b"2001\0\0", b"\xe9", b"\0" * 9, b"\n\"\'"])
    value = rng.choice([len(value)] * 9 + [len(value) + 9, 0]).to_bytes(4, "big") + value
    if rng.random() < 0.3:
        value = rng.choice([b"20010203040506Z\0", b"\xff" * 16, bytes(20)])
    data = bytes(rng.choice([0, 3])) + value
    return {"data": cut(rng, data), "record_offset": 99, "start": start,
            "offset": rng.choice([0, start, start + 1, start + 4, start + 4,
                                  start + 1 + len(data)]),
            "kind": rng.choice([0, 1, 2, 5, 6])}


def record_header(data, debug, writer):
    missing(data, 24)
    if debug:
        writer.WriteText(show.structure(
            show.line("Data size", f"{u(data, 0, 4, 'big'):d}"),
            show.line("Record index", f"{u(data, 4, 4, 'big'):d}"),
            show.line("Unknown2", f"0x{u(data, 8, 4, 'big'):08x}"),
            show.line("Unknown3", f"0x{u(data, 12, 4, 'big'):08x}"),
            show.line("Key data size", f"{u(data, 16, 4, 'big'):d}"),
            show.line("Unknown4", f"0x{u(data, 20, 4, 'big'):08x}")))


def value_offsets(data, number, debug, writer):
    """Shows the offsets of the attribute values that follow a record header."""
    missing(data, 24 + 4 * number)
    if debug:
        writer.WriteText(show.block("Attribute value offsets data",
                                    show.dump(data[24:24 + 4 * number])))
        for index in range(number):
            writer.WriteText(show.line(f"Attribute value offset: {index:d}",
                                       f"0x{u(data, 24 + 4 * index, 4, 'big'):08x}"))
        writer.WriteText("\n")


def make_tables(first, second):
    """Tables of which two are known, these can be the same."""
    tables = {}
    for identifier in (first, second):
        table = keychain.KeychainDatabaseTable()
        table.relation_identifier = identifier
        tables[identifier] = table
    return tables


def table_values(tables):
    return [(identifier, table.relation_identifier, table.relation_name, [
                (column.attribute_data_type, column.attribute_identifier,
                 column.attribute_name) for column in table.columns], [
                 list(record.items()) for record in table.records])
            for identifier, table in tables.items()]


def code_information(f, offset, first, second, debug, writer):
    o = keychain.KeychainDatabaseFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    tables = make_tables(first, second)
    o._ReadRecordSchemaInformation(tables, f, offset)
    return f.tell(), table_values(tables)


def trailing(data, size, end, debug, writer):
    """Shows the data of a record after its values, gives where reading ends."""
    if debug:
        if size <= end:
            writer.WriteText("\n")
        else:
            writer.WriteText(show.block("Record trailing data",
                                        show.dump(data[end:size])))
            return min(size, len(data))
    return end


def spec_information(f, offset, first, second, debug, writer):
    tables = make_tables(first, second)
    end = information_record(tables, f, offset, debug, writer)
    return end, table_values(tables)


def information_record(tables, f, offset, debug, writer):
    """Reads a record that describes a table, gives where reading ends."""
    data = f.content[offset:]
    record_header(data, debug, writer)
    value_offsets(data, 2, debug, writer)
    if u(data, 24, 4, "big") != 33 or u(data, 28, 4, "big") != 37:
        raise errors.ParseError("unsupported offsets")
    missing(data, 40)
    identifier = u(data, 32, 4, "big")
    size = u(data, 36, 4, "big")
    missing(data, 40 + size)
    name = ascii_text(data[40:40 + size])
    if debug:
        writer.WriteText(show.line("Relation identifier", f"0x{identifier:08x}")
                         + show.line("Relation name size", f"{size:d}")
                         + show.line("Relation name", name))
    end = trailing(data, u(data, 0, 4, "big"), 40 + size, debug, writer)
    table = keychain.KeychainDatabaseTable()
    table.relation_identifier = identifier
    table.relation_name = name
    tables[identifier] = table
    if 0 not in tables:
        raise errors.ParseError("missing table")
    tables[0].records.append({"RelationID": identifier, "RelationName": name})
    return offset + end


def gen_offsets(rng, *offsets):
    data = word(rng, 16) + rng.choice([bytes(4), b"\0\0\0\5"]) + word(rng)
    for value in offsets:
        data += rng.choice([value] * 30 + [0]).to_bytes(4, "big")
    return data


def gen_information(rng):
    name = rng.choice([b"", b"TABLE"] * 3 + [b"\xe9", b"a\n"])
    data = gen_offsets(rng, 33, 37) + rng.choice([0, 1, 7]).to_bytes(4, "big")
    data += rng.choice([len(name)] * 9 + [99]).to_bytes(4, "big") + name
    data += bytes(rng.choice([0, 0, 3]))
    size = len(data) + rng.choice([0, 0, 1, -1, -2, -99])
    data = size.to_bytes(4, "big", signed=True) + data[4:]
    return {"f": cut(rng, bytes(3) + data + bytes(rng.choice([0, 9]))), "offset": 3,
            "first": rng.choice([0, 0, 2]), "second": rng.choice([0, 1])}


def code_indexes(f, offset, first, second, debug, writer):
    o = keychain.KeychainDatabaseFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    tables = make_tables(first, second)
    o._ReadRecordSchemaIndexes(tables, f, offset)
    return f.tell(), table_values(tables)


def spec_indexes(f, offset, first, second, debug, writer):
    tables = make_tables(first, second)
    end = indexes_record(tables, f, offset, debug, writer)
    return end, table_values(tables)


def indexes_record(tables, f, offset, debug, writer):
    """Reads a record that describes an index, gives where reading ends."""
    data = f.content[offset:]
    record_header(data, debug, writer)
    value_offsets(data, 5, debug, writer)
    for index in range(5):
        if u(data, 24 + 4 * index, 4, "big") != 45 + 4 * index:
            raise errors.ParseError("unsupported offsets")
    missing(data, 64)
    values = data[44:64]
    if debug:
        writer.WriteText(show.structure(
            show.line("Relation identifier", f"0x{u(values, 0, 4, 'big'):08x}"),
            show.line("Index identifier", f"0x{u(values, 4, 4, 'big'):08x}"),
            show.line("Attribute identifier", f"0x{u(values, 8, 4, 'big'):08x}"),
            show.line("Index type", f"0x{u(values, 12, 4, 'big'):08x}"),
            show.line("Index data location", f"0x{u(values, 16, 4, 'big'):08x}")))
    end = trailing(data, u(data, 0, 4, "big"), 64, debug, writer)
    if u(values, 0, 4, "big") not in tables or 1 not in tables:
        raise errors.ParseError("missing table")
    tables[1].records.append({
        "RelationID": u(values, 0, 4, "big"), "IndexID": u(values, 4, 4, "big"),
        "AttributeID": u(values, 8, 4, "big"), "IndexType": u(values, 12, 4, "big"),
        "IndexedDataLocation": u(values, 16, 4, "big")})
    return offset + end


def gen_indexes(rng):
    data = gen_offsets(rng, 45, 49, 53, 57, 61) + rng.choice([0, 1, 7]).to_bytes(4, "big")
    data += word(rng, 16) + bytes(rng.choice([0, 0, 3]))
    size = len(data) + rng.choice([0, 0, 1, -1, -2, -99])
    data = size.to_bytes(4, "big", signed=True) + data[4:]
    return {"f": cut(rng, bytes(3) + data + bytes(rng.choice([0, 9]))), "offset": 3,
            "first": rng.choice([0, 1, 1]), "second": rng.choice([0, 1, 7])}


def code_attributes(f, offset, first, second, debug, writer):
    o = keychain.KeychainDatabaseFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    tables = make_tables(first, second)
    o._ReadRecordSchemaAttributes(tables, f, offset)
    return f.tell(), table_values(tables)


def relation_text(value):
    if value is None:
        return "NULL"
    return f"0x{value:08x} ({RECORD_TYPES.get(value, 'UNKNOWN')})"


def data_type_text(value):
    if value is None:
        return "NULL"
    return f"{value:d} ({DATA_TYPES.get(value, 'UNKNOWN')})"


def spec_attributes(f, offset, first, second, debug, writer):
    tables = make_tables(first, second)
    end = attributes_record(tables, f, offset, debug, writer)
    return end, table_values(tables)


def attributes_record(tables, f, offset, debug, writer):
    """Reads a record that describes a column, gives where reading ends."""
    data = f.content[offset:]
    record_header(data, debug, writer)
    value_offsets(data, 6, debug, writer)
    size = u(data, 0, 4, "big")
    if size < 48:
        raise errors.ParseError("invalid size")
    missing(data, size)
    values = data[48:size]
    relation = integer_value(values, 48, u(data, 24, 4, "big"))
    identifier = integer_value(values, 48, u(data, 28, 4, "big"))
    name_type = integer_value(values, 48, u(data, 32, 4, "big"))
    name = string_value(values, 48, u(data, 36, 4, "big"))
    data_type = integer_value(values, 48, u(data, 44, 4, "big"))
    if debug:
        writer.WriteText(
            show.block("Attribute values data", show.dump(values))
            + show.line("Relation identifier", relation_text(relation))
            + show.line("Attribute identifier",
                        "NULL" if identifier is None else f"0x{identifier:08x}")
            + show.line("Attribute name data type", data_type_text(name_type))
            + show.line("Attribute name", "NULL" if name is None else name)
            + show.line("Attribute data type", data_type_text(data_type)) + "\n")
    if relation is None or relation not in tables:
        raise errors.ParseError("missing table")
    if name is None and identifier is not None:
        start = u(data, 28, 4, "big") - 1
        name = ascii_text(data[start:start + 4])
    if name is None:
        raise errors.ParseError("missing name")
    column = keychain.KeychainDatabaseColumn()
    column.attribute_data_type = data_type
    column.attribute_identifier = identifier
    column.attribute_name = name
    tables[relation].columns.append(column)
    if 2 not in tables:
        raise errors.ParseError("missing table")
    tables[2].records.append({
        "RelationID": relation, "AttributeID": identifier,
        "AttributeNameFormat": name_type, "AttributeName": name,
        "AttributeFormat": data_type})
    return offset + size


def gen_values(rng, data, values):
    """A record with values, some of these can be missing or not in bounds."""
    start = len(data) + 4 * len(values)
    stored = b""
    for value in values:
        where = start + 1 + len(stored)
        if value is None:
            where = rng.choice([0] * 9 + [1])
        else:
            stored += value
        data += rng.choice([where] * 40 + [3, 9999]).to_bytes(4, "big")
    data += stored
    size = len(data) + rng.choice([0] * 9 + [1, -1, -999])
    return size.to_bytes(4, "big", signed=True) + data[4:]


def gen_string(rng):
    value = rng.choice([b"", b"abcd", b"abcde", b"\n"] * 3 + [b"\xe9"])
    return rng.choice([len(value)] * 20 + [99]).to_bytes(4, "big") + value


def gen_attributes(rng):
    values = [rng.choice([x] * 9 + [None]) for x in (
        rng.choice([0, 1, 2]).to_bytes(4, "big"), rng.choice([b"abcd", word(rng)]),
        rng.choice([0, 1, 9]).to_bytes(4, "big"))]
    values += [rng.choice([None, gen_string(rng)]), None]
    values.append(rng.choice([None, rng.randrange(9).to_bytes(4, "big")]))
    data = gen_values(rng, word(rng, 24), values)
    return {"f": cut(rng, bytes(3) + data + bytes(rng.choice([0, 9]))), "offset": 3,
            "first": rng.choice([0, 1, 2]), "second": rng.choice([0, 1, 2])}


def column_name(number):
    return ["a", "", "b", "name", "\n"][number % 5]


def make_columns(types):
    """Columns of any number, the data type of a column is not always known."""
    columns = []
    for index in range(len(types) // 8):
        column = keychain.KeychainDatabaseColumn()
        kind = u(types, 8 * index, 4)
        column.attribute_data_type = None if kind == 0xFFFFFFFF else kind
        column.attribute_name = column_name(u(types, 8 * index + 4, 4))
        columns.append(column)
    return columns


def code_record(f, offset, first, second, types, debug, writer):
    o = keychain.KeychainDatabaseFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    table = keychain.KeychainDatabaseTable()
    table.columns = make_columns(types)
    o._ReadRecord({first: table}, f, offset, second)
    return f.tell(), [list(record.items()) for record in table.records]


def record_value(data, start, offset, kind):
    if kind is None:
        return None
    if kind == 0:
        return string_value(data, start, offset)
    if kind == 1:
        return signed_value(data, start, offset)
    if kind == 2:
        return integer_value(data, start, offset)
    if kind == 5:
        return date_time_value(data, start, offset)
    if kind == 6:
        return blob_value(data, start, offset)
    return None


def spec_record(f, offset, first, second, types, debug, writer):
    table = keychain.KeychainDatabaseTable()
    table.columns = make_columns(types)
    end = values_record({first: table}, f, offset, second, debug, writer)
    return end, [list(record.items()) for record in table.records]


def values_record(tables, f, offset, record_type, debug, writer):
    """Reads a record of a table, gives where reading ends."""
    if record_type not in tables:
        raise errors.ParseError("missing table")
    columns = tables[record_type].columns
    data = f.content[offset:]
    record_header(data, debug, writer)
    record = {}
    end = 24
    if columns:
        number = len(columns)
        value_offsets(data, number, debug, writer)
        end = u(data, 0, 4, "big")
        start = 24 + 4 * number
        if end < start:
            raise errors.ParseError("invalid size")
        missing(data, end)
        values = data[start:end]
        if debug:
            key_size = u(data, 16, 4, "big")
            if key_size > 0:
                writer.WriteText(show.block("Key data", show.dump(values[:key_size])))
            writer.WriteText(show.block("Attribute values data",
                                        show.dump(values[key_size:])))
        for index, column in enumerate(columns):
            value_offset = u(data, 24 + 4 * index, 4, "big")
            if debug:
                value_end = 0
                if value_offset > start:
                    value_end = len(values)
                    for other in range(number):
                        other_offset = u(data, 24 + 4 * other, 4, "big") - start - 1
                        if value_offset - start - 1 < other_offset < value_end:
                            value_end = other_offset
                    value_data = values[value_offset - start - 1:value_end]
                else:
                    value_data = b""
                writer.WriteText(show.block(
                    f"Attribute value: {index:d} ({column.attribute_name:s}) data",
                    show.dump(value_data)))
            record[column.attribute_name] = record_value(
                values, start, value_offset, column.attribute_data_type)
    tables[record_type].records.append(record)
    return offset + end


def gen_record(rng):
    kinds = [rng.choice([0, 1, 2, 5, 6, 3, 0xFFFFFFFF]) for _ in range(
        rng.choice([0, 1, 2, 3]))]
    values = []
    for kind in kinds:
        value = gen_string(rng) if kind in (0, 6) else word(rng)
        if kind == 5:
            value = b"20010203040506Z\0"
        values.append(rng.choice([value, value, None]))
    if rng.random() < 0.3:
        values.reverse()
    data = word(rng, 16) + rng.choice([bytes(4), b"\0\0\0\5"]) + word(rng)
    data = gen_values(rng, data, values)
    types = b"".join(kind.to_bytes(4, "little") + rng.randrange(5).to_bytes(4, "little")
                     for kind in kinds)
    return {"f": cut(rng, bytes(3) + data + bytes(rng.choice([0, 9]))), "offset": 3,
            "types": types, "first": 7, "second": rng.choice([7] * 9 + [8])}


def some_tables(number):
    """The tables known before a table is read."""
    tables = {}
    for identifier in range(number % 4):
        table = keychain.KeychainDatabaseTable()
        table.relation_identifier = identifier
        if identifier == 3:
            table.columns = make_columns(bytes(4) + b"\1\0\0\0")
        tables[identifier] = table
    return tables


def code_table(f, offset, number, debug, writer):
    o = keychain.KeychainDatabaseFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    tables = some_tables(number)
    o._ReadTable(tables, f, offset)
    return table_values(tables)


def spec_table(f, offset, number, debug, writer):
    tables = some_tables(number)
    read_table(tables, f, offset, debug, writer)
    return table_values(tables)


def offsets_text(label, data, start, number):
    lines = []
    for index in range(number):
        lines.append(show.line(f"{label}: {index:d}",
                               f"0x{u(data, start + 4 * index, 4, 'big'):08x}"))
    return "".join(lines)


def read_table(tables, f, offset, debug, writer):
    """Reads the records of a table."""
    data = f.content[offset:]
    missing(data, 28)
    number = u(data, 24, 4, "big")
    missing(data, 28 + 4 * number)
    record_type = u(data, 4, 4, "big")
    if debug:
        writer.WriteText(show.structure(
            show.line("Data size", f"{u(data, 0, 4, 'big'):d}"),
            show.line("Record type", relation_text(record_type)),
            show.line("Number of records", f"{u(data, 8, 4, 'big'):d}"),
            show.line("Record array offset", f"0x{u(data, 12, 4, 'big'):08x}"),
            show.line("Unknown1", f"0x{u(data, 16, 4, 'big'):08x}"),
            show.line("Unknown2", f"0x{u(data, 20, 4, 'big'):08x}"),
            show.line("Number of records offsets", f"{number:d}"),
            show.value("Records offsets",
                       offsets_text("Record offset", data, 28, number))))
    end = offset + 28 + 4 * number
    for index in range(number):
        record = u(data, 28 + 4 * index, 4, "big")
        if record == 0:
            continue
        record += offset
        if record_type == 0:
            end = information_record(tables, f, record, debug, writer)
        elif record_type == 1:
            end = indexes_record(tables, f, record, debug, writer)
        elif record_type == 2:
            end = attributes_record(tables, f, record, debug, writer)
        else:
            end = values_record(tables, f, record, record_type, debug, writer)
    if debug and offset + u(data, 0, 4, "big") > end:
        writer.WriteText(show.block("Table trailing data", show.dump(
            f.content[end:offset + u(data, 0, 4, "big")])))


def gen_table_data(rng, record_type):
    generate = {0: gen_information, 1: gen_indexes, 2: gen_attributes}.get(
        record_type, gen_record)
    records = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        data = generate(rng)["f"][3:]
        records.append(data if rng.random() < 0.9 else b"")
    data = word(rng, 4) + record_type.to_bytes(4, "big") + word(rng, 16)
    number = len(records) + rng.choice([0] * 20 + [1])
    data += number.to_bytes(4, "big")
    start = 28 + 4 * number
    for record in records:
        data += (start if record else 0).to_bytes(4, "big")
        start += len(record)
    data += b"".join(records)
    size = len(data) + rng.choice([0, 0, 1, -1, -50])
    return max(size, 0).to_bytes(4, "big") + data[4:]


def gen_table(rng):
    return {"f": cut(rng, bytes(3) + gen_table_data(rng, rng.choice([0, 1, 2, 3]))
                     + bytes(rng.choice([0, 9]))),
            "offset": 3, "number": rng.choice([0, 3, 3, 3])}


def code_file(f, debug, writer):
    o = keychain.KeychainDatabaseFile(debug=debug, output_writer=writer)
    o._file_size = f.size
    o.ReadFileObject(f)
    return table_values(o._tables)


def spec_file(f, debug, writer):
    data = f.content
    missing(data, 20)
    if data[:4] != b"kych":
        raise errors.ParseError("unsupported signature")
    start = u(data, 12, 4, "big")
    if debug:
        writer.WriteText(show.structure(
            show.value("Signature", show.stream(data[:4])),
            show.line("Major format version", f"{u(data, 4, 2, 'big'):d}"),
            show.line("Minor format version", f"{u(data, 6, 2, 'big'):d}"),
            show.line("Data size", f"{u(data, 8, 4, 'big'):d}"),
            show.line("Tables array offset", f"0x{start:08x}"),
            show.line("Unknown1", f"0x{u(data, 16, 4, 'big'):08x}")))
    rest = data[start:]
    missing(rest, 8)
    number = u(rest, 4, 4, "big")
    missing(rest, 8 + 4 * number)
    if debug:
        writer.WriteText(show.structure(
            show.line("Data size", f"{u(rest, 0, 4, 'big'):d}"),
            show.line("Number of tables", f"{number:d}"),
            show.value("Table offsets", offsets_text("Table offset", rest, 8, number))))
    tables = {}
    for index in range(number):
        read_table(tables, f, start + u(rest, 8 + 4 * index, 4, "big"), debug, writer)
    return table_values(tables)


def gen_file(rng):
    start = rng.choice([20, 20, 24])
    data = rng.choice([b"kych"] * 20 + [b"kyca"]) + word(rng, 8)
    data += start.to_bytes(4, "big") + word(rng)
    data += bytes(start - 20) + word(rng)
    tables = [gen_table_data(rng, kind) for kind in rng.choice(
        [[], [0], [0, 1], [0, 2, 1], [0, 2, 0, 2, 1]])]
    data += (len(tables) + rng.choice([0] * 20 + [1])).to_bytes(4, "big")
    where = 8 + 4 * len(tables)
    for table in tables:
        data += where.to_bytes(4, "big")
        where += len(table)
    return {"f": cut(rng, data + b"".join(tables))}


def value_stub(kind, **limits):
    """Call-site contract of reading a value: an error, no value or a value."""
    def handler(interp, args, kwargs):
        ctx = interp.ctx
        data, start, offset = (
            (args[1], args[3], args[4]) if len(args) == 6 else args)
        keys = (data, start, offset)
        if ctx.decide(models.eq(interp, offset, 0)):
            return None
        if not ctx.decide(ctx.app("keychain_value_ok_" + kind, keys, "bool")):
            interp.throw(errors.ParseError)
        index = models.zi(offset) - models.zi(start) - 1
        ctx.assume(index >= 0)
        ctx.assume(index + (16 if kind == "date" else 4) <= models.zi(
            interp.call(len, [data], {})))
        return ctx.app("keychain_value_" + kind, keys,
                       "str" if kind in ("string", "blob", "date") else "int", **limits)
    return handler


VALUES = {
    K + "_ReadAttributeValueString": value_stub("string"),
    HERE + "string_value": value_stub("string"),
    K + "_ReadAttributeValueInteger": value_stub("integer", lo=0, hi=2 ** 32 - 1),
    HERE + "integer_value": value_stub("integer", lo=0, hi=2 ** 32 - 1),
    K + "_ReadAttributeValueSignedInteger": value_stub("signed"),
    HERE + "signed_value": value_stub("signed"),
    K + "_ReadAttributeValueDateTime": value_stub("date"),
    HERE + "date_time_value": value_stub("date"),
    K + "_ReadAttributeValueBinaryData": value_stub("blob"),
    HERE + "blob_value": value_stub("blob"),
}

I32 = Int(0, 2 ** 32 - 1)
TABLES = {"f": File(), "offset": Int(0), "first": I32, "second": I32,
          "debug": Bool(), "writer": Writer()}

CONTRACTS = [
    Contract("P15", "keychain.value", code_value, spec_value,
             {"data": Bytes(), "record_offset": Int(0), "start": Int(0), "offset": I32,
              "kind": Choice(0, 1, 2, 5, 6)}, gen=gen_value,
             targets=[K + "_ReadAttributeValueString", K + "_ReadAttributeValueInteger",
                      K + "_ReadAttributeValueSignedInteger",
                      K + "_ReadAttributeValueDateTime",
                      K + "_ReadAttributeValueBinaryData", K + "_GetAttributeValueData"]),
    Contract("P15", "keychain.information", code_information, spec_information, TABLES,
             gen=gen_information, stubs=show.STUBS,
             targets=[K + "_ReadRecordSchemaInformation"]),
    Contract("P15", "keychain.indexes", code_indexes, spec_indexes, TABLES,
             gen=gen_indexes, stubs=show.STUBS, targets=[K + "_ReadRecordSchemaIndexes"]),
    Contract("P15", "keychain.attributes", code_attributes, spec_attributes, TABLES,
             gen=gen_attributes, stubs={**show.STUBS, **VALUES},
             targets=[K + "_ReadRecordSchemaAttributes"]),
    Contract("P15", "keychain.record", code_record, spec_record,
             {**TABLES, "types": Bytes()}, gen=gen_record,
             stubs={**show.STUBS, **VALUES,
                    HERE + "column_name": show.pure("keychain_column_name")},
             targets=[K + "_ReadRecord"]),
]


def state_of(tables):
    """What is known of the tables, as left by the records read before."""
    if tables.entries:
        raise models.Unsupported("tables with known entries")
    return 0 if tables.base is None else tables.base


def record_input(args):
    o, tables, f, *rest = args
    return [f, state_of(tables), *rest], *show.method_input(args)[1:]


def spec_record_input(args):
    tables, f, *rest = args
    return [f, state_of(tables), *rest[:-2]], rest[-2], rest[-1]


def record_after(fname):
    def after(interp, args):
        if isinstance(args[0], models.SDict):
            (tables, f), rest = args[:2], args[2:-2]
        else:
            (tables, f), rest = args[1:3], args[3:]
        keys = (interp.getattr(f, "content"), state_of(tables), *rest)
        tables.base = interp.ctx.app(fname + "_tables", keys)
        end = interp.ctx.app(fname + "_end", keys, "int", lo=0)
        f.pos = end
        interp.ctx.events += 1
        return end
    return after


def tables_stub(interp, args, kwargs):
    return models.SDict(base=interp.ctx.app("some_tables", (args[0],)))


def effects(fname, method, spec):
    after = record_after(fname)
    return {K + method: show.effect(fname, record_input, after),
            HERE + spec: show.effect(fname, spec_record_input, after)}


RECORDS = {
    **effects("keychain_information", "_ReadRecordSchemaInformation", "information_record"),
    **effects("keychain_indexes", "_ReadRecordSchemaIndexes", "indexes_record"),
    **effects("keychain_attributes", "_ReadRecordSchemaAttributes", "attributes_record"),
    **effects("keychain_values", "_ReadRecord", "values_record"),
    HERE + "some_tables": tables_stub,
    HERE + "table_values": lambda interp, args, kwargs: state_of(args[0])}
TABLE = {
    **effects("keychain_table", "_ReadTable", "read_table"),
    HERE + "table_values": lambda interp, args, kwargs: state_of(args[0])}

CONTRACTS += [
    Contract("P15", "keychain.table", code_table, spec_table,
             {"f": File(), "offset": Int(0), "number": Int(0), "debug": Bool(),
              "writer": Writer()}, gen=gen_table, stubs={**show.STUBS, **RECORDS},
             targets=[K + "_ReadTable", K + "_ReadTableHeader",
                      K + "_FormatRecordOffsets"]),
    Contract("P15", "keychain.file", code_file, spec_file,
             {"f": File(), "debug": Bool(), "writer": Writer()}, gen=gen_file,
             stubs={**show.STUBS, **TABLE},
             targets=[K + "ReadFileObject", K + "_ReadFileHeader", K + "_ReadTablesArray",
                      K + "_FormatTableOffsets"]),
]

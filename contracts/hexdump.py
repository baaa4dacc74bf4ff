"""Contracts of the hexadecimal dump."""

from dtformats import data_format

from engine.verify import Bytes, Contract, Str, Writer

T = "dtformats.data_format.BinaryDataFormat."


def code_hexdump(data):
    return data_format.BinaryDataFormat()._FormatDataInHexadecimal(data)


def printable(value):
    return chr(value if 0x20 <= value <= 0x7E else ord("."))


def columns(chunk):
    """The hexadecimal columns of up to 16 bytes, 49 characters wide."""
    text = ""
    for index in range(16):
        if index < len(chunk):
            text += f"{chunk[index]:02x}"
        else:
            text += "  "
        if index == 7:
            text += "  "
        elif index != 15:
            text += " "
    return text


def spec_hexdump(data):
    lines = []
    shown = None
    skipped = False
    for offset in range(0, len(data), 16):
        chunk = data[offset : offset + 16]
        text = columns(chunk)
        if shown is not None and shown == text and offset + 16 < len(data):
            # a repetition of the line shown last, other than the last line
            if not skipped:
                lines.append("...")
            skipped = True
        else:
            characters = "".join([printable(value) for value in chunk])
            lines.append(f"0x{offset:08x}  {text}  {characters}")
            shown = text
            skipped = False
    return "\n".join(lines + ["", ""]), True


def gen(rng):
    blocks = [bytes([rng.getrandbits(8)] * 16), bytes(16),
              bytes(rng.getrandbits(8) for _ in range(16))]
    longest = rng.choice([1, 1, 2, 20, 300])
    data = b"".join(rng.choice(blocks) * rng.randint(1, longest)
                    for _ in range(rng.randint(0, 8)))
    data += bytes(rng.choice([0, 0x1F, 0x20, 0x7E, 0x7F, 0xFF, 0x41])
                  for _ in range(rng.randint(0, 16)))
    return {"data": data}


CONTRACTS = [
    Contract("P03", "hexdump.lines", code_hexdump, spec_hexdump, {"data": Bytes()},
             gen=gen, targets=[T + "_FormatDataInHexadecimal"]),
]

"""Drafts the specification of the text shown for a structure (to be reviewed).

usage: draft.py MODULE CLASS STRUCTURE ...
"""
import importlib
import sys

F = {"_FormatIntegerAsDecimal": 'f"{{{0}:d}}"', "_FormatIntegerAsHexadecimal2": 'f"0x{{{0}:02x}}"',
     "_FormatIntegerAsHexadecimal4": 'f"0x{{{0}:04x}}"', "_FormatIntegerAsHexadecimal8": 'f"0x{{{0}:08x}}"',
     "_FormatIntegerAsFiletime": "show.filetime_text({0})", "_FormatIntegerAsPosixTime": "show.posix_text({0})",
     "_FormatIntegerAsOffset": 'f"{{{0}:d}} (0x{{{0}:08x}})"',
     "_FormatDataInHexadecimal": "show.dump({0})", None: "{0}"}


def main():
    module = importlib.import_module("dtformats." + sys.argv[1])
    cls = getattr(module, sys.argv[2])
    for name in sys.argv[3:]:
        dmap = cls._FABRIC.CreateDataTypeMap(name)
        d = dmap._data_type_definition
        info = {a: (desc, cb) for a, desc, cb in (cls._DEBUG_INFORMATION or {}).get(name, [])}
        order = [a for a in info]
        offset = 0
        exprs = {}
        print("#", name, "size", d.GetByteSize())
        for m in getattr(d, "members", []):
            size = m.GetByteSize()
            outer, m = m, getattr(m, "member_data_type_definition", None) or m
            kind = getattr(m, "format", None)
            big = (outer.byte_order if outer.byte_order != "native" else d.byte_order) == "big-endian"
            t = m.TYPE_INDICATOR
            extra = ", \"big\"" if big else ""
            if t == "integer" or (t in ("enumeration", "character", "boolean")):
                exprs[outer.name] = f"{'s' if kind == 'signed' else 'u'}(data, {offset}, {size}{extra})"
            else:
                exprs[outer.name] = f"data[{offset}:{'' if size is None or offset is None else offset + size}]<{t}>"
            cond = getattr(outer, "condition", None)
            print(f"#   {offset} {outer.name} {t} {size} {kind or ''} {cond or ''} {exprs[outer.name] if outer.name not in info else ''}")
            offset = None if size is None or offset is None else offset + size
        for a in order:
            desc, cb = info[a]
            f = F.get(cb, (cb or "") + "({0})")
            print(f'show.line("{desc}", {f.format(exprs.get(a, a))}),')
        for a in info:
            if a not in exprs:
                print("# not a member:", a)
main()

"""The lookup tables compiled into the program, read from the initialisers in the IR."""
import extract, ir
from extract import AnalysisBroken


def tables(m):
    """{lookup function: [(key, [fields...])]}: found through the gperf lookup functions, whatever the table is
    called and however it is laid out (the largest array of structs the function addresses)."""
    out = {}
    for name in ("ohcount_hash_language_from_name", "ohcount_hash_language_from_ext",
                 "ohcount_hash_language_from_filename", "ohcount_hash_disambiguate_func_from_id",
                 "ohcount_hash_is_cppheader", "ohcount_hash_parser_from_language", "ohcount_hash_command_from_flag"):
        f = m.fn(name)
        used = {o[1] for I in f.insts() for o in I.ops + [I.d.get("base")] if o and o[0] == "g"}
        rows = []
        for g in used:
            G = m.globals.get(g) or {}
            init = G.get("init")
            if not init or init[0] != "l":
                continue
            for e in init[1:]:
                if e[0] == "t":
                    rows.append((m.cstr(e[1]), e[2:]))
        if not rows:
            raise AnalysisBroken("no table found behind %s" % name)
        out[name] = rows
    return out

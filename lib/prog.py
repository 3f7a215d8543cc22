"""The hand-written C as one inlined module: internal helpers are merged into the functions that use them, so a rule
does not depend on how the code is cut into helpers. KEEP is the program's API as of the analysed commit; names that no
longer exist are ignored, functions that are not listed are inlined."""
import extract, ir

API = """
ohcount_detect_language ohcount_is_binary_filename
ohcount_calc_diff ohcount_calc_diff_with_disk
ohcount_detect_license ohcount_license_list_new ohcount_license_list_free
ohcount_loc_new ohcount_loc_total ohcount_loc_add_loc ohcount_loc_is_equal ohcount_loc_free ohcount_loc_list_new
ohcount_loc_list_add_loc ohcount_loc_list_add_loc_list ohcount_loc_list_get_loc ohcount_loc_list_code
ohcount_loc_list_comments ohcount_loc_list_blanks ohcount_loc_list_total ohcount_loc_list_filecount
ohcount_loc_list_new_compact ohcount_loc_list_free
ohcount_loc_delta_new ohcount_loc_delta_net_code ohcount_loc_delta_net_comments ohcount_loc_delta_net_blanks
ohcount_loc_delta_net_total ohcount_loc_delta_add_loc_delta ohcount_loc_delta_is_changed ohcount_loc_delta_is_equal
ohcount_loc_delta_free ohcount_loc_delta_list_new ohcount_loc_delta_list_add_loc_delta
ohcount_loc_delta_list_add_loc_delta_list ohcount_loc_delta_list_get_loc_delta ohcount_loc_delta_list_code_added
ohcount_loc_delta_list_code_removed ohcount_loc_delta_list_comments_added ohcount_loc_delta_list_comments_removed
ohcount_loc_delta_list_blanks_added ohcount_loc_delta_list_blanks_removed ohcount_loc_delta_list_net_code
ohcount_loc_delta_list_net_comments ohcount_loc_delta_list_net_blanks ohcount_loc_delta_list_net_total
ohcount_loc_delta_list_new_compact ohcount_loc_delta_list_free
ohcount_parsed_language_new ohcount_parsed_language_add_code ohcount_parsed_language_add_comment
ohcount_parsed_language_free ohcount_parsed_language_list_new ohcount_parsed_language_list_free
ohcount_parse
ohcount_sourcefile_new ohcount_sourcefile_set_diskpath ohcount_sourcefile_set_contents ohcount_sourcefile_get_contents
ohcount_sourcefile_get_contents_size ohcount_sourcefile_set_language ohcount_sourcefile_get_language
ohcount_sourcefile_parse ohcount_sourcefile_get_parsed_language_list ohcount_sourcefile_parse_with_callback
ohcount_sourcefile_parse_entities_with_callback ohcount_sourcefile_get_license_list ohcount_sourcefile_get_loc_list
ohcount_sourcefile_diff ohcount_sourcefile_calc_loc_delta ohcount_sourcefile_free ohcount_sourcefile_list_new
ohcount_sourcefile_list_add_file ohcount_sourcefile_list_add_directory ohcount_sourcefile_list_analyze_languages
ohcount_sourcefile_list_free
ohcount_hash_language_from_name ohcount_hash_language_from_ext ohcount_hash_language_from_filename
ohcount_hash_disambiguate_func_from_id ohcount_hash_is_cppheader ohcount_hash_parser_from_language
ohcount_hash_command_from_flag
main
""".split()

_m = None


def module():
    """Inlined module (API kept)."""
    global _m
    if _m is None:
        _m = ir.Module(extract.inlined(API))
    return _m


_t = None


def threaded():
    """The inlined module with ways through joins told apart."""
    global _t
    if _t is None:
        _t = ir.Module(extract.threaded(API))
    return _t


def field(m, struct, name):
    """(offset, type) of a struct member."""
    for n, off, ty in m.structs.get(struct, ()):
        if n == name:
            return off, ty
    raise extract.AnalysisBroken("struct %s has no member %s" % (struct, name))


def is_api(n):
    return n in API


def taken(m):
    """Functions whose address is taken."""
    out = set()

    def walk(o):
        if isinstance(o, list):
            if len(o) >= 2 and o[0] == "g" and o[1] in m.funcs:
                out.add(o[1])
            for x in o:
                if isinstance(x, list):
                    walk(x)
    for g in m.globals.values():
        walk(g.get("init"))
    for f in m.funcs.values():
        for I in f.insts():
            for o in I.ops:
                walk(o)
            for v, _ in I.d.get("in", []):
                walk(v)
    return out


def roots(m):
    """Functions from which code is reached: API, address-taken functions, main, and functions nobody calls."""
    called, tk = set(), taken(m)
    for f in m.funcs.values():
        for I in f.insts():
            if I.op == "call":
                c = I.callee()
                if c and c in m.funcs:
                    called.add(c)
    return sorted(n for n, f in m.funcs.items() if f.defined and (n in tk or is_api(n) or n not in called))

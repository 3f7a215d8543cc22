import pzcheck, queue_rules


def check(ctx):
    pzcheck.run(ctx, {'gap', 'multi', 'order'}, ['line_events'],
                'At every line report: it starts at or after the end of the previous report (order), no non-blank character lies between the two (gap), and no line end lies strictly inside (multi); ghost cursors track the last report, the first non-blank character and the last line end.',
                floors=[('line_events', 10000)])
    crlf(ctx)
    queue_rules.queue(ctx)


def crlf(ctx):
    """The hand-written skip to the end of a line: a CR LF pair stays together."""
    import spec, affine
    from spec import mem, lin, S
    m = spec.module()
    f = m.funcs.get("is_blank_entry")
    if f is None or not f.defined:
        return
    A = affine.Affine(m, f)
    for p in A.paths:
        if p.end[0] != "ret" or p.end[1] == lin(0):
            continue
        for e in p.stores():
            if S(e[1]) != spec.ARG[0]:
                continue
            ctx.count("skips_to_line_end")
            known = {}
            for c, w in p.lits:
                if c[0] == "eq" and len(c[1][1]) == 1 and c[1][1][0][0][0] == "mem":
                    (a, k), = c[1][1]
                    known[(a[1] if a[2] == 0 else spec.add(a[1], lin(a[2])), -c[1][0] * k)] = w
            v = S(e[2])
            atnl = any(known.get((x, k)) for x in (e[2], v) for k in (10, 12, 13))
            atend = p.lit(spec.eq(spec.add(v, lin(1)), spec.ARG[1])) is True or p.lit(spec.eq(v, spec.ARG[1])) is True or \
                p.lit(spec.lt(spec.add(v, lin(1)), spec.ARG[1])) is False
            if not atnl and not atend:
                ctx.violation("midline:is_blank_entry", "parser_macros.h (is_blank_entry): the scan can stop in the middle of a line")
            if known.get((e[2], 13)) and known.get((spec.add(e[2], lin(1)), 10)) is not False:
                ctx.violation("crlf:is_blank_entry", "parser_macros.h (is_blank_entry): the scan can stop between the CR and "
                              "the LF of one line end")

import pzcheck


def check(ctx):
    pzcheck.run(ctx, {'carry', 'category', 'blank'}, ['line_end_resets'],
                "At every site that reports a line, the flags that choose its class are proved to have been cleared since the previous line's report, and the class argument is proved to agree with the flags; a line reported as blank is proved to hold only blanks.",
                floors=[('line_end_resets', 10000)])

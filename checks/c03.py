import pzcheck


def check(ctx):
    pzcheck.run(ctx, {'lastline'}, ['last_line_obligations', 'returns'],
                'On every path to a return of a line-counting parse, a line that has text and has not been reported yet is reported (abstract state at each return: pending start must be null, and text after the last reported line must be blank).',
                floors=[('last_line_obligations', 300)])

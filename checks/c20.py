import pzcheck


def check(ctx):
    pzcheck.run(ctx, {'stuck', 'stack', 'progress'}, ['token_starts', 'steps', 'stack_pushes'],
                'Every cycle of each automaton moves the scan forward (or is bounded by one re-read), no reachable state stops before the end of the text, and the embedding stack never leaves its array.',
                floors=[('token_starts', 1000), ('stack_pushes', 50)])

import pzcheck, queue_rules


def check(ctx):
    pzcheck.run(ctx, {'stale', 'delegate', 'call', 'queue', 'restore'}, ['restored', 'queue_flushes', 'delegations', 'returns'],
                'Interprocedural effect analysis of parser globals: every global a parse reads is written by that parse first, the queue of held-back lines is empty and unlinked at return, globals swapped out for a guest language are restored on all paths, and no library routine with hidden state is called.',
                floors=[('returns', 400)])
    queue_rules.queue(ctx, only_drop=True)

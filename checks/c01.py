import pzcheck


def check(ctx):
    pzcheck.run(ctx, {'write', 'position', 'read', 'range'}, ['range_obligations', 'char_reads', 'scan_repositions'],
                'Zone (difference-bound) abstract interpretation of the goto-form automaton of every parser: each reported range s,e is proved 0<=s<=e<=length at every report site on every path, every character read and every repositioning of the scan is proved inside [text, text+length], and nothing stores through a pointer into the text.',
                floors=[('range_obligations', 10000), ('char_reads', 50000)])

import pzcheck


def check(ctx):
    pzcheck.run(ctx, {'tables', 'kind', 'entity', 'language'}, ['category_arguments', 'entity_arguments', 'language_arguments'],
                "Every call of the callback: in line mode the kind is one of lcode/lcomment/lblank, in entity mode it is an element of the language's own entity table at a proved-in-range index, and the language argument is a name that is registered.",
                floors=[('category_arguments', 10000), ('entity_arguments', 300), ('language_arguments', 10000)])

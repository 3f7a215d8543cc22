D='src/detector.c'; F='src/diff.c'; S='src/sourcefile.c'; O='src/ohcount.c'; C='src/loc.c'; P='src/parser.c'; I='src/licenses.c'
bug('C14',O,'''    if (language)
      printf("%s\\t%s\\n", language, iter->sf->filepath);''','''    printf("%s\\t%s\\n", language, iter->sf->filepath);''')
bug('C14',D,'''		if (!p) {
			return NULL;
		}

    // A SourceFile's''','''    // A SourceFile's''')
bug('C14',D,'''	char *contents = ohcount_sourcefile_get_contents(sourcefile);
  if (!contents)
    return NULL;

  // Check for a perl''','''	char *contents = ohcount_sourcefile_get_contents(sourcefile);
  // Check for a perl''')
bug('C14',D,'''    if (!p)
			break;
    char *pe = strstr(p, "%>");''','''    char *pe = strstr(p, "%>");''')
bug('C14',D,'''    if (rl) return(rl->name);''','''    return(rl->name);''')
bug('C14',P,'''    if (rp) {''','''    if (rp->parser) {''')
bug('C14',P,'''  if (language) {''','''  if (*language) {''')
bug('C14',D,'''        if (re) language = re->value;''','''        language = re->value;''')
bug('C14',S,'''    if (sourcefile->diskpath)
      path = sourcefile->diskpath;
    FILE''','''    path = sourcefile->diskpath;
    FILE''')
bug('C14',S,'''    sourcefile->parsed_language_list = ohcount_parsed_language_list_new();
    ohcount_parse(sourcefile, 1, parser_callback, sourcefile);''','''    ohcount_parse(sourcefile, 1, parser_callback, sourcefile);
    if (sourcefile->parsed_language_list == NULL)
      sourcefile->parsed_language_list = ohcount_parsed_language_list_new();''')
bug('C14',C,'''      if (iter->loc && strcmp(iter->loc->language, loc->language) == 0) break;
      iter = iter->next;
    }
    if (iter == NULL) { // new language''','''      if (iter->loc && strcmp(iter->loc->language, loc->language) == 0) break;
      iter = iter->next;
    }
    if (iter->loc == NULL) { // new language''')
bug('C14',I,'''      int buffer_len = p ? strlen(p) : 0;''','''      int buffer_len = strlen(sourcefile->contents);''')
bug('C14',D,'''  if (sourcefile->diskpath) {
    const char *magic''','''  if (*sourcefile->diskpath) {
    const char *magic''')
bug('C14',S,'''  iter = ohcount_sourcefile_get_parsed_language_list(from)->head;
  while (iter) {''','''  iter = ohcount_sourcefile_get_parsed_language_list(from)->head;
  do {''',S,'''    ohcount_loc_delta_free(delta);
    iter = iter->next;
  }
''','''    ohcount_loc_delta_free(delta);
    iter = iter->next;
  } while (iter);
''')
bug('C14',D,'''    if (filenames) {''','''    {''')
ref('C14',D,'''		if (!p) {
			return NULL;
		}

    // A SourceFile's''','''		if (NULL == p)
			return language;

    // A SourceFile's''')
ref('C14',P,'''  if (language) {
    struct ParserMap *rp =
      ohcount_hash_parser_from_language(language, strlen(language));
    if (rp) {
      char *buffer''','''  if (language == NULL)
    return 0;
  {
    struct ParserMap *rp =
      ohcount_hash_parser_from_language(language, strlen(language));
    if (rp != NULL) {
      char *buffer''')
ref('C14',S,'''    char *path = sourcefile->filepath;
    if (sourcefile->diskpath)
      path = sourcefile->diskpath;''','''    char *path = sourcefile->diskpath ? sourcefile->diskpath : sourcefile->filepath;''')
ref('C14',D,'''  char *p = ohcount_sourcefile_get_contents(sourcefile);
  char *eof = p + ohcount_sourcefile_get_contents_size(sourcefile);
  for (; p < eof; p++) {
    // /<%@''','''  char *p = ohcount_sourcefile_get_contents(sourcefile);
  if (p == NULL)
    return LANG_CS_ASPX;
  char *eof = p + ohcount_sourcefile_get_contents_size(sourcefile);
  while (p < eof) {
    // /<%@''',D,'''      p = directive;
    }
  }''','''      p = directive;
    }
    p++;
  }''')
ref('C14',O,'''    if (language)
      printf("%s\\t%s\\n", language, iter->sf->filepath);
    iter = iter->next;''','''    SourceFile *sf = iter->sf;
    iter = iter->next;
    if (!language)
      continue;
    printf("%s\\t%s\\n", language, sf->filepath);''')

S='src/sourcefile.c'; P='src/parser.c'; O='src/ohcount.c'; D='src/detector.c'
bug('C22',S,'''    if (!sourcefile->contents_set) {
      free''','''    if (sourcefile->diskpath || sourcefile->size > 0) {
      free''')
bug('C22',S,'''    sourcefile->language = rl->name;
    sourcefile->language_detected = 1;
  }''','''    sourcefile->language = rl->name;
  }''')
bug('C22',S,'''  if (!sourcefile->language_detected) {''','''  if (!sourcefile->language) {''')
bug('C22',S,'''    sourcefile->language = language;
    sourcefile->language_detected = 1;''','''    sourcefile->language = language;
    sourcefile->language_detected = (language != NULL);''')
bug('C22',S,'''  if (sourcefile->parsed_language_list == NULL) {
    sourcefile->parsed''','''  if (sourcefile->parsed_language_list == NULL ||
      sourcefile->parsed_language_list->head == NULL) {
    sourcefile->parsed''')
bug('C22',S,'''  if (sourcefile->license_list == NULL)
    sourcefile->license_list''','''  if (sourcefile->license_list == NULL || sourcefile->license_list->head == NULL)
    sourcefile->license_list''')
bug('C22',S,'''  if (sourcefile->license_list == NULL)
    sourcefile->license_list = ohcount_detect_license(sourcefile);
  return sourcefile->license_list;''','''  if (sourcefile->license_list != NULL)
    return sourcefile->license_list;
  return ohcount_detect_license(sourcefile);''')
bug('C22',S,'''  ohcount_parse(sourcefile, 0, callback, userdata);''','''  ohcount_parse(sourcefile, sourcefile->loc_list != NULL, callback, userdata);''')
bug('C22',P,'''      if (callback)''','''      if (callback && userdata)''')
bug('C22',P,'''  const char *language = ohcount_sourcefile_get_language(sourcefile);''','''  const char *language = ohcount_detect_language(sourcefile);''')
bug('C22',S,'''  if (rl) {
    sourcefile->language = rl->name;''','''  if (rl && !sourcefile->language) {
    sourcefile->language = rl->name;''')
bug('C22',S,'''  if (rl) {
    sourcefile->language = rl->name;
    sourcefile->language_detected = 1;
  }''','''  sourcefile->language_detected = 1;
  if (rl) {
    sourcefile->language = rl->name;
  }''')
bug('C22',S,'''    sourcefile->loc_list = list;
  }
  return sourcefile->loc_list;''','''    if (list->head)
      sourcefile->loc_list = list;
    else
      return list;
  }
  return sourcefile->loc_list;''')
bug('C22',S,'''    // A file recognized as binary ("\\1") has no language.
    if (language && language[0] == '\\1') language = NULL;
    sourcefile->language = language;''','''    // A file recognized as binary ("\\1") has no language.
    if (language && language[0] == '\\1') language = NULL;
    if (sourcefile->contents || language)
    sourcefile->language = language;''')
bug('C22',D,'''      if (p) language = disambiguate''','''      if (p) language = disambiguate''') if 0 else None
bug('C22',O,'''    const char *language = ohcount_sourcefile_get_language(iter->sf);''','''    iter->sf->language_detected = 0;
    const char *language = ohcount_sourcefile_get_language(iter->sf);''')
bug('C22',P,'''      int buffer_len = ohcount_sourcefile_get_contents_size(sourcefile);''','''      int buffer_len = buffer ? strlen(buffer) : 0;''')
ref('C22',S,'''  if (!sourcefile->language_detected) {
    const char *language = ohcount_detect_language(sourcefile);
    // A file recognized as binary ("\\1") has no language.
    if (language && language[0] == '\\1') language = NULL;
    sourcefile->language = language;
    sourcefile->language_detected = 1;
  }
  return sourcefile->language;''','''  if (sourcefile->language_detected)
    return sourcefile->language;
  sourcefile->language_detected = 1;
  sourcefile->language = ohcount_detect_language(sourcefile);
  if (sourcefile->language != NULL && *sourcefile->language == '\\1')
    sourcefile->language = NULL;
  return sourcefile->language;''')
ref('C22',P,'''  const char *language = ohcount_sourcefile_get_language(sourcefile);
  if (language) {
    struct ParserMap *rp =
      ohcount_hash_parser_from_language(language, strlen(language));
    if (rp) {
      char *buffer = ohcount_sourcefile_get_contents(sourcefile);
      int buffer_len = ohcount_sourcefile_get_contents_size(sourcefile);
      if (callback)
        rp->parser(buffer, buffer_len, count, callback, userdata);
      return 1;
    }
  }

  return 0;''','''  const char *language = ohcount_sourcefile_get_language(sourcefile);
  struct ParserMap *rp = NULL;
  if (language != NULL)
    rp = ohcount_hash_parser_from_language(language, strlen(language));
  if (rp == NULL)
    return 0;

  int size = ohcount_sourcefile_get_contents_size(sourcefile);
  char *text = ohcount_sourcefile_get_contents(sourcefile);
  if (callback == NULL)
    return 1;
  rp->parser(text, ohcount_sourcefile_get_contents_size(sourcefile), count, callback, userdata);
  return 1;''')
ref('C22',S,'''  if (sourcefile->parsed_language_list == NULL) {
    sourcefile->parsed_language_list = ohcount_parsed_language_list_new();
    ohcount_parse(sourcefile, 1, parser_callback, sourcefile);
''','''  if (sourcefile->parsed_language_list)
    return;
  {
    ParsedLanguageList *list = ohcount_parsed_language_list_new();
    sourcefile->parsed_language_list = list;
    ohcount_sourcefile_parse_with_callback(sourcefile, parser_callback, sourcefile);
''') if 0 else None
ref('C22',S,'''  if (sourcefile->license_list == NULL)
    sourcefile->license_list = ohcount_detect_license(sourcefile);
  return sourcefile->license_list;''','''  LicenseList *list = sourcefile->license_list;
  if (!list) {
    list = ohcount_detect_license(sourcefile);
    sourcefile->license_list = list;
  }
  return list;''')
ref('C22',S,'''  if (rl) {
    sourcefile->language = rl->name;
    sourcefile->language_detected = 1;
  }''','''  if (!rl)
    return;
  sourcefile->language_detected = 1;
  sourcefile->language = rl->name;''')
ref('C22',S,'''  ohcount_sourcefile_parse(sourcefile);
  return sourcefile->parsed''','''  if (sourcefile->parsed_language_list == NULL)
    ohcount_sourcefile_parse(sourcefile);
  return sourcefile->parsed''')
ref('C22',S,'''      free(sourcefile->contents); // field is guaranteed to exist
      sourcefile->contents = NULL;
    }''','''      char *contents = sourcefile->contents;
      sourcefile->contents = NULL;
      free(contents);
    }''')

D='src/detector.c'; F='src/diff.c'; S='src/sourcefile.c'; O='src/ohcount.c'; C='src/loc.c'; P='src/parsed_language.c'; Q='src/parser.c'; I='src/licenses.c'
bug('C13',P,'''  free(parsed_language->comments);
''','')
bug('C13',P,'''  free(parsed_language->code);
  free(parsed_language->comments);
  free(parsed_language);''','''  free(parsed_language);
  free(parsed_language->code);
  free(parsed_language->comments);''')
bug('C13',C,'''      LocList *next = iter->next;
      ohcount_loc_free(iter->loc);
      free(iter);
      iter = next;''','''      ohcount_loc_free(iter->loc);
      free(iter);
      iter = iter->next;''')
bug('C13',C,'''      ohcount_loc_delta_free(iter->delta);
''','''      if (iter->next) ohcount_loc_delta_free(iter->delta);
''')
bug('C13',S,'''  if (sourcefile->contents)
    free(sourcefile->contents);
  int size''','''  int size''')
bug('C13',S,'''  if (sourcefile->diskpath)
    free(sourcefile->diskpath);
  int size''','''  int size''')
bug('C13',S,'''    free(sourcefile->contents); // field is guaranteed to exist
    sourcefile->contents = NULL;''','''    free(sourcefile->contents); // field is guaranteed to exist
''')
bug('C13',S,'''        free(sourcefile->contents);
        sourcefile->contents = NULL;
        sourcefile->size = 0;
      } else {''','''        free(sourcefile->contents);
        sourcefile->size = 0;
      } else {''')
bug('C13',S,'''      ohcount_loc_list_add_loc(list, loc);
      ohcount_loc_free(loc);''','''      ohcount_loc_list_add_loc(list, loc);
      if (list->tail != list) ohcount_loc_free(loc);''')
bug('C13',S,'''      ohcount_loc_delta_list_add_loc_delta(list, delta);
      ohcount_loc_delta_free(delta);
    }''','''      ohcount_loc_delta_list_add_loc_delta(list, delta);
    }''')
bug('C13',S,'''  ohcount_parsed_language_free(blank);
  return delta;''','''  if (from == blank || to == blank) ohcount_parsed_language_free(blank);
  return delta;''')
bug('C13',S,'''  ohcount_parsed_language_free(blank);
  return delta;''','''  ohcount_parsed_language_free(from);
  return delta;''')
bug('C13',S,'''  if (sourcefile->loc_list)
    ohcount_loc_list_free(sourcefile->loc_list);
''','')
bug('C13',F,'''  free(member);
  free(class);
''','''  free(class);
''')
bug('C13',F,'''	free(from_tmp);
	free(to_tmp);''','''	free(from_tmp);
	free(from_tmp);''')
bug('C13',F,'''  free(clist);
  free(klist);''','''  free(klist);''')
bug('C13',D,'''    ohcount_sourcefile_free(undecorated);''','''    if (language) ohcount_sourcefile_free(undecorated);''')
bug('C13',I,'''      free(buffer);
''','''      if (q > buffer) free(buffer);
''')
bug('C13',I,'''      q = buffer;
''','''      q = buffer;
      if (buffer_len == 0) { iter_language = iter_language->next; continue; }
''')
bug('C13',O,'''  ohcount_sourcefile_list_free(list);

  return 0;''','''  return 0;''')
bug('C13',O,'''  ohcount_loc_list_free(loc_list);
}''','''  if (code) ohcount_loc_list_free(loc_list);
}''')
bug('C13',C,'''      LocList *item = ohcount_loc_list_new();
      item->loc = ohcount_loc_new(loc->language, loc->code, loc->comments,
                                  loc->blanks, loc->filecount);''','''      LocList *item = ohcount_loc_list_new();
      item->loc = loc;''')
bug('C13',C,'''      list->tail->next = item;
      list->tail = item;
    } else ohcount_loc_add''','''      if (item->loc->code + item->loc->comments + item->loc->blanks > 0) {
        list->tail->next = item;
        list->tail = item;
      }
    } else ohcount_loc_add''')
bug('C13',S,'''  ParsedLanguageList *list = sf->parsed_language_list;
  ParsedLanguage *lang;''','''  ParsedLanguageList *list = sf->parsed_language_list;
  ParsedLanguage *lang = ohcount_parsed_language_new(language, buffer_size);''')
bug('C13',S,'''  if (sourcefile->license_list == NULL)
''','''  if (sourcefile->license_list == NULL || sourcefile->license_list->head == NULL)
''')
bug('C13',S,'''  if (sourcefile->loc_list == NULL) {''','''  if (sourcefile->loc_list == NULL || sourcefile->loc_list->head == NULL) {''')
bug('C13',S,'''  if (sourcefile->contents == NULL) {''','''  if (sourcefile->contents == NULL || sourcefile->size <= 0) {''')
bug('C13',I,'''      LicenseList *next = iter->next;
      free(iter);
      iter = next;''','''      LicenseList *next = iter->next;
      if (iter != list) free(iter);
      iter = next;''')
bug('C13',C,'''    while (iter) {
      LocList *next = iter->next;''','''    while (iter && iter != list->tail) {
      LocList *next = iter->next;''')
bug('C13',S,'''      SourceFileList *next = iter->next;
      ohcount_sourcefile_free(iter->sf);
      free(iter);''','''      SourceFileList *next = iter->next;
      if (iter->sf->contents) ohcount_sourcefile_free(iter->sf);
      free(iter);''')
bug('C15',S,'''      iter->pl = ohcount_parsed_language_new(language, buffer_size);
      list->tail->next = iter;
      list->tail = iter;''','''      iter->pl = ohcount_parsed_language_new(language, buffer_size);
      list->tail = iter;''')
# refs
ref('C13',C,'''      LocList *next = iter->next;
      ohcount_loc_free(iter->loc);
      free(iter);
      iter = next;''','''      LocList *item = iter;
      iter = iter->next;
      ohcount_loc_free(item->loc);
      free(item);''')
ref('C13',C,'''  if (list->head) {
    LocList *iter = list->head;
    while (iter) {
      LocList *next = iter->next;
      ohcount_loc_free(iter->loc);
      free(iter);
      iter = next;
    }
  } else free(list);''','''  if (list->head == NULL) {
    free(list);
    return;
  }
  LocList *iter, *next;
  for (iter = list->head; iter != NULL; iter = next) {
    next = iter->next;
    ohcount_loc_free(iter->loc);
    free(iter);
  }''')
ref('C13',P,'''  free(parsed_language->code);
  free(parsed_language->comments);''','''  free(parsed_language->comments);
  free(parsed_language->code);''')
ref('C13',S,'''  if (sourcefile->contents)
    free(sourcefile->contents);
  int size = strlen(contents);
  sourcefile->contents = malloc(size + 1);
  strncpy(sourcefile->contents, contents, size);
  sourcefile->contents[size] = '\\0';''','''  int size = strlen(contents);
  char *copy = malloc(size + 1);
  memcpy(copy, contents, size + 1);
  free(sourcefile->contents);
  sourcefile->contents = copy;''')
ref('C13',S,'''  if (sourcefile->diskpath)
    free(sourcefile->diskpath);
  int size = strlen(diskpath);
  sourcefile->diskpath = malloc(size + 1);
  strncpy(sourcefile->diskpath, diskpath, size);
  sourcefile->diskpath[size] = '\\0';''','''  char *old = sourcefile->diskpath;
  sourcefile->diskpath = strdup(diskpath);
  free(old);''')
ref('C13',S,'''      sourcefile->contents = malloc(size + 1);
      if (fread(sourcefile->contents, size, 1, f) != 1) {
        free(sourcefile->contents);
        sourcefile->contents = NULL;
        sourcefile->size = 0;
      } else {
        sourcefile->size = size;
        sourcefile->contents[size] = '\\0';
      }''','''      char *buf = malloc(size + 1);
      if (fread(buf, size, 1, f) != 1) {
        free(buf);
        sourcefile->size = 0;
      } else {
        sourcefile->size = size;
        buf[size] = '\\0';
        sourcefile->contents = buf;
      }''')
ref('C13',S,'''void ohcount_sourcefile_free(SourceFile *sourcefile) {
  free(sourcefile->filepath);
  if (sourcefile->diskpath)
    free(sourcefile->diskpath);
  if (sourcefile->contents)
    free(sourcefile->contents);''','''static void drop_names(SourceFile *sf) {
  free(sf->filepath);
  free(sf->diskpath);
}

void ohcount_sourcefile_free(SourceFile *sourcefile) {
  drop_names(sourcefile);
  if (sourcefile->contents != NULL)
    free(sourcefile->contents);''')
ref('C13',C,'''      LocList *item = ohcount_loc_list_new();
      item->loc = ohcount_loc_new(loc->language, loc->code, loc->comments,
                                  loc->blanks, loc->filecount);
      list->tail->next = item;
      list->tail = item;''','''      Loc *copy = ohcount_loc_new(loc->language, loc->code, loc->comments,
                                  loc->blanks, loc->filecount);
      LocList *item = ohcount_loc_list_new();
      list->tail->next = item;
      item->loc = copy;
      list->tail = list->tail->next;''')
ref('C13',S,'''    LocList *list = ohcount_loc_list_new();
    ohcount_sourcefile_parse(sourcefile);''','''    ohcount_sourcefile_parse(sourcefile);
    LocList *list = sourcefile->loc_list = ohcount_loc_list_new();''',S,'''    sourcefile->loc_list = list;
''','')
ref('C13',S,'''    list->head = list;
    list->tail = list;
    list->pl = ohcount_parsed_language_new(language, buffer_size);
    list->next = NULL;
    lang = list->pl;''','''    lang = ohcount_parsed_language_new(language, buffer_size);
    list->next = NULL;
    list->pl = lang;
    list->head = list->tail = list;''')
ref('C13',I,'''      free(buffer);
      for (j = 0; j < license_map_length; j++)
        if (potential_licenses_s[j] > -1) found[j] = 1;
      iter_language = iter_language->next;''','''      for (j = 0; j < license_map_length; j++)
        if (potential_licenses_s[j] > -1) found[j] = 1;
      iter_language = iter_language->next;
      free(buffer);''')
ref('C13',S,'''      LocDelta *delta = ohcount_sourcefile_calc_loc_delta(from,
                                                          iter->pl->name,
                                                          to);
      ohcount_loc_delta_list_add_loc_delta(list, delta);
      ohcount_loc_delta_free(delta);
    }''','''      add_delta(list, from, to, iter->pl->name);
    }''',S,'''LocDeltaList *ohcount_sourcefile_diff(''','''static void add_delta(LocDeltaList *list, SourceFile *from, SourceFile *to,
                      const char *name) {
  LocDelta *delta = ohcount_sourcefile_calc_loc_delta(from, name, to);
  ohcount_loc_delta_list_add_loc_delta(list, delta);
  ohcount_loc_delta_free(delta);
}

LocDeltaList *ohcount_sourcefile_diff(''')

bug('C13',C,'''  list->head = NULL;
''','')
bug('C13',S,'''  sourcefile->license_list = NULL;
''','')
bug('C13',S,'''  sourcefile->diskpath = NULL;
''','')
bug('C13',C,'''  delta->blanks_removed = blanks_removed;
''','''  if (blanks_removed) delta->blanks_removed = blanks_removed;
''')
bug('C13',S,'''  sourcefile->size = -1;
''','''  if (*filepath) sourcefile->size = -1;
''')
ref('C13',C,'''  LocList *list = malloc(sizeof(LocList));
  list->loc = NULL;
  list->next = NULL;
  list->head = NULL;
  list->tail = NULL;''','''  LocList *list = malloc(sizeof(LocList));
  memset(list, 0, sizeof(LocList));''')
ref('C13',C,'''  LocList *list = malloc(sizeof(LocList));
  list->loc = NULL;
  list->next = NULL;
  list->head = NULL;
  list->tail = NULL;''','''  LocList *list = malloc(sizeof(LocList));
  list->loc = NULL;
  list->next = list->head = list->tail = NULL;''')

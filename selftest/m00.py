# Refactorings of every part, each judged by every check (the parsers' own macros and grammars: m01.py, m02.py).
A='C01 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C20 C21 C22'
S='src/sourcefile.c'; O='src/ohcount.c'; LC='src/loc.c'; P='src/parsed_language.c'; D='src/detector.c'; DI='src/diff.c'; LI='src/licenses.c'
ref(A,S,'''  int length = strlen(filepath);
  sourcefile->filepath = malloc(length + 1);
  strncpy(sourcefile->filepath, filepath, length);
  char *p = sourcefile->filepath + length;
  *p = '\\0';
''','''  const size_t length = strlen(filepath);
  sourcefile->filepath = malloc(length + 1);
  memcpy(sourcefile->filepath, filepath, length + 1);
  char *p = sourcefile->filepath + length;
''')
ref(A,S,'''SourceFile *ohcount_sourcefile_new(''','''static char *copy_string(const char *s) {
  int length = strlen(s);
  char *copy = malloc(length + 1);
  strncpy(copy, s, length);
  copy[length] = '\\0';
  return copy;
}

SourceFile *ohcount_sourcefile_new(''',S,'''  int size = strlen(diskpath);
  sourcefile->diskpath = malloc(size + 1);
  strncpy(sourcefile->diskpath, diskpath, size);
  sourcefile->diskpath[size] = '\\0';
''','''  sourcefile->diskpath = copy_string(diskpath);
''',S,'''  int size = strlen(contents);
  sourcefile->contents = malloc(size + 1);
  strncpy(sourcefile->contents, contents, size);
  sourcefile->contents[size] = '\\0';
  sourcefile->size = size;
''','''  sourcefile->contents = copy_string(contents);
  sourcefile->size = strlen(contents);
''')
ref(A,S,'''static int x;''' if 0 else '''  while (p > sourcefile->filepath && *(p - 1) != '.' &&
         *(p - 1) != '/' && *(p - 1) != '\\\\') p--;
''','''  for (; p > sourcefile->filepath; p--) {
    char c = p[-1];
    if (c == '.' || c == '/' || c == '\\\\') break;
  }
''')
ref(A,S,'''  sourcefile->dirpath = (p - 1) - sourcefile->filepath;
  if (sourcefile->dirpath < 0) sourcefile->dirpath = 0;
''','''  int before = (p - 1) - sourcefile->filepath;
  sourcefile->dirpath = before > 0 ? before : 0;
''')
ref(A,S,'''  if (sourcefile->contents == NULL) {
    char *path = sourcefile->filepath;
    if (sourcefile->diskpath)
      path = sourcefile->diskpath;
    FILE *f = fopen(path, "rb");
    if (f) {
      fseek(f, 0, SEEK_END);
      long size = ftell(f);
      rewind(f);
      // The size must fit in sourcefile->size.
      if (size < 0 || size >= INT_MAX) size = 0;
      sourcefile->contents = malloc(size + 1);
      if (fread(sourcefile->contents, size, 1, f) != 1) {
        free(sourcefile->contents);
        sourcefile->contents = NULL;
        sourcefile->size = 0;
      } else {
        sourcefile->size = size;
        sourcefile->contents[size] = '\\0';
      }
      fclose(f);
    } else {
      sourcefile->contents = NULL;
      sourcefile->size = 0;
    }
  }
  return sourcefile->contents;
''','''  if (sourcefile->contents != NULL)
    return sourcefile->contents;
  FILE *f = fopen(sourcefile->diskpath ? sourcefile->diskpath
                                       : sourcefile->filepath, "rb");
  sourcefile->contents = NULL;
  if (!f) {
    sourcefile->size = 0;
    return NULL;
  }
  fseek(f, 0, SEEK_END);
  long size = ftell(f);
  rewind(f);
  if (size < 0 || size >= INT_MAX) size = 0;
  char *text = malloc(size + 1);
  if (fread(text, size, 1, f) == 1) {
    text[size] = '\\0';
    sourcefile->contents = text;
    sourcefile->size = size;
  } else {
    free(text);
    sourcefile->size = 0;
  }
  fclose(f);
  return sourcefile->contents;
''')
ref(A,S,'''char *ohcount_sourcefile_get_contents(SourceFile *sourcefile) {
  if (sourcefile->contents == NULL) {
    char *path''','''static void read_contents(SourceFile *sourcefile);
char *ohcount_sourcefile_get_contents(SourceFile *sourcefile) {
  if (sourcefile->contents == NULL)
    read_contents(sourcefile);
  return sourcefile->contents;
}

static void read_contents(SourceFile *sourcefile) {
    char *path''',S,'''      sourcefile->contents = NULL;
      sourcefile->size = 0;
    }
  }
  return sourcefile->contents;
}''','''      sourcefile->contents = NULL;
      sourcefile->size = 0;
    }
}''')
ref(A,S,'''  if (rl) {
    sourcefile->language = rl->name;
    sourcefile->language_detected = 1;
  }''','''  if (rl == NULL) return;
  sourcefile->language_detected = 1;
  sourcefile->language = rl->name;''')
ref(A,S,'''    const char *language = ohcount_detect_language(sourcefile);
    // A file recognized as binary ("\\1") has no language.
    if (language && language[0] == '\\1') language = NULL;
    sourcefile->language = language;
    sourcefile->language_detected = 1;''','''    sourcefile->language_detected = 1;
    sourcefile->language = ohcount_detect_language(sourcefile);
    if (sourcefile->language != NULL && *sourcefile->language == '\\1')
      sourcefile->language = NULL;''')
ref(A,S,'''  ParsedLanguageList *list = sf->parsed_language_list;
  ParsedLanguage *lang;
  if (list->head == NULL) {
    // Empty list.
    list->head = list;
    list->tail = list;
    list->pl = ohcount_parsed_language_new(language, buffer_size);
    list->next = NULL;
    lang = list->pl;
  } else {
    // Has this language been detected before?
    ParsedLanguageList *iter = list->head;
    while (iter) {
      if (strcmp(iter->pl->name, language) == 0)
        break; // yes it has
      iter = iter->next;
    }
    if (iter == NULL) {
      // This language has not been detected before. Create a new entry and add
      // it to the list.
      iter = ohcount_parsed_language_list_new();
      iter->pl = ohcount_parsed_language_new(language, buffer_size);
      list->tail->next = iter;
      list->tail = iter;
    }
    lang = iter->pl;
  }
''','''  ParsedLanguage *lang = language_entry(sf->parsed_language_list, language, buffer_size);
''',S,'''void parser_callback(const char *language,''','''static ParsedLanguage *language_entry(ParsedLanguageList *list,
                                      const char *language, int buffer_size) {
  ParsedLanguageList *iter;
  for (iter = list->head; iter; iter = iter->next)
    if (!strcmp(iter->pl->name, language))
      return iter->pl;
  if (list->head == NULL) {
    iter = list->head = list;
  } else {
    iter = ohcount_parsed_language_list_new();
    list->tail->next = iter;
  }
  iter->pl = ohcount_parsed_language_new(language, buffer_size);
  list->tail = iter;
  return iter->pl;
}

void parser_callback(const char *language,''')
ref(A,S,'''  if (strcmp(entity, "lcode") == 0) {
    while (p < pe && (*p == ' ' || *p == '\\t')) p++;
    ohcount_parsed_language_add_code(lang, p, pe - p);
  } else if (strcmp(entity, "lcomment") == 0) {
    while (p < pe && (*p == ' ' || *p == '\\t')) p++;
    ohcount_parsed_language_add_comment(lang, p, pe - p);
  } else if (strcmp(entity, "lblank") == 0) {
    lang->blanks_count++;
  }''','''  if (strcmp(entity, "lblank") == 0) {
    lang->blanks_count += 1;
    return;
  }
  int is_code = strcmp(entity, "lcode") == 0;
  if (!is_code && strcmp(entity, "lcomment") != 0) return;
  for (; p < pe; ++p)
    if (*p != ' ' && *p != '\\t') break;
  if (is_code)
    ohcount_parsed_language_add_code(lang, p, pe - p);
  else
    ohcount_parsed_language_add_comment(lang, p, pe - p);''')
ref(A,S,'''void ohcount_sourcefile_parse(SourceFile *sourcefile) {
  if (sourcefile->parsed_language_list == NULL) {
    sourcefile->parsed_language_list = ohcount_parsed_language_list_new();''','''void ohcount_sourcefile_parse(SourceFile *sourcefile) {
  if (sourcefile->parsed_language_list != NULL) return;
  {
    ParsedLanguageList *parsed = ohcount_parsed_language_list_new();
    sourcefile->parsed_language_list = parsed;''')
ref(A,S,'''  if (sourcefile->loc_list == NULL) {
    LocList *list = ohcount_loc_list_new();
    ohcount_sourcefile_parse(sourcefile);
    ParsedLanguageList *iter;
    iter = ohcount_sourcefile_get_parsed_language_list(sourcefile)->head;
    while (iter) {
      Loc *loc = ohcount_loc_new(iter->pl->name, iter->pl->code_count,
                                 iter->pl->comments_count,
                                 iter->pl->blanks_count, 1);
      ohcount_loc_list_add_loc(list, loc);
      ohcount_loc_free(loc);
      iter = iter->next;
    }
    sourcefile->loc_list = list;
  }
  return sourcefile->loc_list;''','''  if (sourcefile->loc_list) return sourcefile->loc_list;
  sourcefile->loc_list = ohcount_loc_list_new();
  ParsedLanguageList *iter = ohcount_sourcefile_get_parsed_language_list(sourcefile)->head;
  for (; iter != NULL; iter = iter->next) {
    const ParsedLanguage *pl = iter->pl;
    Loc *loc = ohcount_loc_new(pl->name, pl->code_count, pl->comments_count,
                               pl->blanks_count, 1);
    ohcount_loc_list_add_loc(sourcefile->loc_list, loc);
    ohcount_loc_free(loc);
  }
  return sourcefile->loc_list;''')
ref(A,S,'''  iter = ohcount_sourcefile_get_parsed_language_list(from)->head;
  while (iter) {
    LocDelta *delta = ohcount_sourcefile_calc_loc_delta(from,
                                                        iter->pl->name,
                                                        to);
    ohcount_loc_delta_list_add_loc_delta(list, delta);
    ohcount_loc_delta_free(delta);
    iter = iter->next;
  }
''','''  for (iter = ohcount_sourcefile_get_parsed_language_list(from)->head; iter; iter = iter->next)
    add_delta(list, from, iter->pl->name, to);
''',S,'''LocDeltaList *ohcount_sourcefile_diff(''','''static void add_delta(LocDeltaList *list, SourceFile *from, const char *language,
                      SourceFile *to) {
  LocDelta *delta = ohcount_sourcefile_calc_loc_delta(from, language, to);
  ohcount_loc_delta_list_add_loc_delta(list, delta);
  ohcount_loc_delta_free(delta);
}

LocDeltaList *ohcount_sourcefile_diff(''',S,'''    if (!ohcount_loc_delta_list_get_loc_delta(list, iter->pl->name)) {
      LocDelta *delta = ohcount_sourcefile_calc_loc_delta(from,
                                                          iter->pl->name,
                                                          to);
      ohcount_loc_delta_list_add_loc_delta(list, delta);
      ohcount_loc_delta_free(delta);
    }
    iter = iter->next;''','''    if (ohcount_loc_delta_list_get_loc_delta(list, iter->pl->name) == NULL)
      add_delta(list, from, iter->pl->name, to);
    iter = iter->next;''')
FIND='''	for (iter = ohcount_sourcefile_get_parsed_language_list(from_file)->head;
			 iter;
			 iter = iter->next) {
		if (strcmp(language, iter->pl->name) == 0) {
			from = iter->pl;
			break;
		}
	}

	for (iter = ohcount_sourcefile_get_parsed_language_list(to_file)->head;
			 iter;
			 iter = iter->next) {
		if (strcmp(language, iter->pl->name) == 0) {
			to = iter->pl;
			break;
		}
	}
'''
ref(A,S,FIND,'''  from = find_language(from_file, language, blank);
  to = find_language(to_file, language, blank);
''',S,'''  ParsedLanguageList *iter;
'+''' if 0 else '''LocDelta *ohcount_sourcefile_calc_loc_delta(SourceFile *from_file,
                                            const char *language,
                                            SourceFile *to_file) {''','''static ParsedLanguage *find_language(SourceFile *file, const char *language,
                                     ParsedLanguage *otherwise) {
  ParsedLanguageList *iter;
  for (iter = ohcount_sourcefile_get_parsed_language_list(file)->head; iter; iter = iter->next)
    if (strcmp(language, iter->pl->name) == 0)
      return iter->pl;
  return otherwise;
}

LocDelta *ohcount_sourcefile_calc_loc_delta(SourceFile *from_file,
                                            const char *language,
                                            SourceFile *to_file) {''')
ref(A,S,'''  if (from->blanks_count > to->blanks_count)
    delta->blanks_removed = from->blanks_count - to->blanks_count;
  else
    delta->blanks_added = to->blanks_count - from->blanks_count;
''','''  const int more = to->blanks_count - from->blanks_count;
  if (more < 0)
    delta->blanks_removed = -more;
  else
    delta->blanks_added = more;
''')
ref(A,S,'''  free(sourcefile->filepath);
  if (sourcefile->diskpath)
    free(sourcefile->diskpath);
  if (sourcefile->contents)
    free(sourcefile->contents);
  if (sourcefile->parsed_language_list)
    ohcount_parsed_language_list_free(sourcefile->parsed_language_list);
  if (sourcefile->license_list)
    ohcount_license_list_free(sourcefile->license_list);
  if (sourcefile->loc_list)
    ohcount_loc_list_free(sourcefile->loc_list);
''','''  if (sourcefile->loc_list != NULL)
    ohcount_loc_list_free(sourcefile->loc_list);
  if (sourcefile->license_list != NULL)
    ohcount_license_list_free(sourcefile->license_list);
  if (sourcefile->parsed_language_list != NULL)
    ohcount_parsed_language_list_free(sourcefile->parsed_language_list);
  free(sourcefile->contents);
  free(sourcefile->diskpath);
  free(sourcefile->filepath);
''')
ref(A,S,'''  if (list->head == NULL) { // empty list
    list->head = list;
    list->tail = list;
    list->head->sf = ohcount_sourcefile_new(filepath);
    list->head->next = NULL;
  } else {
    SourceFileList *item = ohcount_sourcefile_list_new();
    item->sf = ohcount_sourcefile_new(filepath);
    list->tail->next = item;
    list->tail = item;
  }
''','''  SourceFileList *item = list;
  if (list->head != NULL) {
    item = ohcount_sourcefile_list_new();
    list->tail->next = item;
  } else
    list->head = list;
  item->sf = ohcount_sourcefile_new(filepath);
  item->next = NULL;
  list->tail = item;
''')
ref(A,S,'''  DIR *d = NULL;
  d = opendir(directory);
  if (d) {
    while ((file = readdir(d))) {''','''  DIR *d = opendir(directory);
  if (d == NULL) return;
  {
    for (file = readdir(d); file != NULL; file = readdir(d)) {''')
ref(A,S,'''      if (S_ISDIR(st.st_mode) && *file->d_name != '.') // no hidden dirs
        ohcount_sourcefile_list_add_directory(list, filepath);
      else if (S_ISREG(st.st_mode))
        ohcount_sourcefile_list_add_file(list, filepath);''','''      switch (st.st_mode & S_IFMT) {
        case S_IFREG:
          ohcount_sourcefile_list_add_file(list, filepath);
          break;
        case S_IFDIR:
          if (file->d_name[0] != '.') // no hidden dirs
            ohcount_sourcefile_list_add_directory(list, filepath);
          break;
      }''')
ref(A,S,'''  LocList *loc_list = ohcount_loc_list_new();
  SourceFileList *iter = list->head;
  while (iter) {
    ohcount_loc_list_add_loc_list(loc_list,
                                  ohcount_sourcefile_get_loc_list(iter->sf));
    iter = iter->next;
  }
  return loc_list;''','''  LocList *sum = ohcount_loc_list_new();
  for (SourceFileList *iter = list->head; iter; iter = iter->next) {
    LocList *one = ohcount_sourcefile_get_loc_list(iter->sf);
    ohcount_loc_list_add_loc_list(sum, one);
  }
  return sum;''')
ref(A,S,'''  if (list->head) {
    SourceFileList *iter = list->head;
    while (iter) {
      SourceFileList *next = iter->next;
      ohcount_sourcefile_free(iter->sf);
      free(iter);
      iter = next;
    }
  } else free(list);''','''  if (!list->head) {
    free(list);
    return;
  }
  SourceFileList *iter, *next;
  for (iter = list->head; iter; iter = next) {
    next = iter->next;
    ohcount_sourcefile_free(iter->sf);
    free(iter);
  }''')
# ohcount.c
ref(A,O,'''  SourceFile *sf = (SourceFile *)userdata;
  int length = end - start;
  char buf[length + 1];
  strncpy(buf, (const char*)sf->contents + start, length); // field exists
  buf[length] = '\\0';
  printf("%s\\t%s\\t%s", language, entity, buf);''','''  const SourceFile *file = userdata;
  printf("%s\\t%s\\t", language, entity);
  printf("%.*s", end - start, file->contents + start);''')
ref(A,O,'''  SourceFileList *iter = list->head;
  while (iter) {
    const char *language = ohcount_sourcefile_get_language(iter->sf);
    if (language)
      printf("%s\\t%s\\n", language, iter->sf->filepath);
    iter = iter->next;
  }''','''  SourceFileList *iter;
  for (iter = list->head; iter; iter = iter->next) {
    const char *language = ohcount_sourcefile_get_language(iter->sf);
    if (language == NULL) continue;
    printf("%s\\t%s\\n", language, iter->sf->filepath);
  }''')
ref(A,O,'''      printf("%s%s ", liter->lic->name, (liter->next != NULL) ? "," : "");
      printf("%s\\n", iter->sf->filename);''','''      const char *comma = liter->next ? "," : "";
      printf("%s%s %s\\n", liter->lic->name, comma, iter->sf->filename);''')
ref(A,O,'''    LocList *min = iter;
    LocList *iter2 = iter->next;
    while (iter2) {
      if (strcmp(iter2->loc->language, min->loc->language) < 0)
        min = iter2;
      iter2 = iter2->next;
    }
    if (iter != min) {
      Loc *temp = iter->loc;
      iter->loc = min->loc;
      min->loc = temp;
    }
    iter = iter->next;''','''    LocList *min = iter, *other;
    for (other = iter->next; other; other = other->next)
      if (strcmp(min->loc->language, other->loc->language) > 0)
        min = other;
    Loc *first = min->loc;
    min->loc = iter->loc;
    iter->loc = first;
    iter = iter->next;''')
ref(A,O,'''void individual(SourceFileList *list) {
  int count = 0;
  SourceFileList *titer = list->head;
  while (titer) {
    count++;
    titer = titer->next;
  }
''','''static int count_files(SourceFileList *list) {
  int count = 0;
  SourceFileList *iter;
  for (iter = list->head; iter; iter = iter->next)
    count++;
  return count;
}

void individual(SourceFileList *list) {
  int count = count_files(list);
''',O,'''  int count = 0;
  SourceFileList *tmpiter = list->head;
  while (tmpiter) {
    count++;
    tmpiter = tmpiter->next;
  }
''','''  int count = count_files(list);
''')
ref(A,O,'''      printf("%-16s", liter->loc->language);
      printf(" %10d", liter->loc->code);
      printf(" %10d", liter->loc->comments);
      if (liter->loc->comments + liter->loc->code > 0)''','''      const Loc *loc = liter->loc;
      printf("%-16s %10d %10d", loc->language, loc->code, loc->comments);
      if (loc->comments + loc->code > 0)''',O,'''      printf(" %10d",
             liter->loc->code + liter->loc->comments + liter->loc->blanks);
      printf("  %s\\n", iter->sf->filepath);''','''      printf(" %10d", ohcount_loc_total(liter->loc));
      printf("  %s\\n", iter->sf->filepath);''')
ref(A,O,'''  int code = ohcount_loc_list_code(loc_list);
  int comments = ohcount_loc_list_comments(loc_list);
  int blanks = ohcount_loc_list_blanks(loc_list);
  printf("%-16s", "Total");
  printf(" %6d", ohcount_loc_list_filecount(loc_list));
  printf(" %10d", code);
  printf(" %10d", comments);''','''  int code = ohcount_loc_list_code(loc_list);
  int comments = ohcount_loc_list_comments(loc_list);
  int blanks = ohcount_loc_list_blanks(loc_list);
  printf("%-16s %6d %10d %10d", "Total", ohcount_loc_list_filecount(loc_list),
         code, comments);''')
ref(A,O,'''  int command = 0;
  if (argc > 1) {
    struct OhcountOption *opt = ohcount_hash_command_from_flag(argv[1],
                                                               strlen(argv[1]));
    if (opt)
      command = opt->value;
  }
  int i = 1;
  if (command == 0)
    command = COMMAND_SUMMARY;
  else
    i = 2; // parameter is not a file or directory
''','''  int command = COMMAND_SUMMARY;
  int i = 1;
  if (argc > 1) {
    struct OhcountOption *opt = ohcount_hash_command_from_flag(argv[1],
                                                               strlen(argv[1]));
    if (opt) {
      command = opt->value;
      i++;
    }
  }
''')
ref(A,O,'''  for (; i < argc; i++) {
    DIR *dir = opendir(argv[i]);
    if (dir) {
      ohcount_sourcefile_list_add_directory(list, argv[i]);
      closedir(dir);
    } else {
      FILE *f = fopen(argv[i], "rb");
      if (f) {
        ohcount_sourcefile_list_add_file(list, argv[i]);
        fclose(f);
      } else printf("Bad argument: %s\\n", argv[i]);
    }
  }''','''  while (i < argc)
    add_path(list, argv[i++]);''',O,'''int main(int argc''','''static void add_path(SourceFileList *list, const char *path) {
  DIR *dir = opendir(path);
  if (dir) {
    closedir(dir);
    ohcount_sourcefile_list_add_directory(list, path);
    return;
  }
  FILE *f = fopen(path, "rb");
  if (!f) {
    printf("Bad argument: %s\\n", path);
    return;
  }
  fclose(f);
  ohcount_sourcefile_list_add_file(list, path);
}

int main(int argc''')
ref(A,O,'''  switch (command) {
  case COMMAND_ANNOTATE:
    annotate(list);
    break;
  case COMMAND_DETECT:
    detect(list);
    break;
  case COMMAND_HELP:
    help();
    break;
''','''  if (command == COMMAND_ANNOTATE) annotate(list);
  else if (command == COMMAND_DETECT) detect(list);
  else if (command == COMMAND_HELP) help();
  else switch (command) {
''')
# loc.c
ref(A,LC,'''  if (strcmp(loc->language, other->language) == 0) {
    loc->code += other->code;
    loc->comments += other->comments;
    loc->blanks += other->blanks;
    loc->filecount += other->filecount;
  }''','''  if (strcmp(loc->language, other->language)) return;
  loc->filecount = loc->filecount + other->filecount;
  loc->blanks = other->blanks + loc->blanks;
  loc->comments += other->comments;
  loc->code += other->code;''')
ref(A,LC,'''  if (list->head == NULL) { // empty list
    list->head = list;
    list->tail = list;
    list->head->loc = ohcount_loc_new(loc->language, loc->code, loc->comments,
                                      loc->blanks, loc->filecount);
    list->head->next = NULL;
  } else {
    LocList *iter = list->head;
    while (iter) {
      if (iter->loc && strcmp(iter->loc->language, loc->language) == 0) break;
      iter = iter->next;
    }
    if (iter == NULL) { // new language
      LocList *item = ohcount_loc_list_new();
      item->loc = ohcount_loc_new(loc->language, loc->code, loc->comments,
                                  loc->blanks, loc->filecount);
      list->tail->next = item;
      list->tail = item;
    } else ohcount_loc_add_loc(iter->loc, loc); // existing language
  }''','''  Loc *existing = list->head ? ohcount_loc_list_get_loc(list, loc->language) : NULL;
  if (existing) {
    ohcount_loc_add_loc(existing, loc);
    return;
  }
  LocList *item = list;
  if (list->head) {
    item = ohcount_loc_list_new();
    list->tail->next = item;
  } else
    list->head = list;
  item->loc = ohcount_loc_new(loc->language, loc->code, loc->comments,
                              loc->blanks, loc->filecount);
  list->tail = item;''')
ref(A,LC,'''int ohcount_loc_list_total(LocList *list) {
  int sum = 0;
  LocList *iter = list->head;
  while (iter) {
    sum += ohcount_loc_total(iter->loc);
    iter = iter->next;
  }
  return sum;
}''','''int ohcount_loc_list_total(LocList *list) {
  return ohcount_loc_list_code(list) + ohcount_loc_list_comments(list) +
         ohcount_loc_list_blanks(list);
}''')
ref(A,LC,'''int ohcount_loc_list_code(LocList *list) {
  int sum = 0;
  LocList *iter = list->head;
  while (iter) {
    sum += iter->loc->code;
    iter = iter->next;
  }
  return sum;''','''static int sum_of(LocList *list, int (*field)(Loc *)) {
  int sum = 0;
  LocList *iter;
  for (iter = list->head; iter; iter = iter->next)
    sum += field(iter->loc);
  return sum;
}
static int code_of(Loc *loc) { return loc->code; }
static int comments_of(Loc *loc) { return loc->comments; }

int ohcount_loc_list_code(LocList *list) {
  return sum_of(list, code_of);''',LC,'''int ohcount_loc_list_comments(LocList *list) {
  int sum = 0;
  LocList *iter = list->head;
  while (iter) {
    sum += iter->loc->comments;
    iter = iter->next;
  }
  return sum;''','''int ohcount_loc_list_comments(LocList *list) {
  return sum_of(list, comments_of);''')
ref(A,LC,'''  while (iter) {
    if (ohcount_loc_total(iter->loc) != 0)
      ohcount_loc_list_add_loc(new_list, iter->loc);
    iter = iter->next;
  }''','''  for (; iter != NULL; iter = iter->next) {
    Loc *loc = iter->loc;
    if (!ohcount_loc_total(loc)) continue;
    ohcount_loc_list_add_loc(new_list, loc);
  }''')
ref(A,LC,'''  return delta->code_added != 0 || delta->code_removed != 0 ||
         delta->comments_added != 0 || delta->comments_removed != 0 ||
         delta->blanks_added != 0 || delta->blanks_removed != 0;''','''  if (delta->code_added || delta->code_removed) return 1;
  if (delta->comments_added || delta->comments_removed) return 1;
  return delta->blanks_added || delta->blanks_removed;''')
ref(A,LC,'''  return strcmp(loc->language, other->language) == 0 &&
         loc->code == other->code && loc->comments == other->comments &&
         loc->blanks == other->blanks && loc->filecount == other->filecount;''','''  if (loc->code != other->code || loc->comments != other->comments)
    return 0;
  if (loc->blanks != other->blanks || loc->filecount != other->filecount)
    return 0;
  return !strcmp(loc->language, other->language);''')
ref(A,LC,'''  Loc *loc = malloc(sizeof(Loc));
  loc->language = language;
  loc->code = code;
  loc->comments = comments;
  loc->blanks = blanks;
  loc->filecount = filecount;
  return loc;''','''  Loc *loc = malloc(sizeof(*loc));
  *loc = (Loc) { .language = language, .code = code, .comments = comments,
                 .blanks = blanks, .filecount = filecount };
  return loc;''')
ref(A,LC,'''  list->loc = NULL;
  list->next = NULL;
  list->head = NULL;
  list->tail = NULL;
  return list;''','''  memset(list, 0, sizeof(LocList));
  return list;''')
ref(A,LC,'''  LocList *list = malloc(sizeof(LocList));
  list->loc = NULL;
  list->next = NULL;
  list->head = NULL;
  list->tail = NULL;
  return list;''','''  return calloc(1, sizeof(LocList));''')
# parsed_language.c
ref(A,P,'''  if (parsed_language->code_p + length <
      parsed_language->code + parsed_language->buffer_size + 5) {
    strncpy(parsed_language->code_p, p, length);
    parsed_language->code_p += length;
    *parsed_language->code_p = '\\0';
    parsed_language->code_count++;
  }''','''  char *end = parsed_language->code + parsed_language->buffer_size + 5;
  if (parsed_language->code_p + length >= end) return;
  strncpy(parsed_language->code_p, p, length);
  parsed_language->code_p[length] = '\\0';
  parsed_language->code_p += length;
  ++parsed_language->code_count;''')
ref(A,P,'''  ParsedLanguage *pl = malloc(sizeof(ParsedLanguage));
  pl->name = name;
  pl->buffer_size = buffer_size;
  pl->code = malloc(buffer_size + 5);
  pl->code_p = pl->code;
  *pl->code_p = '\\0';
  pl->code_count = 0;
  pl->comments = malloc(buffer_size + 5);
  pl->comments_p = pl->comments;
  *pl->comments_p = '\\0';
  pl->comments_count = 0;
  pl->blanks_count = 0;''','''  ParsedLanguage *pl = malloc(sizeof(ParsedLanguage));
  const int room = buffer_size + 5;
  pl->name = name;
  pl->buffer_size = buffer_size;
  pl->code = pl->code_p = malloc(room);
  pl->comments = pl->comments_p = malloc(room);
  pl->code[0] = pl->comments[0] = '\\0';
  pl->code_count = pl->comments_count = pl->blanks_count = 0;''')
ref(A,P,'''  if (list->head) {
    ParsedLanguageList *iter = list->head;
    while (iter) {
      ParsedLanguageList *next = iter->next;
      ohcount_parsed_language_free(iter->pl);
      free(iter);
      iter = next;
    }
  } else free(list);''','''  ParsedLanguageList *iter = list->head;
  if (iter == NULL) free(list);
  while (iter) {
    ParsedLanguageList *done = iter;
    iter = iter->next;
    ohcount_parsed_language_free(done->pl);
    free(done);
  }''')

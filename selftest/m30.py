# A second set of refactorings, larger ones, each judged by every check.
A='C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C20 C21 C22'
B='C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C21 C22'
S='src/sourcefile.c'
ref(B,S,'''    FILE *f = fopen(path, "rb");
    if (f) {
      fseek(f, 0, SEEK_END);
      long size = ftell(f);
      rewind(f);
      // The size must fit in sourcefile->size.
      if (size < 0 || size >= INT_MAX) size = 0;
      sourcefile->contents = malloc(size + 1);
      if (fread(sourcefile->contents, size, 1, f) != 1) {
        free(sourcefile->contents);
        sourcefile->contents = NULL;
        sourcefile->size = 0;
      } else {
        sourcefile->size = size;
        sourcefile->contents[size] = '\\0';
      }
      fclose(f);
    } else {
      sourcefile->contents = NULL;
      sourcefile->size = 0;
    }
''','''    sourcefile->size = 0;
    FILE *f = fopen(path, "rb");
    if (f) {
      fseek(f, 0, SEEK_END);
      long size = ftell(f);
      rewind(f);
      if (size < 0 || size >= INT_MAX) size = 0;
      char *text = malloc(size + 1);
      if (fread(text, size, 1, f) == 1) {
        text[size] = '\\0';
        sourcefile->contents = text;
        sourcefile->size = size;
      } else
        free(text);
      fclose(f);
    }
''')
ref(B,S,'''char *ohcount_sourcefile_get_contents(SourceFile *sourcefile) {
  if (sourcefile->contents == NULL) {
    char *path = sourcefile->filepath;
    if (sourcefile->diskpath)
      path = sourcefile->diskpath;
    FILE *f = fopen(path, "rb");
    if (f) {''','''static FILE *open_source(SourceFile *sourcefile) {
  if (sourcefile->diskpath)
    return fopen(sourcefile->diskpath, "rb");
  return fopen(sourcefile->filepath, "rb");
}

char *ohcount_sourcefile_get_contents(SourceFile *sourcefile) {
  if (sourcefile->contents == NULL) {
    FILE *f = open_source(sourcefile);
    if (f) {''')
ref(B,S,'''  ParsedLanguageList *list = sf->parsed_language_list;
  ParsedLanguage *lang;
  if (list->head == NULL) {''','''  ParsedLanguageList *list = sf->parsed_language_list;
  ParsedLanguage *lang = NULL;
  if (!list->head) {''',S,'''  if (strcmp(entity, "lcode") == 0) {
    while (p < pe && (*p == ' ' || *p == '\\t')) p++;
    ohcount_parsed_language_add_code(lang, p, pe - p);
  } else if (strcmp(entity, "lcomment") == 0) {
    while (p < pe && (*p == ' ' || *p == '\\t')) p++;
    ohcount_parsed_language_add_comment(lang, p, pe - p);
  } else if (strcmp(entity, "lblank") == 0) {
    lang->blanks_count++;
  }
''','''  if (!strcmp(entity, "lblank")) {
    lang->blanks_count += 1;
    return;
  }
  for (; p < pe; p++)
    if (*p != ' ' && *p != '\\t') break;
  if (!strcmp(entity, "lcode"))
    ohcount_parsed_language_add_code(lang, p, pe - p);
  else if (!strcmp(entity, "lcomment"))
    ohcount_parsed_language_add_comment(lang, p, pe - p);
''')
ref(B,S,'''    // Has this language been detected before?
    ParsedLanguageList *iter = list->head;
    while (iter) {
      if (strcmp(iter->pl->name, language) == 0)
        break; // yes it has
      iter = iter->next;
    }
    if (iter == NULL) {''','''    ParsedLanguageList *iter;
    for (iter = list->head; iter && strcmp(iter->pl->name, language) != 0;)
      iter = iter->next;
    if (!iter) {''')
ref(B,S,'''void parser_callback(const char *language, const char *entity, int start,
                     int end, void *userdata) {
  SourceFile *sf = (SourceFile *)userdata;
  char *buffer = sf->contents; // field is guaranteed to exist
  int buffer_size = sf->size; // field is guaranteed to exist
  char *p = buffer + start, *pe = buffer + end;

  ParsedLanguageList *list = sf->parsed_language_list;
  ParsedLanguage *lang;
  if (list->head == NULL) {
    // Empty list.
    list->head = list;
    list->tail = list;
    list->pl = ohcount_parsed_language_new(language, buffer_size);
    list->next = NULL;
    lang = list->pl;
  } else {
    // Has this language been detected before?
    ParsedLanguageList *iter = list->head;
    while (iter) {
      if (strcmp(iter->pl->name, language) == 0)
        break; // yes it has
      iter = iter->next;
    }
    if (iter == NULL) {
      // This language has not been detected before. Create a new entry and add
      // it to the list.
      iter = ohcount_parsed_language_list_new();
      iter->pl = ohcount_parsed_language_new(language, buffer_size);
      list->tail->next = iter;
      list->tail = iter;
    }
    lang = iter->pl;
  }
''','''static ParsedLanguage *language_entry(ParsedLanguageList *list,
                                      const char *language, int buffer_size) {
  if (list->head == NULL) {
    // Empty list.
    list->head = list;
    list->tail = list;
    list->pl = ohcount_parsed_language_new(language, buffer_size);
    list->next = NULL;
    return list->pl;
  }
  ParsedLanguageList *iter;
  for (iter = list->head; iter; iter = iter->next)
    if (strcmp(iter->pl->name, language) == 0) return iter->pl;
  iter = ohcount_parsed_language_list_new();
  iter->pl = ohcount_parsed_language_new(language, buffer_size);
  list->tail->next = iter;
  list->tail = iter;
  return iter->pl;
}

void parser_callback(const char *language, const char *entity, int start,
                     int end, void *userdata) {
  SourceFile *sf = (SourceFile *)userdata;
  char *buffer = sf->contents; // field is guaranteed to exist
  char *p = buffer + start, *pe = buffer + end;
  ParsedLanguage *lang = language_entry(sf->parsed_language_list, language,
                                        sf->size);
''')
ref(B,S,'''  if (sourcefile->parsed_language_list == NULL) {
    sourcefile->parsed_language_list = ohcount_parsed_language_list_new();
    ohcount_parse(sourcefile, 1, parser_callback, sourcefile);
''','''  if (sourcefile->parsed_language_list != NULL) return;
  {
    ParsedLanguageList *fresh = ohcount_parsed_language_list_new();
    sourcefile->parsed_language_list = fresh;
    ohcount_parse(sourcefile, 1, parser_callback, sourcefile);
''')
ref(B,S,'''  if (sourcefile->loc_list == NULL) {
    LocList *list = ohcount_loc_list_new();
    ohcount_sourcefile_parse(sourcefile);
    ParsedLanguageList *iter;
    iter = ohcount_sourcefile_get_parsed_language_list(sourcefile)->head;
    while (iter) {
      Loc *loc = ohcount_loc_new(iter->pl->name, iter->pl->code_count,
                                 iter->pl->comments_count,
                                 iter->pl->blanks_count, 1);
      ohcount_loc_list_add_loc(list, loc);
      ohcount_loc_free(loc);
      iter = iter->next;
    }
    sourcefile->loc_list = list;
  }
  return sourcefile->loc_list;
''','''  if (sourcefile->loc_list) return sourcefile->loc_list;
  LocList *list = sourcefile->loc_list = ohcount_loc_list_new();
  ParsedLanguageList *iter;
  for (iter = ohcount_sourcefile_get_parsed_language_list(sourcefile)->head;
       iter != NULL; iter = iter->next) {
    ParsedLanguage *pl = iter->pl;
    Loc *loc = ohcount_loc_new(pl->name, pl->code_count, pl->comments_count,
                               pl->blanks_count, 1);
    ohcount_loc_list_add_loc(list, loc);
    ohcount_loc_free(loc);
  }
  return list;
''')
ref(B,S,'''  ParsedLanguageList *iter;
  iter = ohcount_sourcefile_get_parsed_language_list(from)->head;
  while (iter) {
    LocDelta *delta = ohcount_sourcefile_calc_loc_delta(from,
                                                        iter->pl->name,
                                                        to);
    ohcount_loc_delta_list_add_loc_delta(list, delta);
    ohcount_loc_delta_free(delta);
    iter = iter->next;
  }
  iter = ohcount_sourcefile_get_parsed_language_list(to)->head;
  while (iter) {
    if (!ohcount_loc_delta_list_get_loc_delta(list, iter->pl->name)) {
      LocDelta *delta = ohcount_sourcefile_calc_loc_delta(from,
                                                          iter->pl->name,
                                                          to);
      ohcount_loc_delta_list_add_loc_delta(list, delta);
      ohcount_loc_delta_free(delta);
    }
    iter = iter->next;
  }
''','''  ParsedLanguageList *old_langs = ohcount_sourcefile_get_parsed_language_list(from)->head;
  ParsedLanguageList *new_langs = ohcount_sourcefile_get_parsed_language_list(to)->head;
  for (; old_langs; old_langs = old_langs->next) {
    LocDelta *delta = ohcount_sourcefile_calc_loc_delta(from, old_langs->pl->name, to);
    ohcount_loc_delta_list_add_loc_delta(list, delta);
    ohcount_loc_delta_free(delta);
  }
  for (; new_langs; new_langs = new_langs->next) {
    const char *name = new_langs->pl->name;
    if (ohcount_loc_delta_list_get_loc_delta(list, name) != NULL) continue;
    LocDelta *delta = ohcount_sourcefile_calc_loc_delta(from, name, to);
    ohcount_loc_delta_list_add_loc_delta(list, delta);
    ohcount_loc_delta_free(delta);
  }
''')
ref(B,S,'''LocDeltaList *ohcount_sourcefile_diff(SourceFile *from''','''static void add_delta(LocDeltaList *list, SourceFile *from, SourceFile *to,
                      const char *name) {
  LocDelta *delta = ohcount_sourcefile_calc_loc_delta(from, name, to);
  ohcount_loc_delta_list_add_loc_delta(list, delta);
  ohcount_loc_delta_free(delta);
}

LocDeltaList *ohcount_sourcefile_diff(SourceFile *from''',S,'''    LocDelta *delta = ohcount_sourcefile_calc_loc_delta(from,
                                                        iter->pl->name,
                                                        to);
    ohcount_loc_delta_list_add_loc_delta(list, delta);
    ohcount_loc_delta_free(delta);
    iter = iter->next;
''','''    add_delta(list, from, to, iter->pl->name);
    iter = iter->next;
''',S,'''      LocDelta *delta = ohcount_sourcefile_calc_loc_delta(from,
                                                          iter->pl->name,
                                                          to);
      ohcount_loc_delta_list_add_loc_delta(list, delta);
      ohcount_loc_delta_free(delta);
    }
''','''      add_delta(list, from, to, iter->pl->name);
    }
''')
ref(B,S,'''LocDelta *ohcount_sourcefile_calc_loc_delta(''','''static ParsedLanguage *find_language(SourceFile *file, const char *language,
                                     ParsedLanguage *otherwise) {
  ParsedLanguageList *iter;
  for (iter = ohcount_sourcefile_get_parsed_language_list(file)->head; iter;
       iter = iter->next)
    if (strcmp(language, iter->pl->name) == 0) return iter->pl;
  return otherwise;
}

LocDelta *ohcount_sourcefile_calc_loc_delta(''',S,'''	ParsedLanguage *from = blank, *to = blank;

  ParsedLanguageList *iter;
	for (iter = ohcount_sourcefile_get_parsed_language_list(from_file)->head;
			 iter;
			 iter = iter->next) {
		if (strcmp(language, iter->pl->name) == 0) {
			from = iter->pl;
			break;
		}
	}

	for (iter = ohcount_sourcefile_get_parsed_language_list(to_file)->head;
			 iter;
			 iter = iter->next) {
		if (strcmp(language, iter->pl->name) == 0) {
			to = iter->pl;
			break;
		}
	}
''','''  ParsedLanguage *from = find_language(from_file, language, blank);
  ParsedLanguage *to = find_language(to_file, language, blank);
''')
ref(B,S,'''  if (from->blanks_count > to->blanks_count)
    delta->blanks_removed = from->blanks_count - to->blanks_count;
  else
    delta->blanks_added = to->blanks_count - from->blanks_count;
''','''  int blanks = to->blanks_count - from->blanks_count;
  if (blanks >= 0)
    delta->blanks_added = blanks;
  else
    delta->blanks_removed = -blanks;
''')
ref(B,S,'''  if (sourcefile->diskpath)
    free(sourcefile->diskpath);
  if (sourcefile->contents)
    free(sourcefile->contents);
  if (sourcefile->parsed_language_list)''','''  free(sourcefile->contents);
  free(sourcefile->diskpath);
  if (sourcefile->parsed_language_list)''')
ref(B,S,'''  if (list->head == NULL) { // empty list
    list->head = list;
    list->tail = list;
    list->head->sf = ohcount_sourcefile_new(filepath);
    list->head->next = NULL;
  } else {
    SourceFileList *item = ohcount_sourcefile_list_new();
    item->sf = ohcount_sourcefile_new(filepath);
    list->tail->next = item;
    list->tail = item;
  }
''','''  SourceFile *file = ohcount_sourcefile_new(filepath);
  if (list->head != NULL) {
    SourceFileList *item = ohcount_sourcefile_list_new();
    item->sf = file;
    list->tail = list->tail->next = item;
    return;
  }
  list->head = list->tail = list;
  list->sf = file;
  list->next = NULL;
''')
ref(B,S,'''    while ((file = readdir(d))) {
      struct stat st;
      int length = strlen(file->d_name);
      if (length >= filepath + sizeof(filepath) - f_p) continue; // path too long
      strncpy(f_p, (const char *)file->d_name, length);
      *(f_p + length) = '\\0';

      if (lstat(filepath, &st) != 0 || S_ISLNK(st.st_mode))
        continue;

      if (S_ISDIR(st.st_mode) && *file->d_name != '.') // no hidden dirs
        ohcount_sourcefile_list_add_directory(list, filepath);
      else if (S_ISREG(st.st_mode))
        ohcount_sourcefile_list_add_file(list, filepath);
    }
    closedir(d);
''','''    for (file = readdir(d); file != NULL; file = readdir(d)) {
      struct stat st;
      const char *name = file->d_name;
      size_t length = strlen(name);
      if (length >= (size_t)(filepath + sizeof(filepath) - f_p)) continue;
      memcpy(f_p, name, length);
      f_p[length] = '\\0';

      if (lstat(filepath, &st)) continue;
      switch (st.st_mode & S_IFMT) {
        case S_IFDIR:
          if (name[0] != '.') ohcount_sourcefile_list_add_directory(list, filepath);
          break;
        case S_IFREG:
          ohcount_sourcefile_list_add_file(list, filepath);
          break;
      }
    }
    closedir(d);
''')
ref(B,S,'''  struct dirent *file;
  DIR *d = NULL;
  d = opendir(directory);
  if (d) {
    while ((file = readdir(d))) {''','''  struct dirent *file;
  DIR *d = opendir(directory);
  if (d != NULL) {
    while (1) {
      file = readdir(d);
      if (file == NULL) break;''')
ref(B,S,'''static''' if 0 else '''void ohcount_sourcefile_list_add_directory(SourceFileList *list,
                                           const char *directory) {
  char filepath[FILENAME_MAX];
  if (strlen(directory) + 1 >= sizeof(filepath)) return; // path too long
  strncpy(filepath, directory, strlen(directory));
  *(filepath + strlen(directory)) = '/';
  char *f_p = filepath + strlen(directory) + 1;
''','''static void add_path(SourceFileList *list, const char *filepath,
                     const char *name) {
  struct stat st;
  if (lstat(filepath, &st) != 0 || S_ISLNK(st.st_mode)) return;
  if (S_ISDIR(st.st_mode) && *name != '.') // no hidden dirs
    ohcount_sourcefile_list_add_directory(list, filepath);
  else if (S_ISREG(st.st_mode))
    ohcount_sourcefile_list_add_file(list, filepath);
}

void ohcount_sourcefile_list_add_directory(SourceFileList *list,
                                           const char *directory) {
  char filepath[FILENAME_MAX];
  size_t prefix = strlen(directory);
  if (prefix + 1 >= sizeof(filepath)) return; // path too long
  memcpy(filepath, directory, prefix);
  filepath[prefix] = '/';
  char *f_p = filepath + prefix + 1;
''',S,'''      struct stat st;
      int length''','''      int length''',S,'''      if (lstat(filepath, &st) != 0 || S_ISLNK(st.st_mode))
        continue;

      if (S_ISDIR(st.st_mode) && *file->d_name != '.') // no hidden dirs
        ohcount_sourcefile_list_add_directory(list, filepath);
      else if (S_ISREG(st.st_mode))
        ohcount_sourcefile_list_add_file(list, filepath);
''','''      add_path(list, filepath, file->d_name);
''')
ref(B,S,'''  SourceFileList *iter = list->head;
  while (iter) {
    ohcount_loc_list_add_loc_list(loc_list,
                                  ohcount_sourcefile_get_loc_list(iter->sf));
    iter = iter->next;
  }
  return loc_list;''','''  for (SourceFileList *iter = list->head; iter; iter = iter->next) {
    LocList *one = ohcount_sourcefile_get_loc_list(iter->sf);
    ohcount_loc_list_add_loc_list(loc_list, one);
  }
  return loc_list;''')
ref(B,S,'''  if (list->head) {
    SourceFileList *iter = list->head;
    while (iter) {
      SourceFileList *next = iter->next;
      ohcount_sourcefile_free(iter->sf);
      free(iter);
      iter = next;
    }
  } else free(list);''','''  if (!list->head) {
    free(list);
    return;
  }
  SourceFileList *iter, *next;
  for (iter = list->head; iter; iter = next) {
    next = iter->next;
    ohcount_sourcefile_free(iter->sf);
    free(iter);
  }''')
ref(B,S,'''  struct LanguageMap *rl =
    ohcount_hash_language_from_name(language, strlen(language));
  if (rl) {
    sourcefile->language = rl->name;
    sourcefile->language_detected = 1;
  }
''','''  struct LanguageMap *rl =
    ohcount_hash_language_from_name(language, strlen(language));
  if (rl == NULL) return;
  sourcefile->language_detected = 1;
  sourcefile->language = rl->name;
''')
ref(B,S,'''  if (!sourcefile->language_detected) {
    const char *language = ohcount_detect_language(sourcefile);
    // A file recognized as binary ("\\1") has no language.
    if (language && language[0] == '\\1') language = NULL;
    sourcefile->language = language;
    sourcefile->language_detected = 1;
  }
  return sourcefile->language;''','''  if (sourcefile->language_detected) return sourcefile->language;
  sourcefile->language = ohcount_detect_language(sourcefile);
  // A file recognized as binary ("\\1") has no language.
  if (sourcefile->language && *sourcefile->language == '\\1')
    sourcefile->language = NULL;
  sourcefile->language_detected = 1;
  return sourcefile->language;''')

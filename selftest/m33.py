# Planted changes written from the property texts after the checks were done.
S='src/sourcefile.c'
O='src/ohcount.c'
K='src/loc.c'
I='src/licenses.c'
P='src/parsed_language.c'
Q='src/parser.c'
D='src/detector.c'
G='src/diff.c'
M='src/parser_macros.h'
bug('C10',S,"""  while (p > sourcefile->filepath && *(p - 1) != '.' &&
         *(p - 1) != '/' && *(p - 1) != '\\\\') p--;
""","""  while (p > sourcefile->filepath && *(p - 1) != '.' &&
         *(p - 1) != '/') p--;
""")
bug('C22',S,'''  if (sourcefile->license_list == NULL)
    sourcefile->license_list''','''  if (sourcefile->license_list == NULL || sourcefile->license_list->head == NULL)
    sourcefile->license_list''')
bug('C15',S,'''                                 iter->pl->blanks_count, 1);
''','''                                 iter->pl->blanks_count,
                                 list->head == NULL);
''')
bug('C16',S,'''  if (from->blanks_count > to->blanks_count)
    delta->blanks_removed''','''  if (to == blank || from->blanks_count > to->blanks_count + 1)
    delta->blanks_removed''')
bug('C16',S,'''	for (iter = ohcount_sourcefile_get_parsed_language_list(to_file)->head;
			 iter;
			 iter = iter->next) {
		if (strcmp(language, iter->pl->name) == 0) {
''','''	for (iter = ohcount_sourcefile_get_parsed_language_list(to_file)->head;
			 iter && from != blank;
			 iter = iter->next) {
		if (strcmp(language, iter->pl->name) == 0) {
''')
bug('C17',S,'''      if (S_ISDIR(st.st_mode) && *file->d_name != '.') // no hidden dirs
''','''      if (S_ISDIR(st.st_mode) && strcmp(file->d_name, ".") != 0 &&
          strcmp(file->d_name, "..") != 0)
''')
bug('C17',S,'''      if (length >= filepath + sizeof(filepath) - f_p) continue; // path too long
''','''      if (length >= filepath + sizeof(filepath) - f_p) break; // path too long
''')
bug('C17',S,'''      if (lstat(filepath, &st) != 0 || S_ISLNK(st.st_mode))
        continue;
''','''      if (lstat(filepath, &st) != 0 || S_ISLNK(st.st_mode) || st.st_size == 0)
        continue;
''')
bug('C12',S,'''      if (length >= filepath + sizeof(filepath) - f_p) continue; // path too long
''','''      if (length >= filepath + sizeof(filepath) - f_p) return; // path too long
''')
bug('C11',S,'''      if (length >= filepath + sizeof(filepath) - f_p) continue; // path too long
''','''      if (length > filepath + sizeof(filepath) - f_p) continue; // path too long
''')
bug('C22',S,'''  sourcefile->size = size;
  sourcefile->contents_set = 1;
''','''  sourcefile->size = size;
  sourcefile->contents_set = size > 0;
''')
bug('C22',S,'''  if (rl) {
    sourcefile->language = rl->name;
    sourcefile->language_detected = 1;
  }
''','''  if (rl) sourcefile->language = rl->name;
  sourcefile->language_detected = 1;
''')
bug('C22',S,'''  if (rl) {
    sourcefile->language = rl->name;
    sourcefile->language_detected = 1;
  }
''','''  if (rl) sourcefile->language = rl->name;
''')
bug('C08',D,'''    } else language = ISBINARY(language) ? NULL : language;
''','''    } else if (sourcefile->diskpath) language = ISBINARY(language) ? NULL : language;
''',S,'''    if (language && language[0] == '\\1') language = NULL;
''','')
bug('C09',D,'''  if(!language) {
    length = strlen(sourcefile->filename);
''','''  if(!language || ISAMBIGUOUS(language)) {
    length = strlen(sourcefile->filename);
''')
bug('C18',I,'''              pcre_exec(license_map[j].exclude_regexp, NULL, buffer + m0, m1 - m0,
''','''              pcre_exec(license_map[j].exclude_regexp, NULL, buffer, q - buffer,
''')
bug('C18',I,'''    for (i = 0; i < license_map_length; i++) found[i] = 0;

    while (iter_language) {
''','''    while (iter_language) {
      for (i = 0; i < license_map_length; i++) found[i] = 0;
''')
bug('C18',I,'''      if (flags & PCRE_MULTILINE)
        flags |= PCRE_DOTALL;
      l->exclude_regexp = pcre_compile(l->exclude_re, flags, &err, &erroffset,
''','''      l->exclude_regexp = pcre_compile(l->exclude_re, l->re_flags, &err, &erroffset,
''')
bug('C21',O,'''  if (i == argc)
    ohcount_sourcefile_list_add_directory(list, ".");
''','''  if (argc == 1)
    ohcount_sourcefile_list_add_directory(list, ".");
''')
bug('C21',O,'''  printf(" %10d\\n", code + comments + blanks);
''','''  printf(" %10d\\n", code + comments);
''')
bug('C21',O,'''      Loc *temp = iter->loc;
      iter->loc = max->loc;
      max->loc = temp;
''','''      iter->loc = max->loc;
      max->loc = iter->loc;
''')
bug('C21',O,'''      Loc *temp = iter->loc;
      iter->loc = min->loc;
      min->loc = temp;
''','''      Loc *temp = iter->loc;
      *iter->loc = *min->loc;
      min->loc = temp;
''')
bug('C15',K,'''    if (ohcount_loc_total(iter->loc) != 0)
''','''    if (ohcount_loc_total(iter->loc) != 0 && iter->loc->filecount > 0)
''')
bug('C15',K,'''      LocDeltaList *item = ohcount_loc_delta_list_new();
      item->delta = ohcount_loc_delta_new(delta->language,
                                          delta->code_added,
                                          delta->code_removed,
                                          delta->comments_added,
                                          delta->comments_removed,
                                          delta->blanks_added,
                                          delta->blanks_removed);
''','''      LocDeltaList *item = ohcount_loc_delta_list_new();
      item->delta = ohcount_loc_delta_new(delta->language,
                                          delta->code_added,
                                          delta->code_removed,
                                          delta->comments_added,
                                          delta->comments_removed,
                                          delta->blanks_removed,
                                          delta->blanks_added);
''')
bug('C11',P,'''      parsed_language->comments + parsed_language->buffer_size + 5) {
''','''      parsed_language->comments + parsed_language->buffer_size + 6) {
''')
bug('C15',P,'''    *parsed_language->comments_p = '\\0';
    parsed_language->comments_count++;
''','''    *parsed_language->comments_p = '\\0';
    if (length > 0) parsed_language->comments_count++;
''')
bug('C05',M,'''  seen = 0; \\
  inqueue = 0; \\
}''','''  inqueue = 0; \\
}''')
bug('C04',M,'''  line_contains_code = last_line_contains_code; \\
  whole_line_comment = last_whole_line_comment; \\
''','''  line_contains_code = last_line_contains_code; \\
''')
bug('C02',M,'''  while (pos < end && *pos != '\\n' && *pos != '\\r' && *pos != '\\f') {
''','''  while (*pos && *pos != '\\n' && *pos != '\\r' && *pos != '\\f') {
''')
bug('C05',M,'''  callback_list_head = NULL;
  callback_list_tail = NULL;
}''','''  callback_list_tail = NULL;
}''')
bug('C13',K,'''      LocList *next = iter->next;
      ohcount_loc_free(iter->loc);
      free(iter);
      iter = next;
''','''      LocList *next = iter->next;
      if (iter != iter->head) ohcount_loc_free(iter->loc);
      free(iter);
      iter = next;
''')
bug('C16',G,'''  if (m == 0)
    change(1, 0, 1, len[1], added, removed);
''','''  if (m == 0 && len[1] > 1)
    change(1, 0, 1, len[1], added, removed);
''')
bug('C16',G,'''			line_start = strchr(line, '\\n') != NULL;
''','''			line_start = strlen(line) < sizeof(line) - 1;
''')
bug('C14',D,'''    if (!p) {
      magic_close(cookie);
      return NULL;
    }

''','')

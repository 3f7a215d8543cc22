# A fourth set of refactorings: licences, detection, comparison and the parsed
# text, each judged by every check.
B='C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C21 C22'
I='src/licenses.c'
P='src/parsed_language.c'
Q='src/parser.c'
D='src/detector.c'
G='src/diff.c'
def rf(f,*a):
    out=[]
    for i in range(0,len(a),2): out+=[f,a[i],a[i+1]]
    ref(B,*out)
# 0: the override macro becomes a function
rf(I,'''#define OVERRIDE_LICENSE(l, with) { \\
  if (strcmp(license_map[i].name, l) == 0) { \\
    for (j = 0; j < license_map_length; j++) \\
      if (found[j] && \\
          strcmp(license_map[j].name, with) == 0) { \\
        overridden = 1; \\
        break; \\
      } \\
  } \\
}
''','''static int is_overridden(const int *found, int i, const char *l,
                         const char *with) {
  if (strcmp(license_map[i].name, l) != 0) return 0;
  for (int j = 0; j < license_map_length; j++)
    if (found[j] && strcmp(license_map[j].name, with) == 0) return 1;
  return 0;
}
''','''        int overridden = 0;
        OVERRIDE_LICENSE(LIC_GPL, LIC_GPL3);
        OVERRIDE_LICENSE(LIC_GPL, LIC_GPL3_OR_LATER);
        OVERRIDE_LICENSE(LIC_GPL3, LIC_GPL3_OR_LATER);
        OVERRIDE_LICENSE(LIC_BSD_2CLAUSE_ISH, LIC_BSD_ISH);
        if (!overridden) {
''','''        int overridden =
          is_overridden(found, i, LIC_GPL, LIC_GPL3) ||
          is_overridden(found, i, LIC_GPL, LIC_GPL3_OR_LATER) ||
          is_overridden(found, i, LIC_GPL3, LIC_GPL3_OR_LATER) ||
          is_overridden(found, i, LIC_BSD_2CLAUSE_ISH, LIC_BSD_ISH);
        if (!overridden) {
''')
# 1: the override rules as a table
rf(I,'''#define OVERRIDE_LICENSE(l, with) { \\
  if (strcmp(license_map[i].name, l) == 0) { \\
    for (j = 0; j < license_map_length; j++) \\
      if (found[j] && \\
          strcmp(license_map[j].name, with) == 0) { \\
        overridden = 1; \\
        break; \\
      } \\
  } \\
}
''','''static const char *overrides[][2] = {
  { LIC_GPL, LIC_GPL3 },
  { LIC_GPL, LIC_GPL3_OR_LATER },
  { LIC_GPL3, LIC_GPL3_OR_LATER },
  { LIC_BSD_2CLAUSE_ISH, LIC_BSD_ISH },
};
''','''        OVERRIDE_LICENSE(LIC_GPL, LIC_GPL3);
        OVERRIDE_LICENSE(LIC_GPL, LIC_GPL3_OR_LATER);
        OVERRIDE_LICENSE(LIC_GPL3, LIC_GPL3_OR_LATER);
        OVERRIDE_LICENSE(LIC_BSD_2CLAUSE_ISH, LIC_BSD_ISH);
''','''        for (k = 0; k < 4; k++) {
          if (strcmp(license_map[i].name, overrides[k][0]) != 0) continue;
          for (j = 0; j < license_map_length; j++)
            if (found[j] &&
                strcmp(license_map[j].name, overrides[k][1]) == 0)
              overridden = 1;
        }
''')
# 2: appending extracted
rf(I,'''          if (list->head == NULL) { // empty list
            list->head = list;
            list->tail = list;
            list->head->lic = &license_map[i];
            list->next = NULL;
          } else {
            LicenseList *item = ohcount_license_list_new();
            item->lic = &license_map[i];
            list->tail->next = item;
            list->tail = item;
          }
''','''          append_license(list, &license_map[i]);
''','''LicenseList *ohcount_detect_license(SourceFile *sourcefile) {
''','''static void append_license(LicenseList *list, License *lic) {
  LicenseList *item;
  if (list->head == NULL) {
    item = list->head = list;
  } else {
    item = ohcount_license_list_new();
    list->tail->next = item;
  }
  item->lic = lic;
  list->tail = item;
}

LicenseList *ohcount_detect_license(SourceFile *sourcefile) {
''')
# 3: the normalisation extracted
rf(I,'''      // Before looking for licenses, strip whitespace and newlines
      p = iter_language->pl->comments;
      int buffer_len = p ? strlen(p) : 0;
      char *p_max = p + buffer_len;

      char *buffer = malloc(buffer_len+1);
      if (buffer == NULL) {
        fprintf(stderr, "out of memory in ohcount_detect_license");
        exit(-1);
      }
      q = buffer;
      char *q_max = buffer + buffer_len + 1;

      while (p < p_max && q < q_max) {
        // Strip leading whitespace and punctuation.
        while (*p == ' ' || *p == '\\t' || ispunct(*p)) p++;
        // Copy line contents.
        while (p < p_max && *p != '\\r' && *p != '\\n' && q < q_max)
          *q++ = *p++;
        // Strip newline characters.
        while (*p == '\\r' || *p == '\\n') p++;
        // Add a trailing space.
        if (q < q_max) *q++ = ' ';
      }
      if (q < q_max) *q = '\\0';
''','''      char *buffer = flatten(iter_language->pl->comments, &q);
''','''LicenseList *ohcount_detect_license(SourceFile *sourcefile) {
''','''static char *flatten(char *p, char **end) {
  // Before looking for licenses, strip whitespace and newlines
  int buffer_len = p ? strlen(p) : 0;
  char *p_max = p + buffer_len;

  char *buffer = malloc(buffer_len + 1);
  if (buffer == NULL) {
    fprintf(stderr, "out of memory in ohcount_detect_license");
    exit(-1);
  }
  char *q = buffer;
  char *q_max = buffer + buffer_len + 1;

  while (p < p_max && q < q_max) {
    // Strip leading whitespace and punctuation.
    for (; *p == ' ' || *p == '\\t' || ispunct(*p); p++);
    // Copy line contents.
    while (p < p_max && *p != '\\r' && *p != '\\n' && q < q_max)
      *q++ = *p++;
    // Strip newline characters.
    for (; *p == '\\r' || *p == '\\n'; p++);
    // Add a trailing space.
    if (q < q_max) *q++ = ' ';
  }
  if (q < q_max) *q = '\\0';
  *end = q;
  return buffer;
}

LicenseList *ohcount_detect_license(SourceFile *sourcefile) {
''','''  char *p, *q;
  int i, j, k;
''','''  char *q;
  int i, j, k;
''')
# 4: containment test extracted; matched span in a record
rf(I,'''            if ((potential_licenses_s[k] < m0 && potential_licenses_e[k] >= m1) ||
                (potential_licenses_s[k] <= m0 && potential_licenses_e[k] > m1)) {
''','''            if (inside(m0, m1, potential_licenses_s[k],
                       potential_licenses_e[k])) {
''','''            if ((m0 < potential_licenses_s[k] && m1 >= potential_licenses_e[k]) ||
                (m0 <= potential_licenses_s[k] && m1 > potential_licenses_e[k])) {
''','''            if (inside(potential_licenses_s[k], potential_licenses_e[k],
                       m0, m1)) {
''','''LicenseList *ohcount_detect_license(SourceFile *sourcefile) {
''','''static int inside(int s, int e, int outer_s, int outer_e) {
  return (outer_s < s && outer_e >= e) || (outer_s <= s && outer_e > e);
}

LicenseList *ohcount_detect_license(SourceFile *sourcefile) {
''')
# 5: compile helper
rf(I,'''    License *l = &license_map[i];
    int flags;
    if (l->re) {
      flags = l->re_flags;
      if (flags & PCRE_MULTILINE)
        flags |= PCRE_DOTALL;
      l->regexp = pcre_compile(l->re, flags, &err, &erroffset, NULL);
    }
    if (l->exclude_re) {
      flags = l->exclude_re_flags;
      if (flags & PCRE_MULTILINE)
        flags |= PCRE_DOTALL;
      l->exclude_regexp = pcre_compile(l->exclude_re, flags, &err, &erroffset,
                                       NULL);
    }
''','''    License *l = license_map + i;
    if (l->re) l->regexp = compile_one(l->re, l->re_flags);
    if (l->exclude_re)
      l->exclude_regexp = compile_one(l->exclude_re, l->exclude_re_flags);
''','''  const char *err;
  int erroffset;
  int i;
  for (i = 0; i < license_map_length; i++) {
''','''  int i;
  for (i = 0; i < license_map_length; i++) {
''','''void compile_regexps() {
''','''static pcre *compile_one(const char *re, int flags) {
  const char *err;
  int erroffset;
  int all = flags & PCRE_MULTILINE ? flags | PCRE_DOTALL : flags;
  return pcre_compile(re, all, &err, &erroffset, NULL);
}

void compile_regexps() {
''')
# 6: early return when there is nothing to look at; free by do-while
rf(I,'''  if (list->head) {
    LicenseList *iter = list->head;
    while (iter) {
      LicenseList *next = iter->next;
      free(iter);
      iter = next;
    }
  } else free(list);
''','''  LicenseList *iter = list->head ? list->head : list;
  do {
    LicenseList *next = iter->next;
    free(iter);
    iter = next;
  } while (iter);
''','''  // Get the size of this map and compile the REs. Only runs once.
  if (license_map_length == 0) {
    while (license_map[license_map_length].name) license_map_length++;
    compile_regexps();
  }
''','''  // Get the size of this map and compile the REs. Only runs once.
  if (!license_map_length) {
    int n = 0;
    for (const License *l = license_map; l->name; l++) n++;
    license_map_length = n;
    compile_regexps();
  }
''')
# 7: spans kept in one array of records
rf(I,'''    int potential_licenses_s[license_map_length];
    int potential_licenses_e[license_map_length];
''','''    struct { int s, e; } span[license_map_length];
''','''        potential_licenses_s[j] = -1;
        potential_licenses_e[j] = -1;
        if (pcre''','''        span[j].s = span[j].e = -1;
        if (pcre''','''          potential_licenses_s[j] = m0;
          potential_licenses_e[j] = m1;
''','''          span[j].s = m0;
          span[j].e = m1;
''','''            if ((potential_licenses_s[k] < m0 && potential_licenses_e[k] >= m1) ||
                (potential_licenses_s[k] <= m0 && potential_licenses_e[k] > m1)) {
              potential_licenses_s[j] = -1;
              potential_licenses_e[j] = -1;
            }
''','''            if ((span[k].s < m0 && span[k].e >= m1) ||
                (span[k].s <= m0 && span[k].e > m1))
              span[j].s = span[j].e = -1;
''','''            if ((m0 < potential_licenses_s[k] && m1 >= potential_licenses_e[k]) ||
                (m0 <= potential_licenses_s[k] && m1 > potential_licenses_e[k])) {
              potential_licenses_s[k] = -1;
              potential_licenses_e[k] = -1;
            }
''','''            if ((m0 < span[k].s && m1 >= span[k].e) ||
                (m0 <= span[k].s && m1 > span[k].e))
              span[k].s = span[k].e = -1;
''','''        if (potential_licenses_s[j] > -1) found[j] = 1;
''','''        if (span[j].s > -1) found[j] = 1;
''')
# 8: parsed text appended by one helper
rf(P,'''  if (parsed_language->code_p + length <
      parsed_language->code + parsed_language->buffer_size + 5) {
    strncpy(parsed_language->code_p, p, length);
    parsed_language->code_p += length;
    *parsed_language->code_p = '\\0';
    parsed_language->code_count++;
  }
''','''  ParsedLanguage *pl = parsed_language;
  if (append(pl->code, &pl->code_p, pl->buffer_size, p, length))
    pl->code_count++;
''','''  if (parsed_language->comments_p + length <
      parsed_language->comments + parsed_language->buffer_size + 5) {
    strncpy(parsed_language->comments_p, p, length);
    parsed_language->comments_p += length;
    *parsed_language->comments_p = '\\0';
    parsed_language->comments_count++;
  }
''','''  ParsedLanguage *pl = parsed_language;
  if (append(pl->comments, &pl->comments_p, pl->buffer_size, p, length))
    pl->comments_count++;
''','''void ohcount_parsed_language_add_code(''','''static int append(char *start, char **at, int size, const char *text,
                  int length) {
  char *to = *at;
  if (to + length >= start + size + 5) return 0;
  strncpy(to, text, length);
  to[length] = '\\0';
  *at = to + length;
  return 1;
}

void ohcount_parsed_language_add_code(''')
# 9: room computed as an int
rf(P,'''  if (parsed_language->code_p + length <
      parsed_language->code + parsed_language->buffer_size + 5) {
    strncpy(parsed_language->code_p, p, length);
    parsed_language->code_p += length;
    *parsed_language->code_p = '\\0';
    parsed_language->code_count++;
  }
''','''  char *end = parsed_language->code + parsed_language->buffer_size + 5;
  if (end - parsed_language->code_p <= length) return;
  strncpy(parsed_language->code_p, p, length);
  parsed_language->code_p[length] = '\\0';
  parsed_language->code_p += length;
  parsed_language->code_count += 1;
''')
# 10: the parser call by guard clauses
rf(Q,'''  if (language) {
    struct ParserMap *rp =
      ohcount_hash_parser_from_language(language, strlen(language));
    if (rp) {
      char *buffer = ohcount_sourcefile_get_contents(sourcefile);
      int buffer_len = ohcount_sourcefile_get_contents_size(sourcefile);
      if (callback)
        rp->parser(buffer, buffer_len, count, callback, userdata);
      return 1;
    }
  }

  return 0;
''','''  if (!language) return 0;
  struct ParserMap *rp =
    ohcount_hash_parser_from_language(language, strlen(language));
  if (rp == NULL) return 0;
  char *text = ohcount_sourcefile_get_contents(sourcefile);
  if (callback != NULL)
    rp->parser(text, ohcount_sourcefile_get_contents_size(sourcefile), count,
               callback, userdata);
  return 1;
''')
# 11: the two lookups of the mode line in a helper
rf(D,'''      // First try it with the language name.
      struct LanguageMap *rl = ohcount_hash_language_from_name(buf, length);
      if (rl) language = rl->name;
      if(!language) {
        // Then try it with the extension table.
        struct ExtensionMap *re = ohcount_hash_language_from_ext(buf, length);
        if (re) language = re->value;
      }
      if (!language) {
        // Try the lower-case version of this modeline.
        for (pe = buf; pe < buf+length; pe++) *pe = tolower(*pe);
        // First try it with the language name.
        rl = ohcount_hash_language_from_name(buf, length);
        if (rl) language = rl->name;
      }
      if (!language) {
        // Then try it with the extension table.
        struct ExtensionMap *re = ohcount_hash_language_from_ext(buf, length);
        if (re) language = re->value;
      }
''','''      language = by_name_or_ext(buf, length);
      if (!language) {
        // Try the lower-case version of this modeline.
        for (pe = buf; pe < buf+length; pe++) *pe = tolower(*pe);
        language = by_name_or_ext(buf, length);
      }
''','''/* Use all available means to detect file language
 */
''','''static const char *by_name_or_ext(const char *s, int n) {
  struct LanguageMap *rl = ohcount_hash_language_from_name(s, n);
  if (rl) return rl->name;
  struct ExtensionMap *re = ohcount_hash_language_from_ext(s, n);
  return re ? re->value : NULL;
}

/* Use all available means to detect file language
 */
''')
# 12: the extension step as a function, lower case only when it differs
rf(D,'''  length = strlen(sourcefile->ext);
  struct ExtensionMap *re = ohcount_hash_language_from_ext(sourcefile->ext,
                                                               length);
  if (re) language = re->value;
  if (!language) {
    // Try the lower-case version of this extension.
    char lowerext[length + 1];
    strncpy(lowerext, sourcefile->ext, length);
    lowerext[length] = '\\0';
    for (p = lowerext; p < lowerext + length; p++) *p = tolower(*p);
    struct ExtensionMap *re = ohcount_hash_language_from_ext(lowerext, length);
    if (re) language = re->value;
  }
''','''  language = by_extension(sourcefile->ext);
''','''/* Use all available means to detect file language
 */
''','''static const char *by_extension(const char *ext) {
  int n = strlen(ext);
  struct ExtensionMap *hit = ohcount_hash_language_from_ext(ext, n);
  if (hit) return hit->value;
  char lower[n + 1];
  for (int i = 0; i < n; i++) lower[i] = tolower(ext[i]);
  lower[n] = '\\0';
  hit = ohcount_hash_language_from_ext(lower, n);
  if (!hit) return NULL;
  return hit->value;
}

/* Use all available means to detect file language
 */
''')
# 13: final resolution by a helper with a conditional chain
rf(D,'''  if (language) {
    if (ISAMBIGUOUS(language)) {
      // Call the appropriate function for disambiguation.
      length = strlen(DISAMBIGUATEWHAT(language));
      struct DisambiguateFuncsMap *rd =
        ohcount_hash_disambiguate_func_from_id(DISAMBIGUATEWHAT(language),
                                               length);
      if (rd) language = rd->value(sourcefile);
    } else language = ISBINARY(language) ? NULL : language;
  }
  return language;
''','''  if (!language || ISBINARY(language)) return NULL;
  if (!ISAMBIGUOUS(language)) return language;
  const char *which = DISAMBIGUATEWHAT(language);
  struct DisambiguateFuncsMap *rd =
    ohcount_hash_disambiguate_func_from_id(which, strlen(which));
  return rd ? rd->value(sourcefile) : language;
''')
# 14: magic errors through one function
rf(D,'''  magic_t cookie = magic_open(MAGIC_NONE);
  if (cookie == NULL) {
    fprintf(stderr, "libmagic: %s\\n", magic_error(cookie));
    exit(1);
  }
  if (magic_load(cookie, NULL) != 0) {
    fprintf(stderr, "libmagic: %s\\n", magic_error(cookie));
    magic_close(cookie);
    exit(1);
  }

  if (sourcefile->diskpath) {
    const char *magic = magic_file(cookie, sourcefile->diskpath);
    if (magic == NULL) {
      fprintf(stderr, "libmagic: %s\\n", magic_error(cookie));
      magic_close(cookie);
      exit(1);
    }
    strncpy(line, magic, sizeof(line));
    line[sizeof(line)-1] = '\\0';
  } else {
    char *p = ohcount_sourcefile_get_contents(sourcefile);
    if (!p) {
      magic_close(cookie);
      return NULL;
    }

    const char *magic = magic_buffer(cookie, p, strlen(p));
    if (magic == NULL) {
      fprintf(stderr, "libmagic: %s\\n", magic_error(cookie));
      magic_close(cookie);
      exit(1);
    }
    strncpy(line, magic, sizeof(line));
    line[sizeof(line)-1] = '\\0';
  }

  magic_close(cookie);
''','''  magic_t cookie = magic_open(MAGIC_NONE);
  const char *magic = NULL;
  if (cookie == NULL) magic_failed(NULL);
  if (magic_load(cookie, NULL) != 0) magic_failed(cookie);

  if (sourcefile->diskpath) {
    magic = magic_file(cookie, sourcefile->diskpath);
  } else {
    char *p = ohcount_sourcefile_get_contents(sourcefile);
    if (!p) {
      magic_close(cookie);
      return NULL;
    }
    magic = magic_buffer(cookie, p, strlen(p));
  }
  if (magic == NULL) magic_failed(cookie);
  strncpy(line, magic, sizeof(line) - 1);
  line[sizeof(line)-1] = '\\0';

  magic_close(cookie);
''','''/* Use libmagic to detect file language
 */
''','''static void magic_failed(magic_t cookie) {
  fprintf(stderr, "libmagic: %s\\n", magic_error(cookie));
  if (cookie) magic_close(cookie);
  exit(1);
}

/* Use libmagic to detect file language
 */
''')
# 15: disk comparison: line classes by a switch, names built with snprintf
rf(G,'''			if (line_start && line[0] == '>')
			 	(*added)++;
			if (line_start && line[0] == '<')
				(*removed)++;
			line_start = strchr(line, '\\n') != NULL;
''','''			if (line_start) {
				switch (line[0]) {
				case '>': ++*added; break;
				case '<': ++*removed; break;
				}
			}
			line_start = strchr(line, '\\n') ? 1 : 0;
''','''	sprintf(command, "diff --normal --suppress-common-lines --new-file '%s' '%s'", from_tmp, to_tmp);
''','''	snprintf(command, sizeof(command),
	         "diff --normal --suppress-common-lines --new-file '%s' '%s'",
	         from_tmp, to_tmp);
''')
# 16: temporary names freed in a helper
rf(G,'''	if (unlink(from_tmp)) {
		printf("error unlinking %s: %d", from_tmp, errno);
	}
	if (unlink(to_tmp)) {
		printf("error unlinking %s: %d", to_tmp, errno);
	}
	free(from_tmp);
	free(to_tmp);
''','''	drop_tmp_file(from_tmp);
	drop_tmp_file(to_tmp);
''','''void ohcount_calc_diff_with_disk(
''','''static void drop_tmp_file(char *path) {
	int failed = unlink(path);
	if (failed) printf("error unlinking %s: %d", path, errno);
	free(path);
}

void ohcount_calc_diff_with_disk(
''')
# 17: prepare copies with memcpy and keeps the length
rf(G,'''  char bufcpy[strlen(buf) + 1];
  char *l;

  p = malloc(3*sizeof(struct line));
  j = 0;
  strncpy(bufcpy, buf, strlen(buf));
  bufcpy[strlen(buf)] = 0;
  l = strtok(bufcpy, "\\n");
  while (l) {
    p = realloc(p, (++j+3)*sizeof(struct line));
    p[j].value = hash(l);
    l = strtok(NULL, "\\n");
  }
''','''  size_t n = strlen(buf);
  char bufcpy[n + 1];
  char *l;

  memcpy(bufcpy, buf, n + 1);
  p = malloc(3*sizeof(struct line));
  j = 0;
  for (l = strtok(bufcpy, "\\n"); l; l = strtok(NULL, "\\n")) {
    j++;
    p = realloc(p, (j+3)*sizeof(struct line));
    p[j].value = hash(l);
  }
''')
# 18: size test extracted
rf(G,'''	if (strlen(from) > USE_DISK_IF_LARGER || strlen(to) > USE_DISK_IF_LARGER)
		return ohcount_calc_diff_with_disk(from, to, added, removed);
''','''	size_t larger = strlen(from);
	if (strlen(to) > larger) larger = strlen(to);
	if (larger > USE_DISK_IF_LARGER) {
		ohcount_calc_diff_with_disk(from, to, added, removed);
		return;
	}
''')

# behaviour-preserving edits of the detectors, the licence detector and the diff: every check stays quiet
A='C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C21 C22'
D='src/detector.c'
LI='src/licenses.c'
DI='src/diff.c'
# 0 helper for the first attempt
ref(A,D,'''  struct ExtensionMap *re = ohcount_hash_language_from_ext(sourcefile->ext,
                                                               length);
  if (re) language = re->value;
  if (!language) {
    // Try the lower-case version of this extension.
    char lowerext[length + 1];
    strncpy(lowerext, sourcefile->ext, length);
    lowerext[length] = '\\0';
    for (p = lowerext; p < lowerext + length; p++) *p = tolower(*p);
    struct ExtensionMap *re = ohcount_hash_language_from_ext(lowerext, length);
    if (re) language = re->value;
  }''','''  language = language_for_ext(sourcefile->ext, length);
  if (!language) {
    // Try the lower-case version of this extension.
    char lowerext[length + 1];
    int k;
    for (k = 0; k < length; k++) lowerext[k] = tolower(sourcefile->ext[k]);
    lowerext[length] = '\\0';
    language = language_for_ext(lowerext, length);
  }''',D,'''/* Use all available means to detect file language
 */
const char''','''static const char *language_for_ext(const char *ext, int length) {
  struct ExtensionMap *re = ohcount_hash_language_from_ext(ext, length);
  return re ? re->value : NULL;
}

/* Use all available means to detect file language
 */
const char''')
# 1 aspx loop
ref(A,D,'''  for (; p < eof; p++) {
    // /<%@\\s*Page[^>]+Language="VB"[^>]+%>/
    p = strstr(p, "<%@");
    if (!p)
			break;
    char *pe''','''  while (p < eof && (p = strstr(p, "<%@")) != NULL) {
    // /<%@\\s*Page[^>]+Language="VB"[^>]+%>/
    char *pe''',D,'''          return LANG_VB_ASPX;
      }
      p = directive;
    }
  }''','''          return LANG_VB_ASPX;
      }
      p = directive;
    }
    p++;
  }''')
# 2 asx: if instead of switch
ref(A,D,'''    switch (*p) {
    case ' ':
    case '\\t':
    case '\\n':
    case '\\r':
      break;
    case '<':
    case '\\0':
    // byte-order marks:
    case (char) 0xef:
    case (char) 0xfe:
    case (char) 0xff:
      return NULL; // XML
    default:
      return LANG_ASSEMBLER;
    }
  }
  return LANG_ASSEMBLER; // only''','''    if (*p == ' ' || *p == '\\t' || *p == '\\n' || *p == '\\r') continue;
    if (*p == '<' || *p == '\\0' || *p == (char) 0xef || *p == (char) 0xfe ||
        *p == (char) 0xff)
      return NULL; // XML
    break;
  }
  return LANG_ASSEMBLER; // only''')
# 3 magic: one place that copies and gives up
ref(A,D,'''    strncpy(line, magic, sizeof(line));
    line[sizeof(line)-1] = '\\0';
  } else {
    char *p = ohcount_sourcefile_get_contents(sourcefile);
    if (!p) {
      magic_close(cookie);
      return NULL;
    }

    const char *magic = magic_buffer(cookie, p, strlen(p));
    if (magic == NULL) {
      fprintf(stderr, "libmagic: %s\\n", magic_error(cookie));
      magic_close(cookie);
      exit(1);
    }
    strncpy(line, magic, sizeof(line));
    line[sizeof(line)-1] = '\\0';
  }

  magic_close(cookie);
''','''    snprintf(line, sizeof(line), "%s", magic);
  } else {
    char *p = ohcount_sourcefile_get_contents(sourcefile);
    if (!p) {
      magic_close(cookie);
      return NULL;
    }

    const char *magic = magic_buffer(cookie, p, strlen(p));
    if (magic == NULL) {
      fprintf(stderr, "libmagic: %s\\n", magic_error(cookie));
      magic_close(cookie);
      exit(1);
    }
    snprintf(line, sizeof(line), "%s", magic);
  }

  magic_close(cookie);
''')
# 4 magic: helper die()
ref(A,D,'''  if (cookie == NULL) {
    fprintf(stderr, "libmagic: %s\\n", magic_error(cookie));
    exit(1);
  }
  if (magic_load(cookie, NULL) != 0) {
    fprintf(stderr, "libmagic: %s\\n", magic_error(cookie));
    magic_close(cookie);
    exit(1);
  }
''','''  if (cookie == NULL) {
    fprintf(stderr, "libmagic: %s\\n", magic_error(cookie));
    exit(1);
  }
  if (magic_load(cookie, NULL) != 0) magic_die(cookie);
''',D,'''    const char *magic = magic_file(cookie, sourcefile->diskpath);
    if (magic == NULL) {
      fprintf(stderr, "libmagic: %s\\n", magic_error(cookie));
      magic_close(cookie);
      exit(1);
    }''','''    const char *magic = magic_file(cookie, sourcefile->diskpath);
    if (magic == NULL) magic_die(cookie);''',D,'''/* Use libmagic to detect file language
 */''','''static void magic_die(magic_t cookie) {
  fprintf(stderr, "libmagic: %s\\n", magic_error(cookie));
  magic_close(cookie);
  exit(1);
}

/* Use libmagic to detect file language
 */''')
# 5 disambiguation step extracted
ref(A,D,'''  if (language) {
    if (ISAMBIGUOUS(language)) {
      // Call the appropriate function for disambiguation.
      length = strlen(DISAMBIGUATEWHAT(language));
      struct DisambiguateFuncsMap *rd =
        ohcount_hash_disambiguate_func_from_id(DISAMBIGUATEWHAT(language),
                                               length);
      if (rd) language = rd->value(sourcefile);
    } else language = ISBINARY(language) ? NULL : language;
  }
  return language;
}
''','''  if (!language) return NULL;
  if (!ISAMBIGUOUS(language)) return ISBINARY(language) ? NULL : language;
  // Call the appropriate function for disambiguation.
  const char *what = DISAMBIGUATEWHAT(language);
  struct DisambiguateFuncsMap *rd =
    ohcount_hash_disambiguate_func_from_id(what, strlen(what));
  return rd ? rd->value(sourcefile) : language;
}
''')
# 6 next-line helper in .h detection
ref(A,D,'''    // Next line.
    pe = line_end;
    while (*pe == '\\r' || *pe == '\\n') pe++;
    p = pe;
  }

  // Nothing to suggest C++.''','''    // Next line.
    p = pe = skip_newlines(line_end);
  }

  // Nothing to suggest C++.''',D,'''const char *disambiguate_h(SourceFile''','''static char *skip_newlines(char *s) {
  while (*s == '\\r' || *s == '\\n') s++;
  return s;
}

const char *disambiguate_h(SourceFile''')
# 7 keyword table
ref(A,D,'''          if (strcmp(buf, "class") == 0 ||
              strcmp(buf, "namespace") == 0 ||
              strcmp(buf, "template") == 0 ||
              strcmp(buf, "typename") == 0)
            return LANG_CPP;''','''          static const char *const words[] = {"class", "namespace", "template", "typename", NULL};
          int w;
          for (w = 0; words[w]; w++)
            if (strcmp(buf, words[w]) == 0) return LANG_CPP;''')
# 8 .in: early returns
ref(A,D,'''  char *dot = strstr(p, ".");
  if (dot && dot <= pe) {''','''  char *dot = strchr(p, '.');
  if (!dot || dot > pe) return NULL;
  {''')
# 9 .inc for loop
ref(A,D,'''	if (p) {
		char *eof = p + strlen(p);
		while (p < eof) {
			if (*p == '\\0')
				return BINARY;
			else if (*p == '?' && strncmp(p + 1, "php", 3) == 0)
				return LANG_PHP;
			p++;
		}
	}
  return NULL;''','''	if (!p) return NULL;
	char *eof = p + strlen(p);
	for (; p < eof; ++p) {
		if (*p == '\\0') return BINARY;
		if (*p == '?' && !strncmp(p + 1, "php", 3)) return LANG_PHP;
	}
	return NULL;''')
# 10 mod
ref(A,D,'''    case '(':
      if (p[1] == '*') // Modula-2 comment
        return LANG_MODULA2;
      return NULL;''','''    case '(': // Modula-2 comment
      return p[1] == '*' ? LANG_MODULA2 : NULL;''')
# 11 regular expression helper
ref(A,D,'''	/* prepare regular expressions */
	const char *error;
	int erroffset;

	/* try harder with optional spaces */
	pcre *keyword;
	keyword = pcre_compile("^\\\\s*(ensure|content|notify|require|source)\\\\s+=>",
			PCRE_MULTILINE, &error, &erroffset, NULL);

	int found = pcre_exec(keyword, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0);
	pcre_free(keyword);
	if (found > -1)
		return LANG_PUPPET;
''','''	const char *error;
	int erroffset;
	int found;
	if (matches("^\\\\s*(ensure|content|notify|require|source)\\\\s+=>", p))
		return LANG_PUPPET;
''',D,'''const char *disambiguate_pp(SourceFile''','''static int matches(const char *pattern, const char *text) {
	const char *error;
	int erroffset, found;
	pcre *re = pcre_compile(pattern, PCRE_MULTILINE, &error, &erroffset, NULL);
	found = pcre_exec(re, NULL, text, mystrnlen(text, 10000), 0, 0, NULL, 0);
	pcre_free(re);
	return found >= 0;
}

const char *disambiguate_pp(SourceFile''')
# 12 licences: count with for, overrides as helper
ref(A,LI,'''    while (license_map[license_map_length].name) license_map_length++;
    compile_regexps();''','''    int n = 0;
    for (; license_map[n].name != NULL; n++) ;
    license_map_length = n;
    compile_regexps();''')
# 13
ref(A,LI,'''      free(buffer);
      for (j = 0; j < license_map_length; j++)
        if (potential_licenses_s[j] > -1) found[j] = 1;''','''      for (j = 0; j < license_map_length; j++)
        found[j] |= potential_licenses_s[j] >= 0;
      free(buffer);''')
# 14
ref(A,LI,'''    int found[license_map_length]; // in any of the languages
    for (i = 0; i < license_map_length; i++) found[i] = 0;

    while (iter_language) {''','''    int found[license_map_length]; // in any of the languages
    memset(found, 0, sizeof(int) * license_map_length);

    for (; iter_language; iter_language = iter_language->next) {''',LI,'''        if (potential_licenses_s[j] > -1) found[j] = 1;
      iter_language = iter_language->next;''','''        if (potential_licenses_s[j] > -1) found[j] = 1;''')
# 15
ref(A,LI,'''    License *l = &license_map[i];
    int flags;
    if (l->re) {
      flags = l->re_flags;
      if (flags & PCRE_MULTILINE)
        flags |= PCRE_DOTALL;
      l->regexp = pcre_compile(l->re, flags, &err, &erroffset, NULL);
    }
    if (l->exclude_re) {
      flags = l->exclude_re_flags;
      if (flags & PCRE_MULTILINE)
        flags |= PCRE_DOTALL;
      l->exclude_regexp = pcre_compile(l->exclude_re, flags, &err, &erroffset,
                                       NULL);
    }''','''    License *l = license_map + i;
    l->regexp = compile_one(l->re, l->re_flags);
    l->exclude_regexp = compile_one(l->exclude_re, l->exclude_re_flags);''',LI,'''/** Compiles the regular expressions defined in license_map. */''','''static pcre *compile_one(const char *re, int flags) {
  const char *err;
  int erroffset;
  if (!re) return NULL;
  if (flags & PCRE_MULTILINE) flags |= PCRE_DOTALL;
  return pcre_compile(re, flags, &err, &erroffset, NULL);
}

/** Compiles the regular expressions defined in license_map. */''')
# 16 licences: overriding as a function
ref(A,LI,'''        int overridden = 0;
        OVERRIDE_LICENSE(LIC_GPL, LIC_GPL3);
        OVERRIDE_LICENSE(LIC_GPL, LIC_GPL3_OR_LATER);
        OVERRIDE_LICENSE(LIC_GPL3, LIC_GPL3_OR_LATER);
        OVERRIDE_LICENSE(LIC_BSD_2CLAUSE_ISH, LIC_BSD_ISH);
        if (!overridden) {''','''        int overridden = overrides(found, i, LIC_GPL, LIC_GPL3) ||
                         overrides(found, i, LIC_GPL, LIC_GPL3_OR_LATER) ||
                         overrides(found, i, LIC_GPL3, LIC_GPL3_OR_LATER) ||
                         overrides(found, i, LIC_BSD_2CLAUSE_ISH, LIC_BSD_ISH);
        if (!overridden) {''',LI,'''LicenseList *ohcount_detect_license(''','''static int overrides(int *found, int i, const char *l, const char *with) {
  int j;
  if (strcmp(license_map[i].name, l) != 0) return 0;
  for (j = 0; j < license_map_length; j++)
    if (found[j] && strcmp(license_map[j].name, with) == 0) return 1;
  return 0;
}

LicenseList *ohcount_detect_license(''')
# 17 licences: append helper
ref(A,LI,'''          if (list->head == NULL) { // empty list
            list->head = list;
            list->tail = list;
            list->head->lic = &license_map[i];
            list->next = NULL;
          } else {
            LicenseList *item = ohcount_license_list_new();
            item->lic = &license_map[i];
            list->tail->next = item;
            list->tail = item;
          }''','''          license_list_append(list, &license_map[i]);''',LI,'''LicenseList *ohcount_detect_license(''','''static void license_list_append(LicenseList *list, License *lic) {
  LicenseList *item = list;
  if (list->head == NULL) {
    list->head = list;
    list->next = NULL;
  } else {
    item = ohcount_license_list_new();
    list->tail->next = item;
  }
  item->lic = lic;
  list->tail = item;
}

LicenseList *ohcount_detect_license(''')
# 18 diff: write all at once helper
ref(A,DI,'''  if (fd == -1 || write(fd, buf, strlen(buf)) != strlen(buf)) {''','''  size_t n = strlen(buf);
  if (fd < 0 || write(fd, buf, n) != (ssize_t)n) {''')
# 19 diff counting
ref(A,DI,'''			if (line_start && line[0] == '>')
			 	(*added)++;
			if (line_start && line[0] == '<')
				(*removed)++;
			line_start''','''			if (line_start) {
				if (*line == '>') *added += 1;
				else if (*line == '<') *removed += 1;
			}
			line_start''')
# 20 diff: snprintf, helper to drop a file
ref(A,DI,'''	if (unlink(from_tmp)) {
		printf("error unlinking %s: %d", from_tmp, errno);
	}
	if (unlink(to_tmp)) {
		printf("error unlinking %s: %d", to_tmp, errno);
	}
	free(from_tmp);
	free(to_tmp);
''','''	drop(from_tmp);
	drop(to_tmp);
''',DI,'''void ohcount_calc_diff_with_disk(
''','''static void drop(char *path) {
	if (unlink(path) != 0)
		printf("error unlinking %s: %d", path, errno);
	free(path);
}

void ohcount_calc_diff_with_disk(
''',DI,'''	sprintf(command, "diff''','''	snprintf(command, sizeof(command), "diff''')
# 21 size test as helper
ref(A,DI,'''	if (strlen(from) > USE_DISK_IF_LARGER || strlen(to) > USE_DISK_IF_LARGER)
		return ohcount_calc_diff_with_disk(from, to, added, removed);
''','''	size_t nfrom = strlen(from), nto = strlen(to);
	int big = nfrom > USE_DISK_IF_LARGER || nto > USE_DISK_IF_LARGER;
	if (big) {
		ohcount_calc_diff_with_disk(from, to, added, removed);
		return;
	}
''')
# 22 output loop
ref(A,DI,'''  for (i0 = 1; i0 <= m; i0 = i1+1) {
    while''','''  i0 = 1;
  while (i0 <= m) {
    while''',DI,'''    change(i0, i1, j0, j1, added, removed);
  }
  if (m == 0)''','''    change(i0, i1, j0, j1, added, removed);
    i0 = i1+1;
  }
  if (m == 0)''')
# 23 detect: tidy modeline
ref(A,D,'''      length = (pe - p < sizeof(buf)) ? pe - p : sizeof(buf) - 1;
      strncpy(buf, p, length);
      buf[length] = '\\0';

		  // Special''','''      length = pe - p;
      if (length >= (int)sizeof(buf)) length = sizeof(buf) - 1;
      memcpy(buf, p, length);
      buf[length] = '\\0';

		  // Special''')
# 24 detect: file name step
ref(A,D,'''    length = strlen(sourcefile->filename);
    struct FilenameMap *rf =
      ohcount_hash_language_from_filename(sourcefile->filename, length);
    if (rf) language = rf->value;''','''    const char *name = sourcefile->filename;
    struct FilenameMap *rf = ohcount_hash_language_from_filename(name, strlen(name));
    language = rf ? rf->value : NULL;''')
# 25 line copied by a helper (basic, fortran...)
ref(A,D,'''    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
    strncpy(line, p, length);
    line[length] = '\\0';
    char *eol = line + strlen(line);
    char *line_end = pe;

    // Look for C++ headers.''','''    take_line(line, sizeof(line), p, pe);
    char *eol = strchr(line, '\\0');
    char *line_end = pe;

    // Look for C++ headers.''',D,'''const char *disambiguate_h(SourceFile''','''static void take_line(char *line, size_t room, const char *from, const char *to) {
  size_t n = to - from;
  if (n > room - 1) n = room - 1;
  strncpy(line, from, n);
  line[n] = '\\0';
}

const char *disambiguate_h(SourceFile''')
# 26 score counters in a struct
ref(A,D,'''  int mathematica_score = 0;
  int matlab_score = 0;
  int objective_c_score = 0;
  int limbo_score = 0;
  int octave_syntax_detected = 0;
''','''  int octave_syntax_detected = 0, limbo_score = 0;
  int mathematica_score = 0, matlab_score = 0, objective_c_score = 0;
''',D,'''  if (limbo_score > objective_c_score &&
      limbo_score > matlab_score &&
      limbo_score > mathematica_score)
    return LANG_LIMBO;
  else if (objective_c_score > matlab_score &&
           objective_c_score > mathematica_score)
    return LANG_OBJECTIVE_C;
  else if (mathematica_score > matlab_score)
    return LANG_MATHEMATICA;
  else
    return octave_syntax_detected ? LANG_OCTAVE : LANG_MATLAB;''','''  const char *winner = octave_syntax_detected ? LANG_OCTAVE : LANG_MATLAB;
  int best = matlab_score;
  if (mathematica_score > best) { best = mathematica_score; winner = LANG_MATHEMATICA; }
  if (objective_c_score > best) { best = objective_c_score; winner = LANG_OBJECTIVE_C; }
  if (limbo_score > best) winner = LANG_LIMBO;
  return winner;''')
# 27..
bug('C18',LI,'''        if (potential_licenses_s[j] > -1) found[j] = 1;''','''        found[j] = potential_licenses_s[j] > -1;''')
bug('C09',D,'''  struct ExtensionMap *re = ohcount_hash_language_from_ext(sourcefile->ext,
                                                               length);
  if (re) language = re->value;
  if (!language) {
    // Try the lower-case version of this extension.
    char lowerext[length + 1];
    strncpy(lowerext, sourcefile->ext, length);
    lowerext[length] = '\\0';
    for (p = lowerext; p < lowerext + length; p++) *p = tolower(*p);''','''  struct ExtensionMap *re = ohcount_hash_language_from_ext(sourcefile->ext,
                                                               length);
  if (re) language = re->value;
  if (!language) {
    // Try the lower-case version of this extension.
    char lowerext[length + 1];
    int k;
    for (k = 0; k < length; k++) lowerext[k] = tolower(sourcefile->filename[k]);
    lowerext[length] = '\\0';''')

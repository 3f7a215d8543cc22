D='src/detector.c'; DI='src/diff.c'; S='src/sourcefile.c'; LI='src/licenses.c'; O='src/ohcount.c'; P='src/parsed_language.c'
BASIC='''    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
    strncpy(line, p, length);
    line[length] = '\\0';
    char *line_end = pe;
'''
bug('C11',D,BASIC,BASIC.replace("sizeof(line) - 1;","sizeof(line);"))
bug('C11',D,BASIC,BASIC.replace("pe - p < sizeof(line)","pe - p <= sizeof(line)"))
bug('C11',D,"      length = (pe - p < sizeof(buf)) ? pe - p : sizeof(buf) - 1;","      length = pe - p < 128 ? pe - p : 80;")
ref('C11',D,"      length = (pe - p < sizeof(buf)) ? pe - p : sizeof(buf) - 1;","      length = pe - p;\n")  # bounded by the line: no bug
bug('C11',D,"    line[sizeof(line)-1] = '\\0';\n  } else {","  } else {")
bug('C11',D,"      while (p != line && isalnum(*(p - 1))) p--;","      while (isalnum(*(p - 1))) p--;")
bug('C11',D,"          while (p > line && *(p - 1) != '.') p--;","          while (*(p - 1) != '.') p--;")
bug('C11',D,"  pe = p + strlen(p) - 3;\n  char *dot = strstr(p, \".\");\n  if (dot && dot <= pe) {","  pe = p + strlen(p) - 3;\n  char *dot = strstr(p, \".\");\n  if (dot) {")
bug('C11',D,"        (*(p + 9) == ' ' || *(p + 9) == '\\t'))\n      return LANG_LIMBO;","        (*(p + 10) == ' ' || *(p + 9) == '\\t'))\n      return LANG_LIMBO;")
bug('C11',D,"      if (p[1] == '*') // Modula-2 comment","      if (p[1] == '*' || p[2] == '*') // Modula-2 comment")
bug('C11',D,"      if (pe - p >= 4) {","      if (pe - p >= 3) {")
bug('C11',D,"  return end ? (end - begin) : maxlen;","  return end ? (end - begin) + 2 : maxlen;")
bug('C11',D,"  return end ? (end - begin) : maxlen;","  return maxlen;")
bug('C11',LI,"      char *buffer = malloc(buffer_len+1);","      char *buffer = malloc(buffer_len);")
bug('C11',LI,"        if (q < q_max) *q++ = ' ';","        *q++ = ' ';")
bug('C11',LI,"      char *q_max = buffer + buffer_len + 1;","      char *q_max = buffer + buffer_len + 2;")
bug('C11',LI,"        // Strip newline characters.\n        while (*p == '\\r' || *p == '\\n') p++;","        // Strip newline characters.\n        p++;\n        while (*p == '\\r' || *p == '\\n') p++;")
bug('C11',S,"      if (length >= filepath + sizeof(filepath) - f_p) continue; // path too long","      if (length > filepath + sizeof(filepath) - f_p) continue; // path too long")
bug('C11',S,"  if (strlen(directory) + 1 >= sizeof(filepath)) return; // path too long","  if (strlen(directory) > sizeof(filepath)) return; // path too long")
bug('C11',S,"    while (p < pe && (*p == ' ' || *p == '\\t')) p++;","    while (*p == ' ' || *p == '\\t') p++;")  # text ends in a zero: no bug for reading
bug('C11',O,"  char buf[length + 1];","  char buf[length];")
bug('C11',O,"  for (; i < argc; i++) {\n    DIR","  for (; i <= argc + 1; i++) {\n    DIR")
bug('C11',DI,"	char command[1000];","	char command[100];")
bug('C11',DI,"  bufcpy[strlen(buf)] = 0;","")
bug('C11',D,"    char lowerext[length + 1];","    char lowerext[length];")
bug('C11',D,"      strncpy(buf, p, length);\n      buf[length] = '\\0';\n      char *eol = buf + strlen(buf);","      strncpy(buf, p, length);\n      char *eol = buf + strlen(buf);")
bug('C11',D,"        p += 8;\n        while (*p == ' ' || *p == '\\t') p++;\n        if (*p == '<'","        p += 9;\n        while (*p == ' ' || *p == '\\t') p++;\n        if (*p == '<'")
bug('C11',D,"          pe = p;\n          while (pe < eol && *pe != '>' && *pe != '\"') pe++;","          pe = p;\n          while (*pe != '>' && *pe != '\"') pe++;")
# refactorings
ref('C11',D,BASIC,'''    size_t n = pe - p;
    if (n > sizeof(line) - 1)
      n = sizeof(line) - 1;
    length = n;
    strncpy(line, p, n);
    line[n] = '\\0';
    char *line_end = pe;
''')
ref('C11',D,BASIC,'''    length = pe - p;
    if (length >= (int) sizeof(line)) length = sizeof(line) - 1;
    memcpy(line, p, length);
    line[length] = '\\0';
    char *line_end = pe;
''')
ref('C11',D,"  for (p = line; p < eol; p++) *p = tolower(*p);","  p = line;\n  while (p < eol) {\n    *p = tolower(*p);\n    ++p;\n  }")
ref('C11',D,"  for (p = line; p < eol; p++) *p = tolower(*p);","  (void) eol;\n  for (p = line; *p; p++) *p = tolower(*p);")
ref('C11',D,"      while (isalnum(*pe)) pe++;\n      length = pe - p;","      for (; isalnum(*pe); pe++) ;\n      length = pe - p;")
ref('C11',D,'''      if (p > line) p--;
      pe = p;''','''      if (p != line) --p;
      pe = p;''')
ref('C11',LI,'''        while (p < p_max && *p != '\\r' && *p != '\\n' && q < q_max)
          *q++ = *p++;''','''        while (p < p_max && q < q_max) {
          if (*p == '\\r' || *p == '\\n') break;
          *q = *p;
          p++;
          q++;
        }''')
ref('C11',S,'''      strncpy(f_p, (const char *)file->d_name, length);
      *(f_p + length) = '\\0';''','''      memcpy(f_p, file->d_name, length + 1);''')
ref('C11',S,'''  strncpy(filepath, directory, strlen(directory));
  *(filepath + strlen(directory)) = '/';
  char *f_p = filepath + strlen(directory) + 1;''','''  size_t dirlen = strlen(directory);
  memcpy(filepath, directory, dirlen);
  char *f_p = filepath + dirlen;
  *f_p++ = '/';''')
ref('C11',O,'''  strncpy(buf, (const char*)sf->contents + start, length); // field exists
  buf[length] = '\\0';''','''  const char *from = sf->contents + start;
  buf[length] = '\\0';
  strncpy(buf, from, length);''')
ref('C11',DI,'''  strncpy(bufcpy, buf, strlen(buf));
  bufcpy[strlen(buf)] = 0;''','''  strcpy(bufcpy, buf);''')
ref('C11',D,'''    if (*line == '#') {
      p = line + 1;
      while (*p == ' ' || *p == '\\t') p++;
      if (strncmp''','''    if (line[0] == '#') {
      p = &line[1];
      p += strspn(p, " \\t");
      if (strncmp''')
ref('C11',D,'''    p = line;
    if (isdigit(*p)) {
      // /^\\d+\\s+\\w/
      p++;
      while (isdigit(*p)) p++;''','''    p = line;
    if (isdigit(*p)) {
      // /^\\d+\\s+\\w/
      do p++; while (isdigit(*p));''')
ref('C11',D,'''    while (pe < eof && *pe != '\\r' && *pe != '\\n') pe++;
'''+BASIC,'''    for (; pe < eof; pe++)
      if (*pe == '\\r' || *pe == '\\n') break;
'''+BASIC)
ref('C11',D,'''    for (i = 0; filenames[i] != NULL; i++) {
      p = filenames[i];
      pe = p + strlen(p);''','''    char **it;
    for (it = filenames; *it; it++) {
      p = *it;
      i = it - filenames;
      pe = p + strlen(p);''')
ref('C11',D,'''          length = pe - p;
          strncpy(buf, p, length);
          buf[length] = '\\0';
          if (ohcount_hash_is_cppheader(buf, length))''','''          int header_length = (int) (pe - p);
          length = header_length;
          memcpy(buf, p, header_length);
          buf[header_length] = 0;
          if (ohcount_hash_is_cppheader(buf, header_length))''')
ref('C11',S,'''    while (p < pe && (*p == ' ' || *p == '\\t')) p++;''','''    while (p != pe) {
      if (*p != ' ' && *p != '\\t') break;
      p++;
    }''')
ref('C11',DI,'''	sprintf(command, "diff --normal''','''	snprintf(command, sizeof(command), "diff --normal''')
H='''const char *disambiguate_basic(SourceFile *sourcefile) {'''
ref('C11',D,H,'''static int copy_line(char *line, size_t room, const char *p, const char *pe) {
  int length = (pe - p < room) ? pe - p : room - 1;
  strncpy(line, p, length);
  line[length] = '\\0';
  return length;
}

'''+H,D,BASIC,'''    length = copy_line(line, sizeof(line), p, pe);
    char *line_end = pe;
''')
ref('C11',D,H,'''static char *skip_line(char *pe, const char *eof) {
  while (pe < eof && *pe != '\\r' && *pe != '\\n') pe++;
  return pe;
}

'''+H,D,'''    while (pe < eof && *pe != '\\r' && *pe != '\\n') pe++;
'''+BASIC,'''    pe = skip_line(pe, eof);
'''+BASIC)
ref('C11',D,'''    for (p = lowerext; p < lowerext + length; p++) *p = tolower(*p);''','''    int k;
    for (k = 0; k < length; k++) lowerext[k] = tolower(lowerext[k]);''')
ref('C11',D,'''const char *disambiguate_h(SourceFile *sourcefile) {''','''static int is_cpp_keyword(const char *word) {
  static const char *words[] = { "class", "namespace", "template", "typename", NULL };
  int i;
  for (i = 0; words[i]; i++)
    if (strcmp(word, words[i]) == 0) return 1;
  return 0;
}

const char *disambiguate_h(SourceFile *sourcefile) {''',D,'''          if (strcmp(buf, "class") == 0 ||
              strcmp(buf, "namespace") == 0 ||
              strcmp(buf, "template") == 0 ||
              strcmp(buf, "typename") == 0)
            return LANG_CPP;''','''          if (is_cpp_keyword(buf))
            return LANG_CPP;''')
ref('C11',D,'''    // Next line.
    pe = line_end;
    while (*pe == '\\r' || *pe == '\\n') pe++;
    p = pe;''','''    // Next line.
    p = line_end;
    while (*p == '\\r' || *p == '\\n') p++;
    pe = p;''')
ref('C11',LI,'''      q = buffer;
      char *q_max = buffer + buffer_len + 1;
''','''      char *q_max = &buffer[buffer_len + 1];
      q = buffer;
''')
ref('C11',LI,'''        while (*p == ' ' || *p == '\\t' || ispunct(*p)) p++;''','''        for (;;) {
          if (*p != ' ' && *p != '\\t' && !ispunct(*p)) break;
          p++;
        }''')
ref('C11',D,'''      for (i = 0; filenames[i] != NULL; i++)
        if (strcmp(path, filenames[i]) == 0)
          return LANG_OBJECTIVE_C;''','''      i = 0;
      while (filenames[i]) {
        if (!strcmp(path, filenames[i])) return LANG_OBJECTIVE_C;
        i++;
      }''')
ref('C11',D,'''  char *eol = line + strlen(line);

  char buf[80];
  size_t length;

  for (p = line; p < eol; p++) *p = tolower(*p);''','''  size_t len = strlen(line), k;

  char buf[80];
  size_t length;

  for (k = 0; k < len; k++) line[k] = tolower(line[k]);''')
ref('C11',S,'''      int length = strlen(file->d_name);
      if (length >= filepath + sizeof(filepath) - f_p) continue; // path too long
''','''      int length = strlen(file->d_name);
      int room = filepath + sizeof(filepath) - f_p;
      if (length + 1 > room) continue; // path too long
''')
ref('C11',D,'''    } else if (strncmp(p, "function", 8) == 0) { // Matlab or Octave function
      p += 8;''','''    } else if (!strncmp(p, "function", strlen("function"))) { // Matlab or Octave function
      p += strlen("function");''')
ref('C11',D,'''      const int length = pe - p;
      char buf[length + 1];
      strncpy(buf, p, length);
      buf[length] = '\\0';''','''      const int length = pe - p;
      char buf[length + 1];
      int k;
      for (k = 0; k < length; k++) buf[k] = p[k];
      buf[length] = '\\0';''')
ref('C11',DI,'''  while (l) {
    p = realloc(p, (++j+3)*sizeof(struct line));
    p[j].value = hash(l);
    l = strtok(NULL, "\\n");
  }''','''  for (; l != NULL; l = strtok(NULL, "\\n")) {
    ++j;
    p = realloc(p, (j+3)*sizeof(struct line));
    p[j].value = hash(l);
  }''')

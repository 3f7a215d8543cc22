# Refactorings and bugs of the parsers' shared macros and of some grammars: judged by every check of the parsers.
PM='src/parser_macros.h'; A='C01 C02 C03 C04 C05 C06 C20'
INL='''  if (callback && p > line_start) { \\
    if (line_contains_code) { \\
      if (inqueue) \\
        enqueue(lang, "lcode", cint(line_start), cint(p), userdata); \\
      else \\
        callback(lang, "lcode", cint(line_start), cint(p), userdata); \\
    } else if (whole_line_comment) { \\
      if (inqueue) \\
        enqueue(lang, "lcomment", cint(line_start), cint(p), userdata); \\
      else \\
        callback(lang, "lcomment", cint(line_start), cint(p), userdata); \\
    } else { \\
      if (inqueue) \\
        enqueue(lang, "lblank", cint(line_start), cint(p), userdata); \\
      else \\
        callback(lang, "lblank", cint(line_start), cint(p), userdata); \\
    } \\
  } \\
'''
NL='''    if (line_contains_code) \\
      callback(lang, "lcode", cint(line_start), cint(te), userdata); \\
    else if (whole_line_comment) \\
      callback(lang, "lcomment", cint(line_start), cint(te), userdata); \\
    else \\
      callback(lang, "lblank", cint(ts), cint(te), userdata); \\
'''
ref(A,PM,INL,'''  if (callback && p > line_start) { \\
    const char *kind = line_contains_code ? "lcode" : \\
                       whole_line_comment ? "lcomment" : "lblank"; \\
    if (inqueue) \\
      enqueue(lang, kind, cint(line_start), cint(p), userdata); \\
    else \\
      callback(lang, kind, cint(line_start), cint(p), userdata); \\
  } \\
''')
ref(A,PM,INL,'''  if (callback && p > line_start) { \\
    report_line(lang, cint(line_start), cint(p), userdata, inqueue ? enqueue : callback); \\
  } \\
''',PM,'''#define dequeue { \\''','''static int whole_line_comment;
static void report_line_(const char *lang, int code_seen, int comment_seen, int s, int e, void *udata,
                        void (*to)(const char *, const char *, int, int, void *)) {
  if (code_seen)
    to(lang, "lcode", s, e, udata);
  else if (comment_seen)
    to(lang, "lcomment", s, e, udata);
  else
    to(lang, "lblank", s, e, udata);
}
#define report_line(lang, s, e, u, to) report_line_(lang, line_contains_code, whole_line_comment, s, e, u, to)
#define dequeue { \\''',PM,'\nint whole_line_comment;','\nstatic int whole_line_comment;')
ref(A,PM,NL,'''    const char *kind = "lblank"; \\
    char *from = ts; \\
    if (line_contains_code) { kind = "lcode"; from = line_start; } \\
    else if (whole_line_comment) { kind = "lcomment"; from = line_start; } \\
    callback(lang, kind, cint(from), cint(te), userdata); \\
''')
ref(A,PM,'''  inqueue = 0; \\
  line_start = last_line_start; \\
  line_contains_code = last_line_contains_code; \\
  whole_line_comment = last_whole_line_comment; \\''','''  whole_line_comment = last_whole_line_comment; \\
  line_contains_code = last_line_contains_code; \\
  line_start = last_line_start; \\
  inqueue = 0; \\''')
ref(A,PM,'''  if (inqueue) { dequeue; } \\
  if (!line_contains_code && !line_start) line_start = ts; \\
  line_contains_code = 1; \\''','''  if (inqueue) dequeue \\
  if (!line_contains_code) { \\
    line_contains_code = 1; \\
    if (line_start == NULL) line_start = ts; \\
  } \\''')
ref(A,PM,'''  if (seen && seen != lang) \\
    std_internal_newline(seen) \\
  else \\
    std_internal_newline(lang) \\
  seen = 0; \\''','''  const char *language_seen = seen && seen != lang ? seen : lang; \\
  std_internal_newline(language_seen) \\
  seen = NULL; \\''',PM,'''  if (seen && seen != lang) \\
    std_newline(seen) \\
  else \\
    std_newline(lang) \\
  seen = 0; \\''','''  const char *language_seen = lang; \\
  if (seen) language_seen = seen; \\
  seen = NULL; \\
  std_newline(language_seen) \\''')
ref(A,PM,'''  if ((whole_line_comment || line_contains_code) && callback) { \\
    if (line_contains_code) \\
      callback(lang, "lcode", cint(line_start), cint(pe), userdata); \\
    else if (whole_line_comment) \\
      callback(lang, "lcomment", cint(line_start), cint(pe), userdata); \\
  } \\''','''  if (callback) { \\
    if (line_contains_code) \\
      callback(lang, "lcode", cint(line_start), length, userdata); \\
    else if (whole_line_comment) \\
      callback(lang, "lcomment", cint(line_start), length, userdata); \\
  } \\''')
ref(A,PM,'''  while (pos < end && *pos != '\\n' && *pos != '\\r' && *pos != '\\f') {
    if (*pos != '\\t' && *pos != '\\v' && *pos != ' ') return 0;
    pos++;
  }
  if (pos == end) pos--; // no newline at EOF
  else if (*pos == '\\r' && *(pos+1) == '\\n') pos++;
  *p = pos;
  return 1;''','''  for (; pos < end; pos++) {
    switch (*pos) {
      case '\\t': case '\\v': case ' ': continue;
      case '\\r':
        if (pos[1] == '\\n') pos++;
        *p = pos;
        return 1;
      case '\\n': case '\\f':
        *p = pos;
        return 1;
      default: return 0;
    }
  }
  *p = end - 1;
  return 1;''')
ref(A,PM,"  if (te >= line_start) line_start = 0; \\","  if (!(te < line_start)) line_start = NULL; \\")
ref(A,PM,'''#define cint(c) ((int) (c - buffer_start))''','''#define cint(c) ((int) ((c) - buffer_start))''')
ref(A,PM,'''  p = buffer; \\
  pe = buffer + length; \\
  eof = pe; \\
  \\
  buffer_start = buffer; \\
''','''  buffer_start = buffer; \\
  p = buffer_start; \\
  eof = pe = p + length; \\
''')
ref(A,PM,'''  if (is_blank_entry(&p, pe)) { \\
    te = p + 1; \\
    std_newline(lang) \\
  } \\''','''  char *entry_end = p; \\
  if (is_blank_entry(&entry_end, pe)) { \\
    p = entry_end; \\
    te = entry_end + 1; \\
    std_newline(lang) \\
  } \\''')
# grammars
ref(A,'src/parsers/c.rl','''    switch(entity) {
    case C_SPACE:
      ls
      break;
    case C_ANY:
      code
      break;
    case INTERNAL_NL:
      std_internal_newline(C_LANG)
      break;
    case NEWLINE:
      std_newline(C_LANG)
    }''','''    if (entity == NEWLINE) std_newline(C_LANG)
    else if (entity == INTERNAL_NL) std_internal_newline(C_LANG)
    else if (entity == C_ANY) code
    else if (entity == C_SPACE) ls''')
ref(A,'src/parsers/c.rl','''  C_LANG = CPP_LANG;
  parse_c(buffer, length, count, callback, userdata);
  C_LANG = ORIG_C_LANG;
''','''  const char *saved = C_LANG;
  C_LANG = CPP_LANG;
  parse_c(buffer, length, count, callback, userdata);
  C_LANG = saved;
''')
ref(A,'src/parsers/c.rl','''void parse_c(char *buffer,''','''static void parse_c_as(const char *lang, char *buffer, int length, int count,
             void (*callback) (const char *lang, const char *entity, int s,
                               int e, void *udata),
             void *userdata);
void parse_c(char *buffer,''','src/parsers/c.rl','''  C_LANG = CPP_LANG;
  parse_c(buffer, length, count, callback, userdata);
  C_LANG = ORIG_C_LANG;
''','''  parse_c_as(CPP_LANG, buffer, length, count, callback, userdata);
''','src/parsers/c.rl','''  C_LANG = CSHARP_LANG;
  parse_c(buffer, length, count, callback, userdata);
  C_LANG = ORIG_C_LANG;
''','''  parse_c_as(CSHARP_LANG, buffer, length, count, callback, userdata);
''','src/parsers/c.rl','''const char *CPP_LANG = LANG_CPP;
const char *ORIG_C_LANG = LANG_C;
''','''const char *CPP_LANG = LANG_CPP;
const char *ORIG_C_LANG = LANG_C;
static void parse_c_as(const char *lang, char *buffer, int length, int count,
             void (*callback) (const char *lang, const char *entity, int s,
                               int e, void *udata),
             void *userdata) {
  C_LANG = lang;
  parse_c(buffer, length, count, callback, userdata);
  C_LANG = ORIG_C_LANG;
}
''')
ref(A,'src/parsers/html.rl','''  html_sq_str = '\\'' ([^\\r\\n\\f'\\\\] | '\\\\' nonnewline)* '\\'' @code;
  html_dq_str = '"' ([^\\r\\n\\f"\\\\] | '\\\\' nonnewline)* '"' @code;
''','''  html_dq_str = '"' ('\\\\' nonnewline | [^\\r\\n\\f"\\\\])* '"' @code;
  html_sq_str = '\\'' ('\\\\' nonnewline | [^\\r\\n\\f'\\\\])* '\\'' @code;
''')
ref(A,'src/parsers/html.rl','''    spaces       ${ entity = HTML_SPACE; } => html_ccallback;
    html_comment;
    html_string;
''','''    html_comment;
    html_string;
    spaces       ${ entity = HTML_SPACE; } => html_ccallback;
''')
ref(A,'src/parsers/html.rl','''    callback(HTML_LANG, html_entities[entity], cint(ts), cint(te), userdata);''','''    const char *name = html_entities[entity];
    int from = ts - buffer_start, to = te - buffer_start;
    callback(HTML_LANG, name, from, to, userdata);''')
ref(A,'src/parser.c','''      if (callback)
        rp->parser(buffer, buffer_len, count, callback, userdata);
      return 1;''','''      if (!callback)
        return 1;
      (*rp->parser)(buffer, buffer_len, count, callback, userdata);
      return 1;''')
ref(A,'src/parser.c','''  if (language) {
    struct ParserMap *rp =
      ohcount_hash_parser_from_language(language, strlen(language));
    if (rp) {
''','''  struct ParserMap *rp = NULL;
  if (language)
    rp = ohcount_hash_parser_from_language(language, strlen(language));
  {
    if (rp) {
''')

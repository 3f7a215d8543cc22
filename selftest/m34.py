# Refactorings of the shared parser macros' functions, judged by the parser checks.
A='C01 C02 C03 C04 C05 C06 C20'
M='src/parser_macros.h'
OLD='''  char *pos = *p+1;
  while (pos < end && *pos != '\\n' && *pos != '\\r' && *pos != '\\f') {
    if (*pos != '\\t' && *pos != '\\v' && *pos != ' ') return 0;
    pos++;
  }
  if (pos == end) pos--; // no newline at EOF
  else if (*pos == '\\r' && *(pos+1) == '\\n') pos++;
  *p = pos;
  return 1;
'''
ref(A,M,OLD,'''  char *pos;
  for (pos = *p + 1; pos < end; pos++) {
    int c = *pos;
    if (c == '\\n' || c == '\\r' || c == '\\f') {
      if (c == '\\r' && pos[1] == '\\n') pos++;
      *p = pos;
      return 1;
    }
    if (c != '\\t' && c != '\\v' && c != ' ') return 0;
  }
  *p = end - 1; // no newline at EOF
  return 1;
''')
ref(A,M,'''int is_blank_entry(char **p, char *end) {
''','''static int ends_line(char c) {
  return c == '\\n' || c == '\\r' || c == '\\f';
}

int is_blank_entry(char **p, char *end) {
''',M,OLD,'''  char *pos = *p;
  while (++pos < end && !ends_line(*pos))
    if (*pos != '\\t' && *pos != '\\v' && *pos != ' ') return 0;
  if (pos >= end) pos = end - 1; // no newline at EOF
  else if (pos[0] == '\\r' && pos[1] == '\\n') ++pos;
  *p = pos;
  return 1;
''')
ref(A,M,'''  item->lang = lang;
  item->entity = entity;
  item->s = s;
  item->e = e;
  item->udata = udata;
  item->next = NULL;

  if (!callback_list_head) {
    callback_list_head = item;
    callback_list_tail = item;
  } else {
    callback_list_tail->next = item;
    callback_list_tail = item;
  }
''','''  *item = (Callback){ lang, entity, s, e, udata, NULL };
  if (callback_list_head)
    callback_list_tail->next = item;
  else
    callback_list_head = item;
  callback_list_tail = item;
''',M,'''  Callback *item = callback_list_head;
  while (item) {
    Callback *next = item->next;
    free(item);
    item = next;
  }
  callback_list_head = NULL;
  callback_list_tail = NULL;
''','''  while (callback_list_head) {
    Callback *first = callback_list_head;
    callback_list_head = first->next;
    free(first);
  }
  callback_list_tail = NULL;
''')
ref(A,M,'''#define code { \\
  if (inqueue) { dequeue; } \\
  if (!line_contains_code && !line_start) line_start = ts; \\
  line_contains_code = 1; \\
}''','''#define code { \\
  if (inqueue) { dequeue; } \\
  if (!line_contains_code) { \\
    if (line_start == 0) { line_start = ts; } \\
    line_contains_code = 1; \\
  } \\
}''')

# Refactorings and bugs of the shared grammar and of some grammars: judged by every check of the parsers.
C='src/parsers/common.rl'; A='C01 C02 C03 C04 C05 C06 C20'; R='src/parsers/'
ENQ='''  if (inqueue) { dequeue; } // the previous entity failed
  inqueue = 1;
  if (callback_list_head) free_queue(); // free the current queue
  callback_list_head = NULL;
  callback_list_tail = NULL;
  // set backup variables
  last_line_start = line_start;
  last_line_contains_code = line_contains_code;
  last_whole_line_comment = whole_line_comment;
'''
COM='''  if (inqueue) {
    Callback *item;
    for (item = callback_list_head; item != NULL; item = item->next)
      callback(item->lang, item->entity, item->s, item->e, item->udata);
    free_queue();
    inqueue = 0;
  }
'''
ref(A,C,ENQ,'''  if (inqueue) { dequeue; } // the previous entity failed
  free_queue();
  last_whole_line_comment = whole_line_comment;
  last_line_contains_code = line_contains_code;
  last_line_start = line_start;
  inqueue = 1;
''')
ref(A,C,COM,'''  if (inqueue) {
    Callback *item = callback_list_head;
    while (item) {
      const char *lang = item->lang, *kind = item->entity;
      int s = item->s, e = item->e;
      callback(lang, kind, s, e, item->udata);
      item = item->next;
    }
    inqueue = 0;
    free_queue();
  }
''')
ref(A,C,COM,'''  if (inqueue) { flush_queue(callback); inqueue = 0; }
''','src/parser_macros.h','''/** Frees the memory used by a queue. */''','''void free_queue();
void flush_queue(void (*callback)(const char *, const char *, int, int, void *)) {
  Callback *item;
  for (item = callback_list_head; item != NULL; item = item->next)
    callback(item->lang, item->entity, item->s, item->e, item->udata);
  free_queue();
}
/** Frees the memory used by a queue. */''')
ref(A,C,COM,'''  if (inqueue) {
    while (callback_list_head) {
      Callback *item = callback_list_head;
      callback(item->lang, item->entity, item->s, item->e, item->udata);
      callback_list_head = item->next;
      free(item);
    }
    callback_list_tail = NULL;
    inqueue = 0;
  }
''')
ref(A,C,'''  p == buffer || *(p-1) == '\\r' || *(p-1) == '\\n' || *(p-1) == '\\f'
''','''  p == buffer || p[-1] == '\\n' || p[-1] == '\\r' || p[-1] == '\\f'
''')
ref(A,C,'''  p == buffer || *(p-1) == '\\r' || *(p-1) == '\\n' || *(p-1) == '\\f'
''','''  at_line_start(p, buffer)
''','src/parser_macros.h','''int is_blank_entry(''','''static int at_line_start(const char *pos, const char *start) {
  if (pos <= start) return 1;
  switch (pos[-1]) {
    case '\\n': case '\\r': case '\\f': return 1;
  }
  return 0;
}
int is_blank_entry(''')
ref(A,C,'''  if (!line_contains_code && !line_start) line_start = ts;
  line_contains_code = 1;
}

action comment''','''  mark_code(ts);
}

action comment''','src/parser_macros.h','''#define dequeue { \\''','''int line_contains_code;
char *line_start;
static void mark_code(char *at) {
  if (!line_contains_code && !line_start) line_start = at;
  line_contains_code = 1;
}
#define dequeue { \\''')
ref(A,C,'''  if (!line_contains_code) {
    whole_line_comment = 1;
    if (!line_start) line_start = ts;
  }
''','''  if (line_contains_code == 0) {
    if (line_start == 0)
      line_start = ts;
    whole_line_comment = 1;
  }
''')
ref(A,C,'''newline = ('\\r\\n' | '\\n' | '\\f' |''','''newline = ('\\n' | '\\r\\n' | '\\f' |''')
ref(A,R+'ruby.rl','''  ruby_line_comment = '#' @comment nonnewline*;
''','''  ruby_line_comment = '#' @comment nonnewline*;
  ruby_nl = newline %{ entity = INTERNAL_NL; } %ruby_ccallback %{ entity = RUBY_ANY; };
''',R+'ruby.rl','''    '=begin' @comment @enqueue (
      newline %{ entity = INTERNAL_NL; } %ruby_ccallback %{ entity = RUBY_ANY; }
      |
      ws''','''    '=begin' @comment @enqueue (
      ws
      |
      ruby_nl''')
ref(A,R+'python.rl','''  python_sq_doc_str =
    '\\'\\'\\'' @comment (
      newline %{ entity = INTERNAL_NL; } %python_ccallback
      |
      ws
      |
      (nonnewline - ws) @comment
    )* :>> '\\'\\'\\'' @comment;''','''  python_doc_text = (
      newline %{ entity = INTERNAL_NL; } %python_ccallback
      |
      ws
      |
      (nonnewline - ws) @comment
    )*;
  python_sq_doc_str = '\\'\\'\\'' @comment python_doc_text :>> '\\'\\'\\'' @comment;''')
ref(A,R+'lua.rl','''  action lua_long_ec_dec { equal_count--; }''','''  action lua_long_ec_dec { --equal_count; }''',R+'lua.rl','''  action lua_long_ec_inc { equal_count++; }''','''  action lua_long_ec_inc { equal_count = equal_count + 1; }''')
ref(A,R+'html.rl','''    case HTML_SPACE:
      ls
      break;
    case HTML_ANY:
      code
      break;
''','''    case HTML_ANY:
      code
      break;
    case HTML_SPACE:
      ls
      break;
''')
ref(A,R+'html.rl','''  if (count) { process_last_line(HTML_LANG) }''','''  if (!count) return;
  process_last_line(HTML_LANG)''')
ref(A,R+'html.rl','''  cs = (count) ? html_en_html_line : html_en_html_entity;''','''  if (count)
    cs = html_en_html_line;
  else
    cs = html_en_html_entity;''')
ref(A,R+'c.rl','''  cs = (count) ? c_en_c_line : c_en_c_entity;''','''  cs = c_en_c_entity;
  if (count != 0) cs = c_en_c_line;''')
# bugs
bug('C05',C,'''  last_whole_line_comment = whole_line_comment;
''','')
ref('C05 C04 C02',C,'''  if (inqueue) { dequeue; } // the previous entity failed
''','')
ref('C04 C05',C,'''      callback(item->lang, item->entity, item->s, item->e, item->udata);
    free_queue();
    inqueue = 0;''','''      callback(item->lang, item->entity, item->s, item->e, item->udata);
    inqueue = 0;''')
bug('C04',C,'''    free_queue();
    inqueue = 0;''','''    free_queue();''')
bug('C01',C,'''  p == buffer || *(p-1) == '\\r' || *(p-1) == '\\n' || *(p-1) == '\\f'
''','''  *(p-1) == '\\r' || *(p-1) == '\\n' || *(p-1) == '\\f'
''')

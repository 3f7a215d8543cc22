# bugs in the scanners, written from the property statements
R='src/parsers/'
PM='src/parser_macros.h'
C=R+'common.rl'
# C01
bug('C01',PM,'''  else if (*pos == '\\r' && *(pos+1) == '\\n') pos++; \\''' if False else '''  else if (*pos == '\\r' && *(pos+1) == '\\n') pos++;''','''  else if (*pos == '\\r') pos++;''')
bug('C01 C03 C04',PM,'''  if (pos == end) pos--; // no newline at EOF''','''  if (pos >= end) pos = end; // no newline at EOF''')
bug('C01',PM,'''      callback(lang, "lblank", cint(ts), cint(te), userdata); \\''','''      callback(lang, "lblank", cint(te), cint(ts), userdata); \\''')
bug('C01 C04',PM,'''      callback(lang, "lcomment", cint(line_start), cint(pe), userdata); \\''','''      callback(lang, "lcomment", cint(ts), cint(pe), userdata); \\''')
bug('C01',C,'''  p == buffer || *(p-2) == '\\r' || *(p-2) == '\\n' || *(p-2) == '\\f\'''','''  *(p-2) == '\\r' || *(p-2) == '\\n' || *(p-2) == '\\f' || p == buffer''')
bug('C01',R+'python.rl','''    '\\'' ([^'] | '\\'' [^'] @{ fhold; }) @{ fhold; } # make''','''    '\\'' ([^'] | '\\'' [^'] @{ fhold; }) @{ fhold; fhold; } # make''')
bug('C04 C20',R+'rhtml.rl','''    rhtml_js_outry @{ p = ts; fret; };''','''    rhtml_js_outry @{ p = ts - 2; fret; };''')
# C02
bug('C02',PM,'''  whole_line_comment = 0; \\
  line_contains_code = 0; \\
  if (te >= line_start) line_start = 0; \\''','''  whole_line_comment = 0; \\
  if (callback) line_contains_code = 0; \\
  if (te >= line_start) line_start = 0; \\''')  # no effect: callback is always given
bug('C02',PM,'''  whole_line_comment = 0; \\
  line_contains_code = 0; \\
  if (te >= line_start) line_start = 0; \\''','''  whole_line_comment = 0; \\
  if (line_start) line_contains_code = 0; \\
  if (te >= line_start) line_start = 0; \\''')
bug('C02',PM,'''    if (line_contains_code) \\
      callback(lang, "lcode", cint(line_start), cint(te), userdata); \\
    else if (whole_line_comment) \\
      callback(lang, "lcomment", cint(line_start), cint(te), userdata); \\''','''    if (whole_line_comment) \\
      callback(lang, "lcomment", cint(line_start), cint(te), userdata); \\
    else if (line_contains_code) \\
      callback(lang, "lcode", cint(line_start), cint(te), userdata); \\''')
bug('C02',R+'ruby.rl','''    case NEWLINE:
      std_newline(RUBY_LANG)
    }''','''    case NEWLINE:
      std_newline(RUBY_LANG)
      if (inqueue) whole_line_comment = 1;
    }''')  # never taken
bug('C02',R+'ruby.rl','''    case NEWLINE:
      std_newline(RUBY_LANG)
    }''','''    case NEWLINE:
      std_newline(RUBY_LANG)
      if (te - ts > 1) whole_line_comment = 1;
    }''')
bug('C02',C,'''  last_whole_line_comment = whole_line_comment;
}''','''  last_whole_line_comment = 0;
}''')
bug('C02 C03',PM,'''  line_contains_code = last_line_contains_code; \\
''','')
# C03
bug('C03',R+'python.rl','''  if (count) { process_last_line(PYTHON_LANG) }''','''  if (count && !inqueue) { process_last_line(PYTHON_LANG) }''')  # no queue in python
bug('C03',R+'ruby.rl','''  if (count) { process_last_line(RUBY_LANG) }''','''  if (count && !inqueue) { process_last_line(RUBY_LANG) }''')
bug('C03',R+'lua.rl','''  if (count) { process_last_line(LUA_LANG) }''','''  if (count && line_start > buffer) { process_last_line(LUA_LANG) }''')
bug('C03',R+'c.rl','''  if (count) { process_last_line(C_LANG) }''','''  if (count && pe - line_start > 1) { process_last_line(C_LANG) }''')
bug('C03',R+'rhtml.rl','''  if (count) { process_last_line(RHTML_LANG) }''','''  if (count && !seen) { process_last_line(RHTML_LANG) }''')
# C04
bug('C04',PM,'''  if (p > line_start) line_start = p; \\''','''  if (p > line_start) line_start = p + 1; \\''')
bug('C04',PM,'''  if (callback && p > line_start) { \\''','''  if (callback && p > line_start + 1) { \\''')
bug('C04',PM,'''  if (callback && te > line_start) { \\''','''  if (callback) { \\''')
bug('C04',R+'ruby.rl','''  ruby_dq_str =
    '"' @code @enqueue (
      newline %{ entity = INTERNAL_NL; } %ruby_ccallback %{ entity = RUBY_ANY; }
      |''','''  ruby_dq_str =
    '"' @code @enqueue (
      newline
      |''')
bug('C04',R+'ruby.rl','''    )* '`' @commit @code;''','''    )* '`' @code;''')
bug('C04 C05',C,'''      callback(item->lang, item->entity, item->s, item->e, item->udata);
    free_queue();''','''      callback(item->lang, item->entity, item->s, item->e, item->udata);''')
bug('C04',R+'ruby.rl','''      '\\\\' nonnewline @code
    )* '`' @commit @code;''','''      '\\\\' any @code
    )* '`' @commit @code;''')
# C05
bug('C05',PM,'''  seen = 0; \\
  inqueue = 0; \\
}''','''  inqueue = 0; \\
}''')
bug('C05',PM,'''  line_start = 0; \\
  entity = 0; \\''','''  entity = 0; \\''')
bug('C05',R+'lua.rl','''  action lua_long_ec_res { equal_count = 0; }''','''  action lua_long_ec_res { }''')
bug('C05',PM,'''  inqueue = 0; \\
}

#endif''','''  if (!callback_list_head) inqueue = 0; \\
}

#endif''')
# C06
bug('C06',R+'lua.rl','''    callback(LUA_LANG, lua_entities[entity], cint(ts), cint(te), userdata);''','''    callback(LUA_LANG, lua_entities[entity + 1], cint(ts), cint(te), userdata);''')
bug('C06',R+'python.rl','''std_newline(PYTHON_LANG)''','''std_newline(seen)''')
bug('C06',PM,'''  if (seen && seen != lang) \\
    std_newline(seen) \\''','''  if (seen != lang) \\
    std_newline(seen) \\''')
bug('C06',R+'lua.rl','''  "identifier", "operator", "any"
''','''  "identifier", "operator"
''')
bug('C06',PM,'''        enqueue(lang, "lcomment", cint(line_start), cint(p), userdata); \\''','''        enqueue(lang, "comment", cint(line_start), cint(p), userdata); \\''')
# C20
bug('C20',R+'lua.rl','''    ^space      ${ entity = LUA_ANY;   } => lua_ccallback;''','''    ^(space | 0) ${ entity = LUA_ANY;   } => lua_ccallback;''')
bug('C20',R+'lua.rl','''    ^space                ${ entity = LUA_ANY;        } => lua_ecallback;''','''    graph                 ${ entity = LUA_ANY;        } => lua_ecallback;''')
bug('C20',R+'rhtml.rl','''    rhtml_js_outry @{ p = ts; fret; };''','''    rhtml_js_outry @{ p = ts - 1; fret; };''')
bug('C20',R+'rhtml.rl','''    rhtml_js_outry @{ p = ts; fret; };''','''    rhtml_js_outry @{ p = ts; fcall rhtml_line; };''')
bug('C20 C01',R+'python.rl','''  init

  %% write init;
  cs = (count)''','''  init

  %% write init;
  pe = buffer + strlen(buffer);
  cs = (count)''')
bug('C20',R+'c.rl','''  %% write exec;''','''  if (length > 1 << 20) return;
  %% write exec;''')

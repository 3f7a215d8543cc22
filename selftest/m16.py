D='src/diff.c'; SF='src/sourcefile.c'
bug('C16',D,'*added += d - c + 1;','*added += d - c;')
bug('C16',D,'*removed += b - a + 1;','*removed = b - a + 1;')
bug('C16',D,'''  if(d > len[1])
    d = len[1];''','''  if(d > len[0])
    d = len[0];''')
bug('C16',D,"if (line[0] == '<')","if (line[0] == '-')")
bug('C16',D,'from_tmp, to_tmp);\n','to_tmp, from_tmp);\n')
bug('C16',D,'''  *added = *removed = 0;
  output(''','''  *removed = 0;
  output(''')
bug('C16',D,'output(added, removed);','output(removed, added);')
bug('C16',D,'calc_diff_with_disk(from, to, added, removed)','calc_diff_with_disk(to, from, added, removed)')
bug('C16',SF,'ohcount_calc_diff(from->comments, to->comments','ohcount_calc_diff(from->comments, to->code')
bug('C16',SF,'''&delta->comments_added,
                    &delta->comments_removed);''','''&delta->comments_removed,
                    &delta->comments_added);''')
bug('C16',SF,'if (from->blanks_count > to->blanks_count)','if (from->blanks_count != to->blanks_count)')
bug('C16',SF,'delta->blanks_added = to->blanks_count - from->blanks_count','delta->blanks_added = to->blanks_count')
bug('C16',SF,'if (!ohcount_loc_delta_list_get_loc_delta(list, iter->pl->name)) {','if (1) {')
bug('C16',SF,'''			to = iter->pl;
			break;''','''			to = iter->pl; if (!to->code_count) to = blank;
			break;''')
bug('C16',SF,'''		if (strcmp(language, iter->pl->name) == 0) {
			from = iter->pl;''','''		if (strncmp(language, iter->pl->name, strlen(language)) == 0) {
			from = iter->pl;''')
bug('C16',SF,'''  iter = ohcount_sourcefile_get_parsed_language_list(to)->head;''','''  iter = ohcount_sourcefile_get_parsed_language_list(to)->head; if (iter) iter = iter->next;''')
ref('C16',D,'''  if (a > b && c > d)
    return;
''','')
ref('C16',D,'''  if(a <= b)
    *removed += b - a + 1;
''','''  if(b >= a) {
    int n = b - a;
    *removed = *removed + n + 1;
  }
''')
ref('C16',SF,'''  if (from->blanks_count > to->blanks_count)
    delta->blanks_removed = from->blanks_count - to->blanks_count;
  else
    delta->blanks_added = to->blanks_count - from->blanks_count;
''','''  int d = to->blanks_count - from->blanks_count;
  if (d >= 0)
    delta->blanks_added = d;
  else
    delta->blanks_removed = -d;
''')
ref('C16',SF,'''LocDelta *ohcount_sourcefile_calc_loc_delta(SourceFile *from_file,''','''static ParsedLanguage *find_pl(SourceFile *f, const char *language, ParsedLanguage *dflt) {
  ParsedLanguageList *iter = ohcount_sourcefile_get_parsed_language_list(f)->head;
  while (iter) {
    if (strcmp(iter->pl->name, language) == 0) return iter->pl;
    iter = iter->next;
  }
  return dflt;
}
LocDelta *ohcount_sourcefile_calc_loc_delta(SourceFile *from_file,''',SF,'''	for (iter = ohcount_sourcefile_get_parsed_language_list(from_file)->head;
			 iter;
			 iter = iter->next) {
		if (strcmp(language, iter->pl->name) == 0) {
			from = iter->pl;
			break;
		}
	}

	for (iter = ohcount_sourcefile_get_parsed_language_list(to_file)->head;
			 iter;
			 iter = iter->next) {
		if (strcmp(language, iter->pl->name) == 0) {
			to = iter->pl;
			break;
		}
	}
''','''  from = find_pl(from_file, language, blank); to = find_pl(to_file, language, blank);
''')
ref('C16',SF,'''  ohcount_calc_diff(from->code, to->code, &delta->code_added,
                    &delta->code_removed);''','''  int a, r;
  ohcount_calc_diff(from->code, to->code, &a, &r);
  delta->code_removed = r;
  delta->code_added = a;''')
ref('C16',D,'''			if (line[0] == '>')
			 	(*added)++;
			if (line[0] == '<')
				(*removed)++;''','''			switch (*line) {
			case '>': *added += 1; break;
			case '<': *removed += 1; break;
			}''')
ref('C16',D,'''  for (i0 = 1; i0 <= m; i0 = i1+1) {''','''  i0 = 1;
  while (i0 <= m) {''',D,'''    change(i0, i1, j0, j1, added, removed);
  }''','''    change(i0, i1, j0, j1, added, removed);
    i0 = i1 + 1;
  }''')
ref('C16',SF,'''  iter = ohcount_sourcefile_get_parsed_language_list(to)->head;
  while (iter) {
    if (!ohcount_loc_delta_list_get_loc_delta(list, iter->pl->name)) {
      LocDelta *delta''','''  for (iter = ohcount_sourcefile_get_parsed_language_list(to)->head; iter; iter = iter->next) {
    if (ohcount_loc_delta_list_get_loc_delta(list, iter->pl->name)) continue;
    {
      LocDelta *delta''',SF,'''      ohcount_loc_delta_free(delta);
    }
    iter = iter->next;
''','''      ohcount_loc_delta_free(delta);
    }
''')

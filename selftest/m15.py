L1='src/loc.c'; SF='src/sourcefile.c'; PL='src/parsed_language.c'
bug('C15',L1,'loc->blanks += other->blanks;','loc->blanks += other->comments;')
bug('C15',L1,'strcmp(loc->language, other->language) == 0','strncmp(loc->language, other->language, 4) == 0')
bug('C15',L1,'loc->filecount += other->filecount;','if (other->code) loc->filecount += other->filecount;')
bug('C15',L1,'  list->tail->next = item;\n      list->tail = item;','  list->tail->next = item;\n      list->head->tail->next = item; if (!list->next) list->tail = item;')
bug('C15',L1,'''  while (iter) {
    sum += iter->loc->comments;''','''  while (iter && iter->next) {
    sum += iter->loc->comments;''')
bug('C15',L1,'sum += iter->loc->filecount;','sum += iter->loc->filecount ? 1 : 0;')
bug('C15',L1,'if (ohcount_loc_total(iter->loc) != 0)','if (iter->loc->code + iter->loc->comments != 0)')
bug('C15',L1,'if (ohcount_loc_total(iter->loc) != 0)','if (ohcount_loc_total(iter->loc) > 1)')
bug('C15',L1,'delta->comments_removed != 0 ||','')
bug('C15',L1,'delta->blanks_added - delta->blanks_removed','delta->blanks_removed - delta->blanks_added')
bug('C15',L1,'if (iter->delta && strcmp(iter->delta','if (list->delta && strcmp(list->delta')
bug('C15',L1,'iter->loc && strcmp(iter->loc->language, loc->language) == 0','iter->loc && strcasecmp(iter->loc->language, loc->language) == 0')
bug('C15',SF,'iter->pl->blanks_count, 1)','iter->pl->blanks_count, iter->pl->code_count > 0)')
bug('C15',SF,'''lang->blanks_count++;''','''lang->blanks_count += (end > start);''')
bug('C15',PL,'parsed_language->code + parsed_language->buffer_size + 5','parsed_language->code + parsed_language->buffer_size')
bug('C15',SF,'''    ohcount_loc_list_add_loc_list(loc_list,
                                  ohcount_sourcefile_get_loc_list(iter->sf));''','''    if (ohcount_sourcefile_get_contents_size(iter->sf) > 0) ohcount_loc_list_add_loc_list(loc_list,
                                  ohcount_sourcefile_get_loc_list(iter->sf));''')
bug('C15',SF,'''list->tail->next = iter;
      list->tail = iter;''','''iter->next = list->next; list->next = iter;
      list->tail = iter;''')
# refactorings
ref('C15',L1,'''  int sum = 0;
  LocList *iter = list->head;
  while (iter) {
    sum += iter->loc->code;
    iter = iter->next;
  }
  return sum;''','''  int sum = 0;
  for (LocList *it = list->head; it != NULL; it = it->next)
    sum = sum + it->loc->code;
  return sum;''')
ref('C15',L1,'''int ohcount_loc_list_total(LocList *list) {
  int sum = 0;
  LocList *iter = list->head;
  while (iter) {
    sum += ohcount_loc_total(iter->loc);
    iter = iter->next;
  }
  return sum;''','''int ohcount_loc_list_total(LocList *list) {
  return ohcount_loc_list_code(list) + ohcount_loc_list_comments(list) + ohcount_loc_list_blanks(list);''')
ref('C15',L1,'''  if (strcmp(loc->language, other->language) == 0) {
    loc->code += other->code;''','''  if (strcmp(other->language, loc->language)) return;
  {
    loc->code = other->code + loc->code;''')
ref('C15',L1,'''    LocList *iter = list->head;
    while (iter) {
      if (iter->loc && strcmp(iter->loc->language, loc->language) == 0) break;
      iter = iter->next;
    }
    if (iter == NULL) { // new language''','''    Loc *iter = ohcount_loc_list_get_loc(list, loc->language);
    if (!iter) {''','src/loc.c','else ohcount_loc_add_loc(iter->loc, loc); // existing','else ohcount_loc_add_loc(iter, loc); // existing')
ref('C15',L1,'''  return strcmp(loc->language, other->language) == 0 &&
         loc->code == other->code && loc->comments == other->comments &&''','''  if (loc->code != other->code) return 0;
  return strcmp(loc->language, other->language) == 0 &&
         loc->comments == other->comments &&''')
ref('C15',L1,'''LocList *ohcount_loc_list_new() {''','''static LocList *append_item(LocList *list) {
  LocList *item = ohcount_loc_list_new();
  list->tail->next = item;
  list->tail = item;
  return item;
}
LocList *ohcount_loc_list_new() {''',L1,'''      LocList *item = ohcount_loc_list_new();
      item->loc = ohcount_loc_new(loc->language, loc->code, loc->comments,
                                  loc->blanks, loc->filecount);
      list->tail->next = item;
      list->tail = item;''','''      append_item(list)->loc = ohcount_loc_new(loc->language, loc->code, loc->comments,
                                  loc->blanks, loc->filecount);''')
ref('C15',SF,'''  if (strcmp(entity, "lcode") == 0) {
    while (*p == ' ' || *p == '\\t') p++;
    ohcount_parsed_language_add_code(lang, p, pe - p);
  } else if (strcmp(entity, "lcomment") == 0) {
    while (*p == ' ' || *p == '\\t') p++;
    ohcount_parsed_language_add_comment(lang, p, pe - p);
  } else if (strcmp(entity, "lblank") == 0) {
    lang->blanks_count++;
  }''','''  if (strcmp(entity, "lblank") == 0) {
    lang->blanks_count++;
    return;
  }
  while (*p == ' ' || *p == '\\t') p++;
  if (strcmp(entity, "lcode") == 0)
    ohcount_parsed_language_add_code(lang, p, pe - p);
  else if (strcmp(entity, "lcomment") == 0)
    ohcount_parsed_language_add_comment(lang, p, pe - p);''')
ref('C15',SF,'''  LocList *loc_list = ohcount_loc_list_new();
  SourceFileList *iter = list->head;
  while (iter) {
    ohcount_loc_list_add_loc_list(loc_list,
                                  ohcount_sourcefile_get_loc_list(iter->sf));
    iter = iter->next;
  }
  return loc_list;''','''  LocList *loc_list = ohcount_loc_list_new();
  for (SourceFileList *iter = list->head; iter; iter = iter->next) {
    LocList *l = ohcount_sourcefile_get_loc_list(iter->sf);
    ohcount_loc_list_add_loc_list(loc_list, l);
  }
  return loc_list;''')
ref('C15',L1,'''  int sum = 0;
  LocList *iter = list->head;
  while (iter) {
    sum += iter->loc->blanks;
    iter = iter->next;
  }
  return sum;''','''  int sum = 0;
  LocList *iter = list->head;
  if (iter) do {
    sum += iter->loc->blanks;
  } while ((iter = iter->next));
  return sum;''')
ref('C15',L1,'''  LocList *new_list = ohcount_loc_list_new();
  LocList *iter = list->head;
  while (iter) {
    if (ohcount_loc_total(iter->loc) != 0)
      ohcount_loc_list_add_loc(new_list, iter->loc);
    iter = iter->next;
  }
  return new_list;''','''  LocList *new_list = ohcount_loc_list_new();
  LocList *iter;
  for (iter = list->head; iter; iter = iter->next) {
    if (ohcount_loc_total(iter->loc) == 0) continue;
    ohcount_loc_list_add_loc(new_list, iter->loc);
  }
  return new_list;''')
ref('C15',L1,'''static''','static') if 0 else None
ref('C15',PL,'''  if (parsed_language->code_p + length <
      parsed_language->code + parsed_language->buffer_size + 5) {
    strncpy(parsed_language->code_p, p, length);
    parsed_language->code_p += length;
    *parsed_language->code_p = '\\0';
    parsed_language->code_count++;
  }''','''  char *limit = parsed_language->code + parsed_language->buffer_size + 5;
  char *end = parsed_language->code_p + length;
  if (end >= limit) return;
  memcpy(parsed_language->code_p, p, length);
  *end = '\\0';
  parsed_language->code_p = end;
  parsed_language->code_count += 1;''')

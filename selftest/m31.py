# A third set of refactorings: the command line, the count lists and the edges
# of the parsing layer, each judged by every check.
B='C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C21 C22'
O='src/ohcount.c'
K='src/loc.c'
def rf(props,f,*a):
    out=[]
    for i in range(0,len(a),2): out+=[f,a[i],a[i+1]]
    ref(props,*out)
# 0: one-line printer shared by summary and individual
rf(B,O,'''void individual(SourceFileList *list) {
''','''static void print_percent(int comments, int code, const char *none) {
  int both = comments + code;
  if (both <= 0) {
    printf("%s", none);
    return;
  }
  printf(" %9.1f%%", (float)comments / both * 100);
}

void individual(SourceFileList *list) {
''','''      if (liter->loc->comments + liter->loc->code > 0)
        printf(" %9.1f%%",
               (float)liter->loc->comments / (liter->loc->comments +
                 liter->loc->code) * 100);
      else
        printf("           ");
''','''      print_percent(liter->loc->comments, liter->loc->code, "           ");
''','''    if (iter->loc->comments + iter->loc->code > 0)
      printf(" %9.1f%%",
             (float)iter->loc->comments / (iter->loc->comments +
               iter->loc->code) * 100);
    else
      printf("       0.0%%");
    printf(" %10d", iter->loc->blanks);
''','''    print_percent(iter->loc->comments, iter->loc->code, "       0.0%");
    printf(" %10d", iter->loc->blanks);
''')
# 1: the two counting loops become one helper
rf(B,O,'''void individual(SourceFileList *list) {
  int count = 0;
  SourceFileList *titer = list->head;
  while (titer) {
    count++;
    titer = titer->next;
  }
''','''static int count_files(SourceFileList *list) {
  int n = 0;
  for (SourceFileList *it = list->head; it != NULL; it = it->next) n += 1;
  return n;
}

void individual(SourceFileList *list) {
  int count = count_files(list);
''','''  int count = 0;
  SourceFileList *tmpiter = list->head;
  while (tmpiter) {
    count++;
    tmpiter = tmpiter->next;
  }
  printf("Examining %i file(s)\\n", count);
''','''  printf("Examining %i file(s)\\n", count_files(list));
''')
# 2: main's argument handling extracted
rf(B,O,'''int main(int argc, char *argv[]) {
  int command = 0;
  if (argc > 1) {
    struct OhcountOption *opt = ohcount_hash_command_from_flag(argv[1],
                                                               strlen(argv[1]));
    if (opt)
      command = opt->value;
  }
  int i = 1;
  if (command == 0)
    command = COMMAND_SUMMARY;
  else
    i = 2; // parameter is not a file or directory
''','''static int command_of(const char *flag) {
  struct OhcountOption *opt = ohcount_hash_command_from_flag(flag,
                                                             strlen(flag));
  return opt != NULL ? opt->value : 0;
}

static void add_path(SourceFileList *list, const char *path) {
  DIR *dir = opendir(path);
  if (dir) {
    closedir(dir);
    ohcount_sourcefile_list_add_directory(list, path);
    return;
  }
  FILE *f = fopen(path, "rb");
  if (!f) {
    printf("Bad argument: %s\\n", path);
    return;
  }
  fclose(f);
  ohcount_sourcefile_list_add_file(list, path);
}

int main(int argc, char *argv[]) {
  int command = argc > 1 ? command_of(argv[1]) : 0;
  int i = command == 0 ? 1 : 2;
  if (command == 0) command = COMMAND_SUMMARY;
''','''  for (; i < argc; i++) {
    DIR *dir = opendir(argv[i]);
    if (dir) {
      ohcount_sourcefile_list_add_directory(list, argv[i]);
      closedir(dir);
    } else {
      FILE *f = fopen(argv[i], "rb");
      if (f) {
        ohcount_sourcefile_list_add_file(list, argv[i]);
        fclose(f);
      } else printf("Bad argument: %s\\n", argv[i]);
    }
  }
''','''  while (i < argc) add_path(list, argv[i++]);
''')
# 3: the switch becomes an if chain in a helper
rf(B,O,'''  switch (command) {
  case COMMAND_ANNOTATE:
    annotate(list);
    break;
  case COMMAND_DETECT:
    detect(list);
    break;
  case COMMAND_HELP:
    help();
    break;
  case COMMAND_INDIVIDUAL:
    individual(list);
    break;
  case COMMAND_LICENSES:
    licenses(list);
    break;
  case COMMAND_RAWENTITIES:
    raw_entities(list);
    break;
  case COMMAND_SUMMARY:
    summary(list);
    break;
  }
''','''  run(command, list);
''','''int main(int argc, char *argv[]) {
''','''static void run(int command, SourceFileList *list) {
  if (command == COMMAND_ANNOTATE) annotate(list);
  else if (command == COMMAND_DETECT) detect(list);
  else if (command == COMMAND_HELP) help();
  else if (command == COMMAND_INDIVIDUAL) individual(list);
  else if (command == COMMAND_LICENSES) licenses(list);
  else if (command == COMMAND_RAWENTITIES) raw_entities(list);
  else if (command == COMMAND_SUMMARY) summary(list);
}

int main(int argc, char *argv[]) {
''')
# 4: annotate without a copy
rf(B,O,'''  SourceFile *sf = (SourceFile *)userdata;
  int length = end - start;
  char buf[length + 1];
  strncpy(buf, (const char*)sf->contents + start, length); // field exists
  buf[length] = '\\0';
  printf("%s\\t%s\\t%s", language, entity, buf);
''','''  const SourceFile *sf = userdata;
  const char *line = sf->contents + start;
  printf("%s\\t%s\\t%.*s", language, entity, end - start, line);
''')
# 5: the licence printer as for loops, with a local
rf(B,O,'''  SourceFileList *iter = list->head;
  while (iter) {
    LicenseList *liter = ohcount_sourcefile_get_license_list(iter->sf)->head;
    while (liter) {
      printf("%s%s ", liter->lic->name, (liter->next != NULL) ? "," : "");
      printf("%s\\n", iter->sf->filename);
      liter = liter->next;
    }
    iter = iter->next;
  }
''','''  for (SourceFileList *iter = list->head; iter; iter = iter->next) {
    SourceFile *sf = iter->sf;
    LicenseList *all = ohcount_sourcefile_get_license_list(sf);
    for (LicenseList *l = all->head; l; l = l->next) {
      const char *sep = l->next ? "," : "";
      printf("%s%s %s\\n", l->lic->name, sep, sf->filename);
    }
  }
''')
# 6: the sort functions share a swap
rf(B,O,'''void sort_loc_list_by_language(LocList *list) {
''','''static void swap_locs(LocList *a, LocList *b) {
  if (a == b) return;
  Loc *held = a->loc;
  a->loc = b->loc;
  b->loc = held;
}

void sort_loc_list_by_language(LocList *list) {
''','''    if (iter != min) {
      Loc *temp = iter->loc;
      iter->loc = min->loc;
      min->loc = temp;
    }
''','''    swap_locs(iter, min);
''','''    if (iter != max) {
      Loc *temp = iter->loc;
      iter->loc = max->loc;
      max->loc = temp;
    }
''','''    swap_locs(max, iter);
''')
# 7: the sums via one field reader
rf(B,K,'''int ohcount_loc_list_code(LocList *list) {
  int sum = 0;
  LocList *iter = list->head;
  while (iter) {
    sum += iter->loc->code;
    iter = iter->next;
  }
  return sum;
}

int ohcount_loc_list_comments(LocList *list) {
  int sum = 0;
  LocList *iter = list->head;
  while (iter) {
    sum += iter->loc->comments;
    iter = iter->next;
  }
  return sum;
}
''','''static int loc_field_code(const Loc *loc) { return loc->code; }
static int loc_field_comments(const Loc *loc) { return loc->comments; }

static int sum_locs(LocList *list, int (*field)(const Loc *)) {
  int total = 0;
  for (LocList *iter = list->head; iter; iter = iter->next)
    total += field(iter->loc);
  return total;
}

int ohcount_loc_list_code(LocList *list) {
  return sum_locs(list, loc_field_code);
}

int ohcount_loc_list_comments(LocList *list) {
  return sum_locs(list, loc_field_comments);
}
''')
# 8: list add uses get_loc
rf(B,K,'''    LocList *iter = list->head;
    while (iter) {
      if (iter->loc && strcmp(iter->loc->language, loc->language) == 0) break;
      iter = iter->next;
    }
    if (iter == NULL) { // new language
      LocList *item = ohcount_loc_list_new();
      item->loc = ohcount_loc_new(loc->language, loc->code, loc->comments,
                                  loc->blanks, loc->filecount);
      list->tail->next = item;
      list->tail = item;
    } else ohcount_loc_add_loc(iter->loc, loc); // existing language
''','''    Loc *known = ohcount_loc_list_get_loc(list, loc->language);
    if (known != NULL) { // existing language
      ohcount_loc_add_loc(known, loc);
      return;
    }
    LocList *item = ohcount_loc_list_new();
    item->loc = loc_copy(loc);
    list->tail->next = item;
    list->tail = item;
''','''    list->head->loc = ohcount_loc_new(loc->language, loc->code, loc->comments,
                                      loc->blanks, loc->filecount);
    list->head->next = NULL;
''','''    list->loc = loc_copy(loc);
    list->next = NULL;
''','''// LocList

''','''static Loc *loc_copy(const Loc *loc) {
  Loc *copy = malloc(sizeof(Loc));
  *copy = *loc;
  return copy;
}

Loc *ohcount_loc_list_get_loc(LocList *list, const char *language);

''')
# 9: compact with continue; free with for
rf(B,K,'''    if (ohcount_loc_total(iter->loc) != 0)
      ohcount_loc_list_add_loc(new_list, iter->loc);
    iter = iter->next;
''','''    Loc *loc = iter->loc;
    iter = iter->next;
    if (!loc->code && !loc->comments && !loc->blanks) continue;
    ohcount_loc_list_add_loc(new_list, loc);
''','''  if (list->head) {
    LocList *iter = list->head;
    while (iter) {
      LocList *next = iter->next;
      ohcount_loc_free(iter->loc);
      free(iter);
      iter = next;
    }
  } else free(list);
''','''  if (!list->head) {
    free(list);
    return;
  }
  for (LocList *iter = list->head, *next; iter; iter = next) {
    next = iter->next;
    ohcount_loc_free(iter->loc);
    free(iter);
  }
''')
# 10: delta totals spelled out; is_changed by an or of differences
rf(B,K,'''  return ohcount_loc_delta_net_code(delta) +
         ohcount_loc_delta_net_comments(delta) +
         ohcount_loc_delta_net_blanks(delta);
''','''  int added = delta->code_added + delta->comments_added + delta->blanks_added;
  int removed = delta->code_removed + delta->comments_removed +
                delta->blanks_removed;
  return added - removed;
''','''  return delta->code_added != 0 || delta->code_removed != 0 ||
         delta->comments_added != 0 || delta->comments_removed != 0 ||
         delta->blanks_added != 0 || delta->blanks_removed != 0;
''','''  return (delta->code_added | delta->code_removed | delta->comments_added |
          delta->comments_removed | delta->blanks_added |
          delta->blanks_removed) != 0;
''','''    sum += ohcount_loc_delta_net_total(iter->delta);
''','''    LocDelta *d = iter->delta;
    sum += ohcount_loc_delta_net_code(d) + ohcount_loc_delta_net_comments(d);
    sum += ohcount_loc_delta_net_blanks(d);
''')
# 11: is_equal by early returns
rf(B,K,'''  return strcmp(loc->language, other->language) == 0 &&
         loc->code == other->code && loc->comments == other->comments &&
         loc->blanks == other->blanks && loc->filecount == other->filecount;
''','''  if (strcmp(loc->language, other->language) != 0) return 0;
  if (loc->code != other->code) return 0;
  if (loc->comments != other->comments) return 0;
  if (loc->blanks != other->blanks) return 0;
  return loc->filecount == other->filecount;
''','''  return strcmp(delta->language, other->language) == 0 &&
         delta->code_added == other->code_added &&
         delta->code_removed == other->code_removed &&
         delta->comments_added == other->comments_added &&
         delta->comments_removed == other->comments_removed &&
         delta->blanks_added == other->blanks_added &&
         delta->blanks_removed == other->blanks_removed;
''','''  if (strcmp(delta->language, other->language)) return 0;
  int same = delta->code_added == other->code_added;
  same = same && delta->code_removed == other->code_removed;
  same = same && delta->comments_added == other->comments_added;
  same = same && delta->comments_removed == other->comments_removed;
  same = same && delta->blanks_added == other->blanks_added;
  same = same && delta->blanks_removed == other->blanks_removed;
  return same;
''')
# 12: net_code of the list as added minus removed
rf(B,K,'''int ohcount_loc_delta_list_net_code(LocDeltaList *list) {
  int sum = 0;
  LocDeltaList *iter = list->head;
  while (iter) {
    sum += ohcount_loc_delta_net_code(iter->delta);
    iter = iter->next;
  }
  return sum;
}
''','''int ohcount_loc_delta_list_net_code(LocDeltaList *list) {
  return ohcount_loc_delta_list_code_added(list) -
         ohcount_loc_delta_list_code_removed(list);
}
''')
# 13: the loc constructor by compound literal; delta by calloc-free memset
rf(B,K,'''  Loc *loc = malloc(sizeof(Loc));
  loc->language = language;
  loc->code = code;
  loc->comments = comments;
  loc->blanks = blanks;
  loc->filecount = filecount;
  return loc;
''','''  Loc *loc = malloc(sizeof *loc);
  *loc = (Loc){ .language = language, .code = code, .comments = comments,
                .blanks = blanks, .filecount = filecount };
  return loc;
''','''  LocList *list = malloc(sizeof(LocList));
  list->loc = NULL;
  list->next = NULL;
  list->head = NULL;
  list->tail = NULL;
  return list;
''','''  return calloc(1, sizeof(LocList));
''')
# 14: the early empty-list branch goes through a common append
rf(B,K,'''  if (list->head == NULL) { // empty list
    list->head = list;
    list->tail = list;
    list->head->delta = ohcount_loc_delta_new(delta->language,
                                              delta->code_added,
                                              delta->code_removed,
                                              delta->comments_added,
                                              delta->comments_removed,
                                              delta->blanks_added,
                                              delta->blanks_removed);
    list->head->next = NULL;
  } else {
    LocDeltaList *iter = list->head;
    while (iter) {
      if (iter->delta && strcmp(iter->delta->language, delta->language) == 0) break;
      iter = iter->next;
    }
    if (iter == NULL) { // new language
      LocDeltaList *item = ohcount_loc_delta_list_new();
      item->delta = ohcount_loc_delta_new(delta->language,
                                          delta->code_added,
                                          delta->code_removed,
                                          delta->comments_added,
                                          delta->comments_removed,
                                          delta->blanks_added,
                                          delta->blanks_removed);
      list->tail->next = item;
      list->tail = item;
    } else ohcount_loc_delta_add_loc_delta(iter->delta, delta); // existing
  }
''','''  LocDeltaList *iter;
  for (iter = list->head; iter; iter = iter->next)
    if (iter->delta && strcmp(iter->delta->language, delta->language) == 0) {
      ohcount_loc_delta_add_loc_delta(iter->delta, delta); // existing
      return;
    }
  LocDeltaList *item = list;
  if (list->head == NULL) {
    list->head = list;
    list->next = NULL;
  } else {
    item = ohcount_loc_delta_list_new();
    list->tail->next = item;
  }
  list->tail = item;
  item->delta = ohcount_loc_delta_new(delta->language,
                                      delta->code_added,
                                      delta->code_removed,
                                      delta->comments_added,
                                      delta->comments_removed,
                                      delta->blanks_added,
                                      delta->blanks_removed);
''')

O='src/ohcount.c'
bug('C21',O,'printf(" %10d", iter->loc->blanks);','printf(" %10d", iter->loc->comments);')
bug('C21',O,'''    printf(" %10d\\n",
           iter->loc->code + iter->loc->comments + iter->loc->blanks);''','''    printf(" %10d\\n",
           iter->loc->code + iter->loc->comments + iter->loc->filecount);''')
bug('C21',O,'(float)liter->loc->comments / (liter->loc->comments +\n                 liter->loc->code) * 100','(float)liter->loc->comments / (liter->loc->comments +\n                 liter->loc->code + liter->loc->blanks) * 100')
bug('C21',O,'int blanks = ohcount_loc_list_blanks(loc_list);','int blanks = ohcount_loc_list_blanks(loc_list->head->next ? loc_list->head->next : loc_list);')
bug('C21',O,'int comments = ohcount_loc_list_comments(loc_list);','int comments = ohcount_loc_list_comments(loc_list) - 0 + (loc_list->head == NULL);')
bug('C21',O,'    i = 2; // parameter','    i = argc > 2 ? 2 : 1; // parameter')
bug('C21',O,'''      max->loc = temp;''','''      max->loc = iter->loc;''')
bug('C21',O,'for (; i < argc; i++) {','for (; i < argc && i < 64; i++) {')
bug('C21',O,'''  case COMMAND_HELP:
    help();
    break;''','''  case COMMAND_HELP:
    help();''')
bug('C21',O,'''  if (i == argc)
    ohcount''','''  if (i == argc && command == COMMAND_SUMMARY)
    ohcount''')
bug('C21',O,'strncpy(buf, (const char*)sf->contents + start, length);','strncpy(buf, (const char*)sf->contents + start, length - 1);')
bug('C21',O,'''  while (titer) {
    count++;''','''  while (titer) {
    if (titer->sf->ext[0]) count++;''')
bug('C21',O,'''    if (language)
      printf''','''    if (language && *iter->sf->ext)
      printf''')
ref('C21',O,'''void individual(SourceFileList *list) {
  int count = 0;
  SourceFileList *titer = list->head;
  while (titer) {
    count++;
    titer = titer->next;
  }''','''static int count_files(SourceFileList *list) {
  int n = 0;
  SourceFileList *it;
  for (it = list->head; it; it = it->next) n++;
  return n;
}
void individual(SourceFileList *list) {
  int count = count_files(list);''')
ref('C21',O,'''void summary(SourceFileList *list) {''','''static void print_row(const char *name, int files, int code, int comments, int blanks) {
  printf("%-16s %6d %10d %10d", name, files, code, comments);
  if (comments + code > 0)
    printf(" %9.1f%%", (float)comments / (comments + code) * 100);
  else
    printf("       0.0%%");
  printf(" %10d %10d\\n", blanks, code + comments + blanks);
}
void summary(SourceFileList *list) {''',O,'''    printf("%-16s", iter->loc->language);
    printf(" %6d", iter->loc->filecount);
    printf(" %10d", iter->loc->code);
    printf(" %10d", iter->loc->comments);
    if (iter->loc->comments + iter->loc->code > 0)
      printf(" %9.1f%%",
             (float)iter->loc->comments / (iter->loc->comments +
               iter->loc->code) * 100);
    else
      printf("       0.0%%");
    printf(" %10d", iter->loc->blanks);
    printf(" %10d\\n",
           iter->loc->code + iter->loc->comments + iter->loc->blanks);''','''    print_row(iter->loc->language, iter->loc->filecount, iter->loc->code, iter->loc->comments, iter->loc->blanks);''',O,'''  printf("%-16s", "Total");
  printf(" %6d", ohcount_loc_list_filecount(loc_list));
  printf(" %10d", code);
  printf(" %10d", comments);
  if (comments + code > 0)
    printf(" %9.1f%%", (float)comments / (comments + code) * 100);
  else
    printf("       0.0%%");
  printf(" %10d", blanks);
  printf(" %10d\\n", code + comments + blanks);''','''  print_row("Total", ohcount_loc_list_filecount(loc_list), code, comments, blanks);''')
ref('C21',O,'''  int i = 1;
  if (command == 0)
    command = COMMAND_SUMMARY;
  else
    i = 2; // parameter is not a file or directory
''','''  int i = command ? 2 : 1;
  if (!command) command = COMMAND_SUMMARY;
''')
ref('C21',O,'''  switch (command) {
  case COMMAND_ANNOTATE:
    annotate(list);
    break;
  case COMMAND_DETECT:
    detect(list);
    break;
''','''  if (command == COMMAND_ANNOTATE) annotate(list);
  else if (command == COMMAND_DETECT) detect(list);
  else switch (command) {
''')
ref('C21',O,'''void sort_loc_list_by_code(LocList *list) {
  LocList *iter = list->head;
  while (iter) {''','''static void swap_loc(LocList *a, LocList *b) {
  Loc *t = b->loc;
  b->loc = a->loc;
  a->loc = t;
}
void sort_loc_list_by_code(LocList *list) {
  LocList *iter;
  for (iter = list->head; iter; iter = iter->next) {''',O,'''    if (iter != max) {
      Loc *temp = iter->loc;
      iter->loc = max->loc;
      max->loc = temp;
    }
    iter = iter->next;''','''    if (iter != max) swap_loc(iter, max);''')
ref('C21',O,'''    DIR *dir = opendir(argv[i]);
    if (dir) {
      ohcount_sourcefile_list_add_directory(list, argv[i]);
      closedir(dir);
    } else {
      FILE *f = fopen(argv[i], "rb");
      if (f) {
        ohcount_sourcefile_list_add_file(list, argv[i]);
        fclose(f);
      } else printf("Bad argument: %s\\n", argv[i]);
    }''','''    char *path = argv[i];
    DIR *dir = opendir(path);
    if (dir) {
      closedir(dir);
      ohcount_sourcefile_list_add_directory(list, path);
      continue;
    }
    FILE *f = fopen(path, "rb");
    if (!f) {
      printf("Bad argument: %s\\n", path);
      continue;
    }
    fclose(f);
    ohcount_sourcefile_list_add_file(list, path);''')

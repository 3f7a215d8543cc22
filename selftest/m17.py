S='src/sourcefile.c'
bug('C17',S,'''lstat(filepath, &st) != 0 || S_ISLNK(st.st_mode)''','''stat(filepath, &st) != 0 || S_ISLNK(st.st_mode)''')
bug('C17',S,'''      if (S_ISDIR(st.st_mode) && *file->d_name != '.') // no hidden dirs''','''      if (S_ISDIR(st.st_mode) && strcmp(file->d_name, ".") && strcmp(file->d_name, ".."))''')
bug('C17',S,'''      else if (S_ISREG(st.st_mode))''','''      else''')
bug('C17',S,'''      else if (S_ISREG(st.st_mode))''','''      else if (S_ISREG(st.st_mode) && *file->d_name != '.')''')
bug('C17',S,'''      if (length >= filepath + sizeof(filepath) - f_p) continue; // path too long''','''      if (length >= filepath + sizeof(filepath) - f_p) break; // path too long''')
bug('C17',S,'''      if (length >= filepath + sizeof(filepath) - f_p) continue; // path too long''','''      if (length >= 255) continue; // path too long''')
bug('C17',S,'''      *(f_p + length) = '\\0';''','''      if (length < 8) *(f_p + length) = '\\0';''')
bug('C17',S,'''      if (lstat(filepath, &st) != 0 || S_ISLNK(st.st_mode))
        continue;''','''      if (lstat(filepath, &st) != 0 || S_ISLNK(st.st_mode))
        break;''')
bug('C17',S,'''        ohcount_sourcefile_list_add_directory(list, filepath);
      else''','''        ohcount_sourcefile_list_add_directory(list, f_p);
      else''')
bug('C17',S,'''      if (S_ISDIR(st.st_mode) && *file->d_name != '.') // no hidden dirs''','''      if (S_ISDIR(st.st_mode) && *file->d_name != '.' && st.st_nlink > 1)''')
bug('C17',S,'''      strncpy(f_p, (const char *)file->d_name, length);
      *(f_p + length) = '\\0';
''','''      strncpy(f_p, (const char *)file->d_name, length);
      *(f_p + length) = '\\0';
      if (list->tail && !strcmp(list->tail->sf->filepath, filepath)) continue;
''')
bug('C17',S,'''  if (strlen(directory) + 1 >= sizeof(filepath)) return; // path too long
  strncpy(filepath, directory, strlen(directory));
  *(filepath + strlen(directory)) = '/';
  char *f_p = filepath + strlen(directory) + 1;
''','''  if (strlen(directory) + 1 >= sizeof(filepath)) return; // path too long
  strncpy(filepath, directory, strlen(directory));
  char *f_p = filepath + strlen(directory);
  if (f_p == filepath || f_p[-1] != '.')
    *f_p++ = '/';
''')
ref('C17',S,'''      int length = strlen(file->d_name);
      if (length >= filepath + sizeof(filepath) - f_p) continue; // path too long
      strncpy(f_p, (const char *)file->d_name, length);
      *(f_p + length) = '\\0';
''','''      if (strlen(directory) + strlen(file->d_name) + 2 > sizeof(filepath)) continue;
      snprintf(filepath, sizeof(filepath), "%s/%s", directory, file->d_name);
''')
ref('C17',S,'''      if (S_ISDIR(st.st_mode) && *file->d_name != '.') // no hidden dirs
        ohcount_sourcefile_list_add_directory(list, filepath);
      else if (S_ISREG(st.st_mode))
        ohcount_sourcefile_list_add_file(list, filepath);''','''      switch (st.st_mode & S_IFMT) {
      case S_IFREG:
        ohcount_sourcefile_list_add_file(list, filepath);
        break;
      case S_IFDIR:
        if (file->d_name[0] == '.') // no hidden dirs
          break;
        ohcount_sourcefile_list_add_directory(list, filepath);
        break;
      }''')
ref('C17',S,'''  d = opendir(directory);
  if (d) {
    while ((file = readdir(d))) {''','''  d = opendir(directory);
  if (!d) return;
  {
    for (;;) {
      file = readdir(d);
      if (file == NULL) break;''')
ref('C17',S,'''void ohcount_sourcefile_list_add_directory(SourceFileList *list,
                                           const char *directory) {''','''static void add_entry(SourceFileList *list, const char *path, const char *name) {
  struct stat st;
  if (lstat(path, &st) != 0)
    return;
  if (S_ISREG(st.st_mode))
    ohcount_sourcefile_list_add_file(list, path);
  else if (S_ISDIR(st.st_mode) && name[0] != '.')
    ohcount_sourcefile_list_add_directory(list, path);
}

void ohcount_sourcefile_list_add_directory(SourceFileList *list,
                                           const char *directory) {''',S,'''      if (lstat(filepath, &st) != 0 || S_ISLNK(st.st_mode))
        continue;

      if (S_ISDIR(st.st_mode) && *file->d_name != '.') // no hidden dirs
        ohcount_sourcefile_list_add_directory(list, filepath);
      else if (S_ISREG(st.st_mode))
        ohcount_sourcefile_list_add_file(list, filepath);''','''      add_entry(list, filepath, file->d_name);''')
ref('C17',S,'''  if (strlen(directory) + 1 >= sizeof(filepath)) return; // path too long
  strncpy(filepath, directory, strlen(directory));
  *(filepath + strlen(directory)) = '/';
  char *f_p = filepath + strlen(directory) + 1;
''','''  size_t dir_length = strlen(directory);
  if (dir_length + 1 >= sizeof(filepath)) return; // path too long
  memcpy(filepath, directory, dir_length);
  filepath[dir_length++] = '/';
  char *f_p = filepath + dir_length;
''')

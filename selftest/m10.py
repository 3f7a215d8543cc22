S='src/sourcefile.c'
bug('C10',S,'''  sourcefile->contents = malloc(size + 1);
  strncpy(sourcefile->contents, contents, size);''','''  sourcefile->contents = malloc(size);
  strncpy(sourcefile->contents, contents, size);''')
bug('C10',S,'''  sourcefile->contents[size] = '\\0';
  sourcefile->size = size;
  sourcefile->contents_set''','''  sourcefile->contents[size] = '\\0';
  if (sourcefile->size < size)
    sourcefile->size = size;
  sourcefile->contents_set''')
bug('C10',S,'''  sourcefile->diskpath[size] = '\\0';
''','''  if (size)
    sourcefile->diskpath[size - 1] = '\\0';
''')
bug('C10',S,'''        sourcefile->size = size;
        sourcefile->contents[size] = '\\0';
      }''','''        sourcefile->size = size;
        if (sourcefile->contents[size - 1] != '\\n')
          sourcefile->contents[size] = '\\0';
      }''')
bug('C10',S,'''    if (sourcefile->diskpath)
      path = sourcefile->diskpath;
    FILE''','''    if (sourcefile->diskpath && sourcefile->size < 0)
      path = sourcefile->diskpath;
    FILE''')
bug('C10',S,'''        sourcefile->contents = NULL;
        sourcefile->size = 0;
      } else {''','''        sourcefile->contents = NULL;
      } else {''')
bug('C10',S,'''      rewind(f);
''','''      fseek(f, 0, SEEK_CUR);
''')
bug('C10',S,'''      fseek(f, 0, SEEK_END);
      long size = ftell(f);''','''      fseek(f, -1, SEEK_END);
      long size = ftell(f);''')
bug('C10',S,'''fread(sourcefile->contents, size, 1, f) != 1''','''fread(sourcefile->contents, 1, size, f) == 0''')
bug('C10',S,'''  while (p > sourcefile->filepath && *(p - 1) != '.' &&
         *(p - 1) != '/' && *(p - 1) != '\\\\') p--;''','''  while (p > sourcefile->filepath && *(p - 1) != '.') p--;''')
bug('C10',S,'''  while (p > sourcefile->filepath &&
         *(p - 1) != '/' && *(p - 1) != '\\\\') p--;''','''  while (p > sourcefile->filepath && *(p - 1) != '/') p--;''')
ref('C10',S,'''  while (p > sourcefile->filepath && *(p - 1) != '.' &&
         *(p - 1) != '/\'''','''  while (p > sourcefile->filepath + 1 && *(p - 1) != '.' &&
         *(p - 1) != '/\'''')
bug('C10',S,'''(p > sourcefile->filepath && *(p - 1) == '.') ? p''','''(p > sourcefile->filepath) ? p''')
bug('C10',S,'''  if (sourcefile->dirpath < 0) sourcefile->dirpath = 0;''','''  if (sourcefile->dirpath < 0) sourcefile->dirpath = 1;''')
bug('C10',S,'''  if (sourcefile->size < 0)
    ohcount''','''  if (sourcefile->size < 0 && sourcefile->diskpath)
    ohcount''')
bug('C10',S,'''  while (p > sourcefile->filepath && *(p - 1) != '.' &&''','''  if (p > sourcefile->filepath && *(p - 1) == '~') p--;
  while (p > sourcefile->filepath && *(p - 1) != '.' &&''')
ref('C10',S,'''  int size = strlen(contents);
  sourcefile->contents = malloc(size + 1);
  strncpy(sourcefile->contents, contents, size);
  sourcefile->contents[size] = '\\0';
  sourcefile->size = size;''','''  sourcefile->contents = strdup(contents);
  sourcefile->size = strlen(contents);''')
ref('C10',S,'''  int size = strlen(contents);
  sourcefile->contents = malloc(size + 1);
  strncpy(sourcefile->contents, contents, size);
  sourcefile->contents[size] = '\\0';
  sourcefile->size = size;''','''  size_t length = strlen(contents);
  char *copy = malloc(length + 1);
  memcpy(copy, contents, length + 1);
  sourcefile->size = length;
  sourcefile->contents = copy;''')
ref('C10',S,'''void ohcount_sourcefile_set_diskpath(''','''static char *copy_text(const char *text, int length) {
  char *copy = malloc(length + 1);
  strncpy(copy, text, length);
  *(copy + length) = '\\0';
  return copy;
}

void ohcount_sourcefile_set_diskpath(''',S,'''  int size = strlen(diskpath);
  sourcefile->diskpath = malloc(size + 1);
  strncpy(sourcefile->diskpath, diskpath, size);
  sourcefile->diskpath[size] = '\\0';''','''  sourcefile->diskpath = copy_text(diskpath, strlen(diskpath));''',S,'''  int size = strlen(contents);
  sourcefile->contents = malloc(size + 1);
  strncpy(sourcefile->contents, contents, size);
  sourcefile->contents[size] = '\\0';
  sourcefile->size = size;''','''  sourcefile->size = strlen(contents);
  sourcefile->contents = copy_text(contents, sourcefile->size);''')
ref('C10',S,'''  if (sourcefile->contents == NULL) {
    char *path = sourcefile->filepath;
    if (sourcefile->diskpath)
      path = sourcefile->diskpath;
    FILE *f = fopen(path, "rb");
    if (f) {''','''  if (sourcefile->contents != NULL)
    return sourcefile->contents;
  {
    FILE *f = fopen(sourcefile->diskpath ? sourcefile->diskpath : sourcefile->filepath, "rb");
    if (f != NULL) {''',S,'''fread(sourcefile->contents, size, 1, f) != 1''','''fread(sourcefile->contents, 1, size, f) != size || size == 0''')
ref('C10',S,'''  char *p = sourcefile->filepath + length;
  *p = '\\0';

  while (p > sourcefile->filepath && *(p - 1) != '.' &&
         *(p - 1) != '/' && *(p - 1) != '\\\\') p--;
  sourcefile->ext = (p > sourcefile->filepath && *(p - 1) == '.') ? p : sourcefile->filepath + length;

  while (p > sourcefile->filepath &&
         *(p - 1) != '/' && *(p - 1) != '\\\\') p--;''','''  char *p = sourcefile->filepath + length;
  *p = '\\0';
  sourcefile->ext = p;

  for (; p > sourcefile->filepath; p--) {
    char c = p[-1];
    if (c == '/' || c == '\\\\' || c == '.')
      break;
  }
  if (p != sourcefile->filepath && p[-1] == '.')
    sourcefile->ext = p;

  for (;;) {
    if (p == sourcefile->filepath) break;
    if (p[-1] == '/' || p[-1] == '\\\\') break;
    --p;
  }''')
ref('C10',S,'''  if (sourcefile->size < 0)
    ohcount_sourcefile_get_contents(sourcefile);
  return sourcefile->size;''','''  if (sourcefile->size >= 0)
    return sourcefile->size;
  (void)ohcount_sourcefile_get_contents(sourcefile);
  return sourcefile->size;''')

D='src/detector.c'; F='src/diff.c'; S='src/sourcefile.c'; O='src/ohcount.c'; G='src/log.c'
# -- bugs
bug('C12',D,'''    if (!p) {
      magic_close(cookie);
      return NULL;''','''    if (!p) {
      return NULL;''')
bug('C12',D,'''  magic_close(cookie);

  return magic_parse(line);''','''  return magic_parse(line);''')
bug('C12',D,'''    line[sizeof(line)-1] = '\\0';
  } else {''','''    line[sizeof(line)-1] = '\\0';
    if (strstr(line, "script")) return magic_parse(line);
  } else {''')
bug('C12',D,'''	if (found > -1)
		return LANG_PUPPET;

	return LANG_PASCAL;''','''	if (found > -1)
		return LANG_PUPPET;
	pcre_free(construct);
	return LANG_PASCAL;''')
bug('C12',F,'''	close(fd);
	return path;''','''	return path;''')
bug('C12',F,'''		pclose(f);
	}''','''		fclose(f);
	}''')
bug('C12',F,'''		pclose(f);
	}''','''		if (!ferror(f)) pclose(f);
	}''')
bug('C12',F,'''	if (f) {
		char line[10000];''','''	if (f || *from) {
		char line[10000];''')
bug('C12',F,'''	if (unlink(to_tmp)) {
		printf("error unlinking %s: %d", to_tmp, errno);
	}''','''	if (unlink(from_tmp)) {
		printf("error unlinking %s: %d", to_tmp, errno);
	}''')
bug('C12',F,'''	free(from_tmp);
	free(to_tmp);''','''	if (*added == 0 && *removed == 0) return;
	free(from_tmp);
	free(to_tmp);''','src/diff.c','''	if (unlink(to_tmp)) {''','''	if (f && unlink(to_tmp)) {''')
bug('C12',S,'''      fclose(f);
    } else {''','''    } else {''')
bug('C12',S,'''      if (size < 0 || size >= INT_MAX) size = 0;''','''      if (size < 0 || size >= INT_MAX) {
        sourcefile->size = 0;
        return NULL;
      }''')
bug('C12',S,'''    closedir(d);
  }''','''  }''')
bug('C12',S,'''      if (length >= filepath + sizeof(filepath) - f_p) continue; // path too long''','''      if (length >= filepath + sizeof(filepath) - f_p) return; // path too long''')
bug('C12',O,'''      closedir(dir);
    } else {''','''    } else {''')
bug('C12',O,'''        fclose(f);
      } else printf''','''      } else printf''')
bug('C12',G,'''	fputs(log, f);
	fclose(f);''','''	if (fputs(log, f) == EOF) return;
	fclose(f);''')
bug('C12',G,'''	if (!f) return;
''','''''')
bug('C12',S,'''      rewind(f);''','''      if (size == 0) fclose(f);
      rewind(f);''')
bug('C12',F,'''	char *to_tmp = tmp_file_from_buf(to);
''','''	char *to_tmp = tmp_file_from_buf(to);
	if (!strcmp(from, to)) { free(from_tmp); free(to_tmp); return; }
''')
bug('C12',F,'''	char command[1000];''','''	unlink(from_tmp);
	char command[1000];''')
# -- refactorings
ref('C12',D,'''  magic_t cookie = magic_open(MAGIC_NONE);''','''  char line2[80];
  line2[0] = 0;
  magic_t cookie = magic_open(MAGIC_NONE);''')
ref('C12',S,'''    FILE *f = fopen(path, "rb");
    if (f) {''','''    FILE *f;
    if ((f = fopen(path, "rb")) != NULL) {''')
ref('C12',S,'''  if (d) {
    while ((file = readdir(d))) {''','''  if (!d)
    return;
  {
    for (file = readdir(d); file != NULL; file = readdir(d)) {''')
ref('C12',F,'''#define USE_DISK''','''static void drop_tmp(char *p) {
	if (unlink(p)) {
		printf("error unlinking %s: %d", p, errno);
	}
	free(p);
}
#define USE_DISK''')
ref('C12',F,'''	if (unlink(from_tmp)) {
		printf("error unlinking %s: %d", from_tmp, errno);
	}
	if (unlink(to_tmp)) {
		printf("error unlinking %s: %d", to_tmp, errno);
	}
	free(from_tmp);
	free(to_tmp);''','''	drop_tmp(from_tmp);
	drop_tmp(to_tmp);''',F,'''void ohcount_calc_diff_with_disk(''','''static void drop_tmp(char *p) {
	if (unlink(p) != 0) {
		printf("error unlinking %s: %d", p, errno);
	}
	free(p);
}

void ohcount_calc_diff_with_disk(''')
ref('C12',F,'''	close(fd);
	return path;''','''	(void)close(fd);
	char *r = path;
	return r;''')
ref('C12',D,'''    if (!p) {
      magic_close(cookie);
      return NULL;
    }''','''    if (!p)
      goto none;''',D,'''  magic_close(cookie);

  return magic_parse(line);''','''  magic_close(cookie);

  return magic_parse(line);
none:
  magic_close(cookie);
  return NULL;''')
ref('C12',O,'''    DIR *dir = opendir(argv[i]);
    if (dir) {
      ohcount_sourcefile_list_add_directory(list, argv[i]);
      closedir(dir);''','''    DIR *dir = opendir(argv[i]);
    if (dir != NULL) {
      closedir(dir);
      ohcount_sourcefile_list_add_directory(list, argv[i]);''')
ref('C12',S,'''      if (fread(sourcefile->contents, size, 1, f) != 1) {
        free(sourcefile->contents);
        sourcefile->contents = NULL;
        sourcefile->size = 0;
      } else {
        sourcefile->size = size;
        sourcefile->contents[size] = '\\0';
      }
      fclose(f);''','''      int ok = fread(sourcefile->contents, size, 1, f) == 1;
      fclose(f);
      if (!ok) {
        free(sourcefile->contents);
        sourcefile->contents = NULL;
        sourcefile->size = 0;
      } else {
        sourcefile->size = size;
        sourcefile->contents[size] = '\\0';
      }''')

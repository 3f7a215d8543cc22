S='src/sourcefile.c'; D='src/detector.c'
B='''    const char *language = ohcount_detect_language(sourcefile);
    // A file recognized as binary ("\\1") has no language.
    if (language && language[0] == '\\1') language = NULL;
    sourcefile->language = language;
    sourcefile->language_detected = 1;'''
bug('C08',S,B,'''    sourcefile->language = ohcount_detect_language(sourcefile);
    sourcefile->language_detected = 1;''')
bug('C08',S,B,'''    sourcefile->language = ohcount_detect_language(sourcefile);
    sourcefile->language_detected = 1;
    if (sourcefile->language && sourcefile->language[0] == '\\1' && sourcefile->size > 0) sourcefile->language = NULL;''')
bug('C08',S,B,'''    const char *language = ohcount_detect_language(sourcefile);
    sourcefile->language = language;
    sourcefile->language_detected = 1;
    if (language && language[0] == '\\2') sourcefile->language = NULL;''')
ref('C08 C22',S,B,'''    const char *language = ohcount_detect_language(sourcefile);
    sourcefile->language = language;
    sourcefile->language_detected = 1;
    if (language && !strcmp(language, BINARY)) sourcefile->language = NULL;''',S,'''// SourceFile
''','''#define BINARY "\\1"
''')
bug('C08',S,'''    sourcefile->language = rl->name;''','''    sourcefile->language = language;''')
bug('C08',S,'''  if (rl) {
    sourcefile->language = rl->name;''','''  if (rl && (sourcefile->language = language)) {
    if (sourcefile->size >= 0) sourcefile->language = rl->name;''')

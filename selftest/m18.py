S='src/licenses.c'
bug('C18',S,'''  LIC_GPL3, LIC_GPL3_OR_LATER);
        OVERRIDE''','''  LIC_GPL3, LIC_GPL3_OR_LATER);
        if (0) OVERRIDE''') if 0 else None
bug('C18',S,'''        OVERRIDE_LICENSE(LIC_GPL3, LIC_GPL3_OR_LATER);
''','')
bug('C18',S,'''        OVERRIDE_LICENSE(LIC_GPL, LIC_GPL3);''','''        OVERRIDE_LICENSE(LIC_GPL3, LIC_GPL);''')
bug('C18',S,'''        OVERRIDE_LICENSE(LIC_GPL, LIC_GPL3);''','''        OVERRIDE_LICENSE(LIC_GPL, LIC_GPL3); OVERRIDE_LICENSE(LIC_LGPL3, LIC_GPL3);''')
bug('C18',S,'''    for (i = 0; i < license_map_length; i++) found[i] = 0;

    while (iter_language) {
''','''    while (iter_language) {
      for (i = 0; i < license_map_length; i++) found[i] = 0;
''')
bug('C18',S,'''potential_licenses_e[k] > m1)) {
              potential_licenses_s[j] = -1;
              potential_licenses_e[j] = -1;
            }''','''potential_licenses_e[k] > m1)) {
              potential_licenses_s[j] = -1;
              potential_licenses_e[j] = -1;
              break;
            }''')
bug('C18',S,'''(potential_licenses_s[k] <= m0 && potential_licenses_e[k] > m1)''','''(potential_licenses_s[k] <= m0 && potential_licenses_e[k] >= m1)''')
bug('C18',S,'''          int m0 = ovector[0], m1 = ovector[1];
          // Exclude terms that may not exist in the license.
''','''          // Exclude terms that may not exist in the license.
''') if 0 else None
bug('C18',S,'''buffer + m0, m1 - m0,''','''buffer, q - buffer,''')
bug('C18',S,'''buffer + m0, m1 - m0,''','''buffer + m0, q - buffer - m0,''')
bug('C18',S,'''        if (potential_licenses_s[j] > -1) found[j] = 1;''','''        if (potential_licenses_s[j] > 0) found[j] = 1;''')
bug('C18',S,'''        if (potential_licenses_s[j] > -1) found[j] = 1;''','''        found[j] = potential_licenses_s[j] > -1;''')
bug('C18',S,'''      iter_language = iter_language->next;
    }

    // Create''','''      iter_language = iter_language->next;
      if (iter_language && found[0]) break;
    }

    // Create''')
bug('C18',S,'''      if (flags & PCRE_MULTILINE)
        flags |= PCRE_DOTALL;
      l->exclude_regexp = pcre_compile(l->exclude_re, flags''','''      if (flags & PCRE_MULTILINE)
        flags |= PCRE_DOTALL;
      l->exclude_regexp = pcre_compile(l->exclude_re, l->re_flags''')
bug('C18',S,'''        while (*p == '\\r' || *p == '\\n') p++;
        // Add''','''        while (*p == '\\r' || *p == '\\n' || *p == 's') p++;
        // Add''')
bug('C18',S,'''      int buffer_len = p ? strlen(p) : 0;''','''      int buffer_len = p ? strnlen(p, 65536) : 0;''')
bug('C18',S,'''            list->tail->next = item;
            list->tail = item;''','''            list->head->next = item;
            list->tail = item;''')
bug('C18',S,'''          for (k = 0; k < j; k++) {''','''          for (k = 1; k < j; k++) {''')
bug('C18',S,'''          for (k = 0; k < j; k++) {''','''          for (k = 0; k < j - 1; k++) {''')
bug('C18',S,'''              potential_licenses_s[k] = -1;
              potential_licenses_e[k] = -1;
            }''','''              potential_licenses_e[k] = -1;
            }''')
bug('C18',S,'''buffer, q - buffer, 0, 0,''','''buffer, p - iter_language->pl->comments, 0, 0,''') if 0 else None
bug('C18',S,'''      if (found[i]) {''','''      if (found[i] && !(i && found[i-1] && list->head == NULL)) {''')
bug('C18',S,'''license_map[j].exclude_re &&
              pcre_exec(''','''license_map[j].exclude_re && !found[j] &&
              pcre_exec(''')
bug('C18',S,'''         0, 0, ovector, 30) >= 0)
            continue;''','''         0, 0, ovector, 30) >= 0)
            break;''') if 0 else None
ref('C18',S,'''          int m0 = ovector[0], m1 = ovector[1];''','''          const int m0 = ovector[0];
          const int m1 = ovector[1];''')
ref('C18',S,'''            if ((potential_licenses_s[k] < m0 && potential_licenses_e[k] >= m1) ||
                (potential_licenses_s[k] <= m0 && potential_licenses_e[k] > m1)) {''','''            if (potential_licenses_s[k] <= m0 && potential_licenses_e[k] >= m1 &&
                !(potential_licenses_s[k] == m0 && potential_licenses_e[k] == m1)) {''')
ref('C18',S,'''    for (i = 0; i < license_map_length; i++) found[i] = 0;
''','''    memset(found, 0, sizeof(found));
''')
ref('C18',S,'''        if (pcre_exec(license_map[j].regexp, NULL, buffer, q - buffer, 0, 0,
                      ovector, 30) >= 0) {''','''        License *l = &license_map[j];
        int matched = pcre_exec(l->regexp, NULL, buffer, q - buffer, 0, 0,
                                ovector, 30) >= 0;
        if (matched) {''')
ref('C18',S,'''        int overridden = 0;
''','''        int overridden = 0;
        License *lic = &license_map[i];
''')
ref('C18',S,'''LicenseList *ohcount_detect_license(SourceFile *sourcefile) {
''','''/** Is [a0, a1) completely inside of [b0, b1)? */
static int contained(int a0, int a1, int b0, int b1) {
  return (b0 < a0 && b1 >= a1) || (b0 <= a0 && b1 > a1);
}

LicenseList *ohcount_detect_license(SourceFile *sourcefile) {
''',S,'''            if ((potential_licenses_s[k] < m0 && potential_licenses_e[k] >= m1) ||
                (potential_licenses_s[k] <= m0 && potential_licenses_e[k] > m1)) {''','''            if (contained(m0, m1, potential_licenses_s[k], potential_licenses_e[k])) {''')
ref('C18',S,'''      iter_language = iter_language->next;
    }

    // Create''','''    }

    // Create''',S,'''    while (iter_language) {
      // Before''','''    for (; iter_language; iter_language = iter_language->next) {
      // Before''')
bug('C18',S,'''      char *p_max = p + buffer_len;''','''      if (buffer_len > 65536) buffer_len = 65536;
      char *p_max = p + buffer_len;''')
bug('C18',S,'''      char *q_max = buffer + buffer_len + 1;''','''      char *q_max = buffer + (buffer_len < 100000 ? buffer_len : 100000) + 1;''')
ref('C18',S,'''      for (j = 0; j < license_map_length; j++)
        if (potential_licenses_s[j] > -1) found[j] = 1;''','''      for (j = 0; license_map[j].name; j++) {
        if (potential_licenses_s[j] < 0)
          continue;
        found[j] = 1;
      }''')
ref('C18',S,'''        while (*p == '\\r' || *p == '\\n') p++;''','''        for (; *p == '\\r' || *p == '\\n'; p++)
          ;''')
ref('C18',S,'''  while (license_map[license_map_length].name) license_map_length++;
    compile_regexps();
  }
''','''  int n = 0;
    while (license_map[n].name != NULL) n++;
    license_map_length = n;
    compile_regexps();
  }
''')
ref('C18',S,'''      if (found[i]) {
        int overridden''','''      if (!found[i])
        continue;
      {
        int overridden''')
ref('C18',S,'''          if (list->head == NULL) { // empty list
            list->head = list;
            list->tail = list;
            list->head->lic = &license_map[i];
            list->next = NULL;
          } else {
            LicenseList *item = ohcount_license_list_new();
            item->lic = &license_map[i];
            list->tail->next = item;
            list->tail = item;
          }''','''          license_list_add(list, &license_map[i]);''',S,'''/**
 * Overrides a less''','''static void license_list_add(LicenseList *list, License *lic) {
  LicenseList *item;
  if (list->head == NULL) { // empty list
    item = list->head = list;
  } else {
    item = ohcount_license_list_new();
    list->tail->next = item;
  }
  item->lic = lic;
  item->next = NULL;
  list->tail = item;
}

/**
 * Overrides a less''')

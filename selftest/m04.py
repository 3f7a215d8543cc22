PM='src/parser_macros.h'
bug('C04',PM,'''  if (!callback_list_head) {
    callback_list_head = item;''','''  if (callback_list_tail && callback_list_tail->e == s &&
      *entity == 'l' && entity[1] == 'b' &&
      callback_list_tail->entity == entity && callback_list_tail->s < s) {
    callback_list_tail->e = e;
    free(item);
    return;
  }

  if (!callback_list_head) {
    callback_list_head = item;''')
bug('C04',PM,'''  item->s = s;
''','''  item->s = callback_list_tail && callback_list_tail->e > s ? callback_list_tail->e : s;
''')
bug('C04',PM,'''    callback_list_tail->next = item;
    callback_list_tail = item;''','''    item->next = callback_list_head;
    callback_list_head = item;''')
bug('C04',PM,'''    callback_list_tail->next = item;
    callback_list_tail = item;''','''    callback_list_head->next = item;
    callback_list_tail = item;''')
bug('C04',PM,'''  callback_list_head = NULL;
  callback_list_tail = NULL;
}''','''  callback_list_head = NULL;
}''')
bug('C04',PM,'''  if (!item) printf''','''  if (s == e) { free(item); return; }
  if (!item) printf''')
ref('C04 C05',PM,'''  if (!callback_list_head) {
    callback_list_head = item;
    callback_list_tail = item;
  } else {
    callback_list_tail->next = item;
    callback_list_tail = item;
  }''','''  if (callback_list_head != NULL)
    callback_list_tail->next = item;
  else
    callback_list_head = item;
  callback_list_tail = item;''')
ref('C04 C05 C13',PM,'''  Callback *item = callback_list_head;
  while (item) {
    Callback *next = item->next;
    free(item);
    item = next;
  }
  callback_list_head = NULL;''','''  Callback *item, *next;
  for (item = callback_list_head; item; item = next) {
    next = item->next;
    free(item);
  }
  callback_list_head = NULL;''')
ref('C04 C05 C13',PM,'''  if (!item) printf("Failed to allocate memory for enqueued callback.\\n");
''','''  if (item == NULL) {
    printf("Failed to allocate memory for enqueued callback.\\n");
    return;
  }
''')

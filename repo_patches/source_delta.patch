From 554c423dc8a71bac755d09acb31a3e2043852051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:45 +0000
Subject: [PATCH 01/73] fix: md5sum wrote 129 bytes, past the callers' 36-byte
 buffers

An MD5 in hex is 32 digits and a terminator. save_tmp_file's stack was
overwritten by every upload.
---
 string_utils.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/string_utils.c b/string_utils.c
index 1c220d7..ecff524 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -97,9 +97,6 @@ void md5sum(char *out, char *data, int len)
   EVP_MD_CTX *mdctx;
   const EVP_MD *md;
   unsigned char digest[EVP_MAX_MD_SIZE];
-  char *md5;
-  md5 = malloc(EVP_MAX_MD_SIZE * 2 + 1);
-  md5[0] = 0;
   
   mdctx = EVP_MD_CTX_new();
   md = EVP_md5();
@@ -122,12 +119,9 @@ void md5sum(char *out, char *data, int len)
   EVP_DigestFinal_ex(mdctx, digest, NULL);
   EVP_MD_CTX_free(mdctx);
   
+  // Each snprintf writes two digits and the terminator, so out needs 33 bytes.
   for (i = 0; i < EVP_MD_size(md); ++i)
-    snprintf(&(md5[i * 2]), EVP_MAX_MD_SIZE * 2 + 1, "%02x", (unsigned int)digest[i]);
-  
-  memcpy(out, md5, EVP_MAX_MD_SIZE * 2);
-  out[EVP_MAX_MD_SIZE * 2] = 0;
-  free(md5);
+    snprintf(&(out[i * 2]), 3, "%02x", (unsigned int)digest[i]);
 }
 
 /*
-- 
2.43.0


From 0c4e2a374832c18a2a39bb47448f8fdb45ad313b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:45 +0000
Subject: [PATCH 02/73] fix: chop_string cut strings at any non-ASCII byte

char is signed, so bytes above 127 compared lower than '"'.
---
 string_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string_utils.c b/string_utils.c
index ecff524..6636355 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -30,7 +30,7 @@ void chop_string(char *data)
   int len = strlen(data);
   for (int i = 0; i < len; i++)
   {
-    if (data[i] <= 34)
+    if ((unsigned char)data[i] <= 34)
     {
       data[i] = 0;
       break;
-- 
2.43.0


From 2fbe0a3650782ce9fcd69bb0abbfbcb8fc524c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:45 +0000
Subject: [PATCH 03/73] fix: split overflowed its list, left long pieces
 unterminated and was not thread safe

More than MAX_SPLIT_STR pieces were written past the array, a piece of
1023 bytes or more had no terminator, and strtok's static state is shared
by the worker threads.
---
 string_utils.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/string_utils.c b/string_utils.c
index 6636355..e531f56 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -167,19 +167,19 @@ str_list_t *split(char *str, char *delim)
   char *str_copy = strdup(str);
   int n_tokens = 0;
   str_list_t *result = malloc(sizeof(result) + (MAX_SPLIT_STR + 1) * MAX_SPLIT_STR_LEN);
-  char *token = strtok(str_copy, delim);
+  char *save = NULL;
+  char *token = strtok_r(str_copy, delim, &save);
 
-  while (token != NULL)
+  while (token != NULL && n_tokens < MAX_SPLIT_STR)
   {
-    result->strings[n_tokens] = malloc(MAX_SPLIT_STR_LEN);
+    result->strings[n_tokens] = calloc(MAX_SPLIT_STR_LEN, 1);
     strncpy(result->strings[n_tokens], token, MAX_SPLIT_STR_LEN - 1);
 
-    token = strtok(NULL, delim);
+    token = strtok_r(NULL, delim, &save);
     n_tokens++;
   }
 
   result->n_str = n_tokens;
-  free(token);
   free(str_copy);
   return result;
 }
-- 
2.43.0


From 9a51ac376e5389537917add3ba1e9a36daaa2129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:45 +0000
Subject: [PATCH 04/73] fix: split_once ignored its separator and left long
 pieces unterminated

It always split at ':' whatever delim said.
---
 string_utils.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/string_utils.c b/string_utils.c
index e531f56..a0a3194 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -188,15 +188,15 @@ str_list_t *split_once(char *str, char *delim)
 {
 
   str_list_t *result = malloc(sizeof(result) + (2 + 1) * MAX_SPLIT_STR_LEN);
-  result->strings[0] = malloc(MAX_SPLIT_STR_LEN);
-  char *first = rtrim(str, ':');
+  result->strings[0] = calloc(MAX_SPLIT_STR_LEN, 1);
+  char *first = rtrim(str, delim[0]);
   trim(first);
   strncpy(result->strings[0], first, MAX_SPLIT_STR_LEN - 1);
-  char *second = ltrim(str, ':');
+  char *second = ltrim(str, delim[0]);
   if (strlen(second) < strlen(str))
   {
     trim(second);
-    result->strings[1] = malloc(MAX_SPLIT_STR_LEN);
+    result->strings[1] = calloc(MAX_SPLIT_STR_LEN, 1);
     strncpy(result->strings[1], second, MAX_SPLIT_STR_LEN - 1);
     result->n_str = 2;
   }
-- 
2.43.0


From a3e0598a36195e1c97cbc0f51097406d8fc772f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:45 +0000
Subject: [PATCH 05/73] fix: find_in_file overflowed its buffer for files of
 8192 bytes or more

An allow or deny list of that size corrupted the heap at each connection.
---
 file_utils.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/file_utils.c b/file_utils.c
index 69393a7..4001d1b 100644
--- a/file_utils.c
+++ b/file_utils.c
@@ -32,8 +32,18 @@ bool find_in_file(char *path, char *needle)
 
   bool result = false;
 
-  char *haystack = calloc(8192, 1);
-  read_file(haystack, path, 0);
+  struct stat pstat;
+  if (stat(path, &pstat))
+  {
+    return false;
+  }
+
+  char *haystack = calloc(pstat.st_size + 1, 1);
+  if (haystack == NULL)
+  {
+    return false;
+  }
+  read_file(haystack, path, pstat.st_size + 1);
 
   if (strstr(haystack, needle))
     result = true;
-- 
2.43.0


From cb343c6d23e872c47ce1c7efe88f09be69257aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:45 +0000
Subject: [PATCH 06/73] fix: write_file read past the end of its data to log a
 length

The data is size bytes, not a terminated string; the argument was
evaluated even with debug logging off.
---
 file_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file_utils.c b/file_utils.c
index 4001d1b..2471d9d 100644
--- a/file_utils.c
+++ b/file_utils.c
@@ -116,7 +116,7 @@ void read_file(char *out, char *path, uint64_t maxlen)
 
 void write_file(char *filename, char *ptr, int size)
 {
-  log_debug("write_file(filename=%s, strlen(ptr)=%d, size=%d)", filename, strlen(ptr), size);
+  log_debug("write_file(filename=%s, size=%d)", filename, size);
   if (is_file(filename))
   {
     remove(filename);
-- 
2.43.0


From 3e96d542ead6316016ed4043c96d2930a0c7b1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:33 +0000
Subject: [PATCH 07/73] fix: a configuration line with more than 20 values
 wrote past the value array

multivalue[20] lies over n_multivalues. Also use strtok_r, since request
handlers parse in parallel.
---
 conf_parser.c | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index 6279474..a94b421 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -39,24 +39,16 @@ void conf_parse_multi(conf_item *item)
   // We store value string in a separate string because strtok modifies it.
   char *value = strdup(item->value);
   // tmp_value is a register that stores the current value obtained from the tokenizer.
-  char *tmp_value = strtok(value, MULTI_DELIM);
-  if (tmp_value && strcmp("", tmp_value))
+  char *save = NULL;
+  char *tmp_value = strtok_r(value, MULTI_DELIM, &save);
+  while (tmp_value != NULL && i < _CONF_MAX_MULTI_ELEMENTS)
   {
-    item->multivalue[0] = strdup(tmp_value);
-    trim(item->multivalue[0]);
-    while (tmp_value != NULL && i < _CONF_MAX_MULTI_ELEMENTS)
-    {
-      i++;
-      tmp_value = strtok(NULL, MULTI_DELIM);
-      if (tmp_value != NULL)
-      {
-        item->multivalue[i] = strdup(tmp_value);
-        trim(item->multivalue[i]);
-      }
-    }
+    item->multivalue[i] = strdup(tmp_value);
+    trim(item->multivalue[i]);
+    i++;
+    tmp_value = strtok_r(NULL, MULTI_DELIM, &save);
   }
   item->n_multivalues = i;
-  free(tmp_value);
   free(value);
 }
 
-- 
2.43.0


From 3b597ac86d8b2b5ebd91dbad25415fdfc377f681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:33 +0000
Subject: [PATCH 08/73] fix: configuration values were cut at a second '=', and
 a line '=' crashed

strtok merges delimiters: 'key=a=b' lost '=b', '=value' became a key, and
a line with nothing but '=' made it return NULL. conf_parse_line also
crashed on a multi-value line without '='.
---
 conf_parser.c | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index a94b421..e7bb28c 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -69,26 +69,20 @@ conf_item *conf_parse_first_pass(char *line)
   // make copy of line to prevent affecting the original line.
   char *line_copy = strdup(line);
   trim(line_copy);
-  // Get the key
-  char *key = strtok(line_copy, DELIM);
-  result->key = strdup(key);
-  trim(result->key);
-  // store the value
-  char *value = strtok(NULL, DELIM);
-  if (value == NULL)
+  // Get the key: the text before the first delimiter. The value is all that follows it.
+  char *value = strstr(line_copy, DELIM);
+  *value = 0;
+  value += strlen(DELIM);
+  trim(line_copy);
+  if (strcmp(line_copy, ""))
   {
-    value = "";
+    result->key = strdup(line_copy);
   }
-
+  // store the value
+  trim(value);
   if (strcmp(value, ""))
   {
-    trim(value);
     result->value = strdup(value);
-    trim(result->value);
-  }
-  else
-  {
-    result->value = "";
   }
 
   // initialise n_multivalues
@@ -101,7 +95,7 @@ conf_item *conf_parse_first_pass(char *line)
 conf_item *conf_parse_line(char *line, bool is_multi)
 {
   conf_item *result = conf_parse_first_pass(line);
-  if (is_multi)
+  if (result != NULL && is_multi)
   {
     conf_parse_multi(result);
   }
-- 
2.43.0


From 29d365d9403e24fb42be6d4c072f693f70c9692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:33 +0000
Subject: [PATCH 09/73] fix: configuration error messages overflowed for long
 paths

Also free the items when the file cannot be opened for writing.
---
 conf_parser.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index e7bb28c..fbca2e7 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -108,7 +108,7 @@ int parse(char *path, conf_handler handler, void *output, key_flags flags)
   if (file == NULL)
   {
     char errorString[120];
-    sprintf(errorString, "Unable to open path: %s", path);
+    snprintf(errorString, sizeof(errorString), "Unable to open path: %s", path);
     perror(errorString);
     return -1;
   }
@@ -119,7 +119,7 @@ int parse(char *path, conf_handler handler, void *output, key_flags flags)
     if (item == NULL)
     {
       char errorString[120];
-      sprintf(errorString, "Entity in invalid format, path: %s\n", path);
+      snprintf(errorString, sizeof(errorString), "Entity in invalid format, path: %s\n", path);
       perror(errorString);
       fclose(file);
       return -1;
@@ -240,8 +240,9 @@ int write_conf(void *input, conf_serializer serializer)
   if (file == NULL)
   {
     char errorString[120];
-    sprintf(errorString, "Unable to open file %s for writing", s->path);
+    snprintf(errorString, sizeof(errorString), "Unable to open file %s for writing", s->path);
     perror(errorString);
+    free_serializable(s);
     return -1;
   }
   for (int i = 0; i < s->n_items; i++)
-- 
2.43.0


From cacb6adf7f7689d5b1166035fb9d86ac5c5aa5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:33 +0000
Subject: [PATCH 10/73] fix: serializable_to_string overflowed its 1024 bytes
 and leaked the items' text

---
 conf_parser.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index fbca2e7..00f8060 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -272,12 +272,17 @@ serializable *new_serializable(char *path, conf_item *items[], int n_items)
 
 char *serializable_to_string(serializable *s)
 {
-  char *result = malloc(1024 * sizeof(char));
+  size_t size = strlen(s->path) + 64;
+  char *result = malloc(size);
   sprintf(result, "[path=%s,n_items=%d", s->path, s->n_items);
   for (int i = 0; i < s->n_items; i++)
   {
+    char *item = conf_item_to_string(s->items[i]);
+    size += strlen(item) + 1;
+    result = realloc(result, size);
     strcat(result, ",");
-    strcat(result, conf_item_to_string(s->items[i]));
+    strcat(result, item);
+    free(item);
   }
   strcat(result, "]");
   return result;
-- 
2.43.0


From 3d0edb40574ec324a7e5bd9f39d7427f94478487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:33 +0000
Subject: [PATCH 11/73] fix: JSON strings were not escaped, and NULL strings
 crashed

A quote, backslash or control character in an array element, a value or
an error message gave invalid JSON. json_key_value measured a NULL value
that it means to accept, and json_array_of_strings freed join's "".
---
 json_utils.c | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/json_utils.c b/json_utils.c
index ac3bed7..6949e11 100644
--- a/json_utils.c
+++ b/json_utils.c
@@ -30,6 +30,28 @@
 #define MAX_SINGLE_JSON_ENTITY_STR_LEN 512
 #define MAX_INT_STRING_LEN 32
 
+/**
+ * json_escape: Returns a dynamically allocated copy of str that can stand between the quotes of a JSON string.
+ */
+static char *json_escape(const char *str)
+{
+  // The longest escape sequence is \u00XX
+  char *out = malloc(strlen(str) * 6 + 1);
+  char *ptr = out;
+  for (; *str; str++)
+  {
+    unsigned char c = *str;
+    if (c == '"' || c == '\\')
+      ptr += sprintf(ptr, "\\%c", c);
+    else if (c < 32)
+      ptr += sprintf(ptr, "\\u%04x", c);
+    else
+      *ptr++ = c;
+  }
+  *ptr = 0;
+  return out;
+}
+
 char *json_array_of_strings(char **array, int size)
 {
   if (array == NULL || size < 1)
@@ -38,18 +60,24 @@ char *json_array_of_strings(char **array, int size)
   }
   // calculate size of string
   int string_size = strlen(JSON_ARRAY_STR_BEGIN) + strlen(JSON_ARRAY_STR_END) + size * strlen(JSON_ARRAY_STR_SEP) + 2;
+  char **escaped = calloc(size, sizeof(char *));
   for (int i = 0; i < size; i++)
   {
-    if (array[i] != NULL)
-      string_size += strlen(array[i]);
+    escaped[i] = json_escape(array[i] != NULL ? array[i] : "");
+    string_size += strlen(escaped[i]);
   }
 
   char *json = calloc(string_size, sizeof(char));
   strcpy(json, JSON_ARRAY_STR_BEGIN);
-  char *joined_str = join(array, size, JSON_ARRAY_STR_SEP);
+  char *joined_str = join(escaped, size, JSON_ARRAY_STR_SEP);
   strcat(json, joined_str);
   strcat(json, JSON_ARRAY_STR_END);
   free(joined_str);
+  for (int i = 0; i < size; i++)
+  {
+    free(escaped[i]);
+  }
+  free(escaped);
   return json;
 }
 
@@ -87,8 +115,10 @@ char *json_array_of_entities(json_list_t list)
 
 char *json_key_value(char *key, char *value)
 {
-  char *json = calloc(1, strlen(key) + strlen(value) + 15);
-  sprintf(json, "\"%s\":\"%s\"", key, value? value : "");
+  char *escaped = json_escape(value ? value : "");
+  char *json = calloc(1, strlen(key) + strlen(escaped) + 15);
+  sprintf(json, "\"%s\":\"%s\"", key, escaped);
+  free(escaped);
   return json;
 }
 
-- 
2.43.0


From 45de08a85f6774fc15c21876adbb691c6e8e5446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:15 +0000
Subject: [PATCH 12/73] fix: static responses repeated the status line among
 the headers

return_headers sent the status and Server lines, then the same buffer
again with the content type added; the second status line is not a
header, and strict clients reject the response.
---
 http_utils.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index f848dd7..8aba2a2 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -89,8 +89,6 @@ int return_headers(api_request *req, char *filename)
 	int len = 0;
 	char buf[1024];
 	sprintf(buf, "%s%s", HTTP_OK_START, WAYUU_HTTP_SERVER_STRING);
-	len += strlen(buf);
-	http_print(req, buf, len);
 	char *content_type = get_content_type(filename);
 	strcat(buf, content_type);
 	free(content_type);
-- 
2.43.0


From 24fd69ce4b72e58e5edcb54a0e6bcbb8f2474b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:15 +0000
Subject: [PATCH 13/73] fix: csv files were sent as binary, and yaml and
 unknown types as csv

The comparison with .csv (and text/csv) was inverted.
---
 http_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 8aba2a2..d224509 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -129,7 +129,7 @@ char *get_content_type(char *filename)
 		sprintf(buf, CONTENT_TYPE_ICON);
 	else if (strcmp(ext, ".txt") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_PLAIN);
-	else if (strcmp(ext, ".csv"))
+	else if (strcmp(ext, ".csv") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_CSV);
 	else if (strcmp(ext, ".yaml") == 0)
 	{
@@ -157,7 +157,7 @@ char *get_content_type_for_mime(char *mime)
 		sprintf(buf, CONTENT_TYPE_CSS);
 	else if (strcmp(mime, "text/plain") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_PLAIN);
-	else if (strcmp(mime, "text/csv"))
+	else if (strcmp(mime, "text/csv") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_CSV);
 	else if (strcmp(mime, "text/yaml") == 0)
 	{
-- 
2.43.0


From 2934e9c97a2f6c1c9f4f931b3b0eccbd058501a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:15 +0000
Subject: [PATCH 14/73] fix: send_http_status overflowed its buffer with a long
 message

---
 http_utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http_utils.c b/http_utils.c
index d224509..717a0dd 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -418,7 +418,7 @@ void send_http_status(api_request *req, int status, char *message)
 		return;
 	}
 
-	char buf[1024];
+	char *buf = malloc(1024 + strlen(message));
 
 	strcpy(buf, HTTP_ERROR_STARTS[error_index]);
 	strcat(buf, WAYUU_HTTP_SERVER_STRING);
@@ -438,6 +438,7 @@ void send_http_status(api_request *req, int status, char *message)
 	strcpy(buf, "\r\n");
 	http_print_str(req, buf);
 	req->response_length += strlen(buf);
+	free(buf);
 	log_access(req, status);
 }
 
-- 
2.43.0


From 92113ba8d2bef47d674139b59a1d74ba0af95ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:15 +0000
Subject: [PATCH 15/73] fix: new_error_with_values overflowed with a long code
 or message

---
 http_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 717a0dd..fecec48 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -499,8 +499,8 @@ char *wayuu_error_t_json_serializer(wayuu_error_t *error)
 wayuu_error_t *new_error_with_values(char *code, char *message)
 {
 	wayuu_error_t *error = malloc(sizeof(wayuu_error_t));
-	strcpy(error->code, code);
-	strcpy(error->message, message);
+	snprintf(error->code, HTTP_MAX_ERROR_CODE_LEN, "%s", code);
+	snprintf(error->message, HTTP_MAX_ERROR_MSG_LEN, "%s", message);
 	return error;
 }
 
-- 
2.43.0


From 922d36db1086f60916b287dd0a5c57e49847d5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:15 +0000
Subject: [PATCH 16/73] fix: request headers were looked up by exact letter
 case

HTTP header names are case-insensitive; clients and proxies that send
them in lower case lost their headers.
---
 http_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http_utils.c b/http_utils.c
index fecec48..d50c54a 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -520,7 +520,7 @@ char *http_get_header(api_request *req, char *name)
 {
 	for (int i = 0; i < req->n_headers; i++)
 	{
-		if (!strcmp(req->headers[i].name, name))
+		if (!strcasecmp(req->headers[i].name, name))
 		{
 			return strdup(req->headers[i].value);
 		}
-- 
2.43.0


From 5c522a5a4aa46aa4bd4ad8596805755101a06015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:15 +0000
Subject: [PATCH 17/73] fix: return_response used and freed uninitialised
 pointers

An empty text or description left its pointer unset. Texts are now also
escaped like other JSON strings.
---
 http_utils.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index d50c54a..ef68e18 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -531,10 +531,10 @@ char *http_get_header(api_request *req, char *name)
 char *return_response(call_response_t rsp)
 {
 	char *aux;
-	char *aux_err;
-	char *aux_txt;
-	char *aux_additional_info;
-	char *aux_description;
+	char *aux_err = NULL;
+	char *aux_txt = NULL;
+	char *aux_additional_info = NULL;
+	char *aux_description = NULL;
 
 	if (rsp.status == -1)
 		asprintf(&aux_err, "\"RSP\":\"FAIL\"");
@@ -545,9 +545,17 @@ char *return_response(call_response_t rsp)
 	if (rsp.status == 2)
 		asprintf(&aux_err, "\"RSP\":\"WARNING\"");
 	if (strlen(rsp.text))
-		asprintf(&aux_txt, ", \"info\":\"%s\"", rsp.text);
+	{
+		char *info = json_key_value("info", rsp.text);
+		asprintf(&aux_txt, ", %s", info);
+		free(info);
+	}
 	if (strlen(rsp.description))
-		asprintf(&aux_description, ", \"description\":\"%s\"", rsp.description);
+	{
+		char *description = json_key_value("description", rsp.description);
+		asprintf(&aux_description, ", %s", description);
+		free(description);
+	}
 
 	if (rsp.additional_info != NULL)
 		asprintf(&aux_additional_info, ",\"data\":%s", rsp.additional_info);
-- 
2.43.0


From f15e43cc084f4e334bc5fe47759454a3939e8641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:15 +0000
Subject: [PATCH 18/73] fix: JSON replies with an unsupported status had no
 status line

Send nothing, as send_http_status does.
---
 http_utils.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/http_utils.c b/http_utils.c
index ef68e18..38945f6 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -319,6 +319,10 @@ int return_headers_with_mime(api_request *req, int status, char *mime)
 void return_json_stream(api_request *req, int status, FILE *fp)
 {
 	int len = return_json_headers(req, status);
+	if (len == 0)
+	{
+		return;
+	}
 	char buf[1024];
 	strcpy(buf, "\r\n");
 	http_print(req, buf, strlen(buf));
@@ -330,6 +334,10 @@ void return_json_stream(api_request *req, int status, FILE *fp)
 void return_json_with_status(api_request *req, int status, char *data)
 {
 	int len = return_json_headers(req, status);
+	if (len == 0)
+	{
+		return;
+	}
 
 	char buf[1024];
 	sprintf(buf, "Content-Length: %zu\r\n\r\n", strlen(data) + 2);
-- 
2.43.0


From 40d496d9ae7d6d7d4438a0b18cdcd265b3f0675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:15 +0000
Subject: [PATCH 19/73] fix: return_headers_with_mime leaked its content type

---
 http_utils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/http_utils.c b/http_utils.c
index 38945f6..d32da51 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -311,7 +311,9 @@ int return_headers_with_mime(api_request *req, int status, char *mime)
 	}
 	char buf[1024];
 
-	sprintf(buf, "%s%s%s%s", HTTP_ERROR_STARTS[error_index], WAYUU_HTTP_SERVER_STRING, HTTP_ACCESS_CONTROL, get_content_type_for_mime(mime));
+	char *content_type = get_content_type_for_mime(mime);
+	sprintf(buf, "%s%s%s%s", HTTP_ERROR_STARTS[error_index], WAYUU_HTTP_SERVER_STRING, HTTP_ACCESS_CONTROL, content_type);
+	free(content_type);
 	http_print(req, buf, strlen(buf));
 	return strlen(buf);
 }
-- 
2.43.0


From 058315fc90577e58310672f3b9b663c6fac7772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:15 +0000
Subject: [PATCH 20/73] fix: an empty URL crashed the URL splitter, and queries
 were cut at a second '?'

split returns no piece for "" and "?", and its first piece was used
regardless: a request line without URL crashed the server. A query may
contain '?', and "?a=b" has an empty path.
---
 http_utils.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index d32da51..42f1e1d 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -461,20 +461,20 @@ path_and_query_t *get_path_and_query_string(char *url)
 
 	path_and_query_t *result = malloc(sizeof(path_and_query_t));
 
-	str_list_t *list = split(url, "?");
+	char *query = strchr(url, '?');
 
-	result->path = strdup(list->strings[0]);
-
-	if (list->n_str > 1)
+	if (query != NULL)
 	{
-		result->query = strdup(list->strings[1]);
+		result->path = strndup(url, query - url);
+		// An empty query is not allocated, see free_path_and_query_t
+		result->query = query[1] ? strdup(query + 1) : "";
 	}
 	else
 	{
+		result->path = strdup(url);
 		result->query = "";
 	}
 
-	free_str_list_t(list);
 	return result;
 }
 
-- 
2.43.0


From b73fe8b895e4c40df0b1d116c2ca8cae951d6f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:15 +0000
Subject: [PATCH 21/73] fix: a long method or path overflowed the router's
 match buffer

Both come from the client and can be up to 254 characters each.
---
 router.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/router.c b/router.c
index 15d5bed..316e427 100644
--- a/router.c
+++ b/router.c
@@ -117,10 +117,14 @@ void router_handle_request(api_request *request)
   request_handler handler = NULL;
   request_filter filter = NULL;
 
-  char matcher[255];
+  char *matcher;
 
   // Match method:path
-  sprintf(matcher, "%s:%s", request->method, request->path);
+  if (asprintf(&matcher, "%s:%s", request->method, request->path) < 0)
+  {
+    log_error("Out of memory");
+    return;
+  }
 
   for (int i = 0; i < routing_table.n_routes; i++)
   {
@@ -152,6 +156,7 @@ void router_handle_request(api_request *request)
       break;
     }
   }
+  free(matcher);
   if (handler == NULL)
   {
     // we did not find a handler for given request, return default response.
-- 
2.43.0


From 92e65e99b764181cbd44864aaf909be00ad4857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:15 +0000
Subject: [PATCH 22/73] fix: parametric routes matched anywhere in the request,
 not at its start

"GET /api/x/DELETE:/user/5" ran the handler of DELETE:/user/{id}.
---
 router.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.c b/router.c
index 316e427..56591c5 100644
--- a/router.c
+++ b/router.c
@@ -136,7 +136,7 @@ void router_handle_request(api_request *request)
       filter = routing_table.filters[i];
       break;
     }
-    else if (type == MATCHER_TYPE_PARAM && strstr(matcher, template) != NULL && strcmp(template, matcher) != 0)
+    else if (type == MATCHER_TYPE_PARAM && strncmp(matcher, template, strlen(template)) == 0 && strcmp(template, matcher) != 0)
     {
       char *qs = router_extract_param(matcher, routing_table.matchers[i]);
       if (strlen(request->form) == 0)
-- 
2.43.0


From 6ca2de4116e6db6228d74e12c3595c7881af5399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:15 +0000
Subject: [PATCH 23/73] fix: a path parameter was appended past the end of the
 request body

The body's buffer is exactly as long as the body: a POST with a body to
a route with a parameter overflowed the heap.
---
 router.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/router.c b/router.c
index 56591c5..afb1371 100644
--- a/router.c
+++ b/router.c
@@ -145,10 +145,10 @@ void router_handle_request(api_request *request)
       }
       else
       {
-        char *param;
-        asprintf(&param, "&%s", qs);
-        strcat(request->form, param);
-        free(param);
+        // The form has no room left behind the request body
+        request->form = realloc(request->form, strlen(request->form) + strlen(qs) + 2);
+        strcat(request->form, "&");
+        strcat(request->form, qs);
       }
       free(qs);
       handler = routing_table.handlers[i];
-- 
2.43.0


From bec217be3389270498eb7e21e20d79d6df32cbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:15 +0000
Subject: [PATCH 24/73] fix: routes beyond MAX_ROUTES were written past the
 routing table

---
 router.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/router.c b/router.c
index afb1371..58e1f04 100644
--- a/router.c
+++ b/router.c
@@ -93,6 +93,11 @@ void router_add_route(char *template, request_handler handler, request_filter fi
 {
 
   log_debug("ADD ROUTE - %s", template);
+  if (routing_table.n_routes >= MAX_ROUTES)
+  {
+    log_error("Routing table is full, route ignored: %s", template);
+    return;
+  }
   route_matcher *matcher = calloc(1, sizeof(route_matcher));
   if (strchr(template, '{') != NULL)
   {
-- 
2.43.0


From ae3aa4b28ab77a5fb52eace2d967de75fac92f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:33 +0000
Subject: [PATCH 25/73] fix: allow and deny lists matched addresses by
 substring

"10.0.0.1" was allowed (or denied) by a line "110.0.0.12". The lists hold
one address per line.
---
 ws.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index a142e34..e9f0653 100644
--- a/ws.c
+++ b/ws.c
@@ -67,6 +67,33 @@ void wayuu_failed()
 	exit(EXIT_FAILURE);
 }
 
+/* Returns true if ip is one of the lines of the given file */
+static bool address_in_file(char *path, char *ip)
+{
+	if (!is_file(path))
+	{
+		return false;
+	}
+
+	FILE *fp = fopen(path, "r");
+	if (fp == NULL)
+	{
+		return false;
+	}
+
+	bool found = false;
+	char *line = NULL;
+	size_t len = 0;
+	while (!found && getline(&line, &len, fp) != -1)
+	{
+		trim(line);
+		found = !strcmp(line, ip);
+	}
+	free(line);
+	fclose(fp);
+	return found;
+}
+
 bool allowed_address(char *ip)
 {
 	if (strlen(WAYUU_WS_ALLOW) == 0)
@@ -75,7 +102,7 @@ bool allowed_address(char *ip)
 		sprintf(WAYUU_WS_DENY, "%s/etc/deny", WAYUU_WS_ROOT);
 	}
 
-	if (find_in_file(WAYUU_WS_DENY, ip))
+	if (address_in_file(WAYUU_WS_DENY, ip))
 	{
 		return false;
 	}
@@ -84,7 +111,7 @@ bool allowed_address(char *ip)
 	{
 		return true;
 	}
-	return find_in_file(WAYUU_WS_ALLOW, ip);
+	return address_in_file(WAYUU_WS_ALLOW, ip);
 }
 
 int get_line(api_request *req, char *buf, int size)
-- 
2.43.0


From cc06282b70f5fa6c36f122e768a9239118380c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:33 +0000
Subject: [PATCH 26/73] fix: a connection closed without a request made the
 server write before its heap block

An empty request line has no two characters to remove.
---
 ws.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index e9f0653..4893ee8 100644
--- a/ws.c
+++ b/ws.c
@@ -523,8 +523,8 @@ void accept_request(int socket)
 	log_trace("IP: %s, Request: %s", req->IP, buf);
 
 	req->request_line = strdup(buf);
-	// The request line ends in the two characters \r\n
-	req->request_line[strlen(req->request_line) - 2] = 0;
+	// The request line ends in the two characters \r\n, unless it was cut short
+	req->request_line[strcspn(req->request_line, "\r\n")] = 0;
 
 	// HTTP METHOD
 	i = 0;
-- 
2.43.0


From 91a1108bae9f75573c66ebe4ab78acdd520968fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:33 +0000
Subject: [PATCH 27/73] fix: header names and values of full length had no
 terminator

A User-Agent of 256 bytes ran into the next header.
---
 ws.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 4893ee8..d7f5911 100644
--- a/ws.c
+++ b/ws.c
@@ -593,9 +593,9 @@ void accept_request(int socket)
 			if (nameval->n_str > 1)
 			{
 				log_trace("Found header: %s, %s", nameval->strings[0], nameval->strings[1]);
-				strncpy(req->headers[headers_idx].name, nameval->strings[0], HTTP_MAX_HEADER_NAME);
+				strncpy(req->headers[headers_idx].name, nameval->strings[0], HTTP_MAX_HEADER_NAME - 1);
 				trim(nameval->strings[1]);
-				strncpy(req->headers[headers_idx].value, nameval->strings[1], HTTP_MAX_HEADER_VALUE);
+				strncpy(req->headers[headers_idx].value, nameval->strings[1], HTTP_MAX_HEADER_VALUE - 1);
 				headers_idx++;
 			}
 			free_str_list_t(nameval);
-- 
2.43.0


From b1194155e6fd5be0210e561fb5376b055eea3588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:10 +0000
Subject: [PATCH 28/73] fix: a long multipart boundary overflowed the stack,
 and Content-Type was misread

The boundary is cut to the buffer (RFC 2046 allows 70 characters), quotes
and following parameters are not part of it, and the content type no
longer includes the line end or needs exactly one space after the colon.
---
 ws.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/ws.c b/ws.c
index d7f5911..3c0a3d9 100644
--- a/ws.c
+++ b/ws.c
@@ -602,16 +602,26 @@ void accept_request(int socket)
 		}
 		if (startswith(buf, "Content-Type:"))
 		{
-			req->content_type = rtrim(&(buf[14]), ';');
-		}
-		/* Get multipart boundary */
-		if (startswith(buf, "Content-Type: multipart/form-data"))
-		{
-			char *boundary = strcasestr(buf, "boundary=");
-			if (boundary)
+			free(req->content_type);
+			req->content_type = rtrim(buf + strlen("Content-Type:"), ';');
+			trim(req->content_type);
+			/* Get multipart boundary */
+			if (startswith(req->content_type, "multipart/form-data"))
 			{
-				sprintf(multipart_boundary, "--%s", boundary + strlen("boundary=")); // TODO: Validate size
-				trim(multipart_boundary);
+				char *boundary = strcasestr(buf, "boundary=");
+				if (boundary)
+				{
+					boundary += strlen("boundary=");
+					/* The boundary may be quoted, and other parameters may follow */
+					if (*boundary == '"')
+					{
+						boundary++;
+						boundary[strcspn(boundary, "\"")] = 0;
+					}
+					boundary[strcspn(boundary, ";\r\n")] = 0;
+					trim(boundary);
+					snprintf(multipart_boundary, sizeof(multipart_boundary), "--%s", boundary);
+				}
 			}
 		}
 
-- 
2.43.0


From d551ffcb60566328ca1debc6ca8ba2f98b525668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:10 +0000
Subject: [PATCH 29/73] fix: Content-Length and X-Real-IP needed exactly one
 space after the colon

Without it the first digit was skipped and the body ignored or cut; an
empty X-Real-IP read what an earlier line had left in the buffer.
---
 ws.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ws.c b/ws.c
index 3c0a3d9..1be2690 100644
--- a/ws.c
+++ b/ws.c
@@ -628,7 +628,7 @@ void accept_request(int socket)
 		/* Get content length */
 		if (startswith(buf, "Content-Length:"))
 		{
-			content_length = atoi(&(buf[16]));
+			content_length = strtol(buf + strlen("Content-Length:"), NULL, 10);
 		}
 
 		// Get original IP if behind proxy
@@ -636,8 +636,9 @@ void accept_request(int socket)
 		{
 			free(req->IP);
 			req->IP = calloc(26, 1);
-			trim(buf);
-			strncpy(req->IP, buf + 11, 24);
+			char *real_ip = buf + strlen("X-Real-IP:");
+			trim(real_ip);
+			strncpy(req->IP, real_ip, 24);
 		}
 
 		/* Get Session */
-- 
2.43.0


From b1e117ad40c94ecd968f16b52498801798a7c26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:10 +0000
Subject: [PATCH 30/73] fix: session tokens were taken from the wrong place

Authorization values started at its tenth letter; any Cookie header was
taken for the session cookie, including its line end (which broke the
response headers that echo it) and, when short, what an earlier line had
left in the buffer; a token of 64 bytes had no terminator.
---
 ws.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/ws.c b/ws.c
index 1be2690..3b6c5ef 100644
--- a/ws.c
+++ b/ws.c
@@ -644,14 +644,26 @@ void accept_request(int socket)
 		/* Get Session */
 		if (startswithany(buf, COOKIE_HEADERS))
 		{
-			strncpy(req->session, buf + 10, MAX_SESSION);
+			char *session = strchr(buf, ':') + 1;
+			trim(session);
+			strncpy(req->session, session, MAX_SESSION - 1);
 			trim(req->session);
 		}
 
 		if (startswith(buf, "Cookie:") && req->session[0] == 0)
 		{
-			if (strlen(buf + 18) < MAX_SESSION)
-				strcpy(req->session, buf + 18);
+			char *save = NULL;
+			char *cookie = strtok_r(buf + strlen("Cookie:"), ";", &save);
+			for (; cookie != NULL; cookie = strtok_r(NULL, ";", &save))
+			{
+				trim(cookie);
+				char *session = cookie + strlen("WSSESSION=");
+				if (!strncmp(cookie, "WSSESSION=", strlen("WSSESSION=")) && strlen(session) < MAX_SESSION)
+				{
+					strcpy(req->session, session);
+					break;
+				}
+			}
 		}
 
 		numchars = get_line(req, buf, sizeof(buf));
-- 
2.43.0


From dcd1df0fabb78314220a11f493eb80811bb366d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:11 +0000
Subject: [PATCH 31/73] fix: incomplete bodies were filled up with their last
 byte and handled

When the client closed early, the server went on for the announced length
(up to 2 GB) and gave the handler a body nobody had sent. Answer 400, also
when there is no memory for the announced length.
---
 ws.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ws.c b/ws.c
index 3b6c5ef..dd12450 100644
--- a/ws.c
+++ b/ws.c
@@ -319,14 +319,21 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 	if (content_length > 0)
 	{
 		char c = '\0';
-		req->form = malloc(content_length + 1);
+		char *form = malloc(content_length + 1);
 		long formptr = 0;
-		for (int i = 0; i < content_length; i++)
+		while (form != NULL && formptr < content_length && http_read_char(req, &c) > 0)
 		{
-			http_read_char(req, &c);
-			req->form[formptr++] = c;
-			req->form[formptr] = 0;
+			form[formptr++] = c;
 		}
+		if (form == NULL || formptr < content_length)
+		{
+			log_warn("IP:%s Request body is incomplete", req->IP);
+			free(form);
+			bad_request(req);
+			return;
+		}
+		form[formptr] = 0;
+		req->form = form;
 
 		/* If multipart boundary is at least = "--", then parse multipart */
 		if (strlen(multipart_boundary) >= 2)
-- 
2.43.0


From 344a7b35eb66e85861e38ff9156a941ae43c38ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:11 +0000
Subject: [PATCH 32/73] fix: form fields of small uploads overflowed the body's
 buffer

A file part is replaced by its field, name and tmpfile, which can be
longer than the part.
---
 ws.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ws.c b/ws.c
index dd12450..ea2b67d 100644
--- a/ws.c
+++ b/ws.c
@@ -268,11 +268,13 @@ void save_tmp_file(char *tmpfields, char *field, long start_file, char *tmpdata,
 	sprintf(tmpfields + strlen(tmpfields), "%s=%s&tmpfile=%s", field, orig_filename, tmpfile);
 }
 
-void multipart_parse(char *form, char *IP, char *multipart_boundary, long content_length)
+/* Returns the form fields, dynamically allocated */
+char *multipart_parse(char *form, char *IP, char *multipart_boundary, long content_length)
 {
 
 	char *tmppart = calloc(content_length + 1, 1);
-	char *tmpfields = calloc(content_length + 1, 1);
+	/* A file part takes 35 bytes or more, and adds at most 64 to its field and file names */
+	char *tmpfields = calloc(3 * content_length + 128, 1);
 
 	long ptr = 0;
 	long part_start;
@@ -297,10 +299,8 @@ void multipart_parse(char *form, char *IP, char *multipart_boundary, long conten
 		ptr = part_start + 1;
 	}
 
-	strcpy(form, tmpfields);
-
-	free(tmpfields);
 	free(tmppart);
+	return tmpfields;
 }
 
 void handle_api_request(api_request *req, long content_length, char *multipart_boundary)
@@ -337,8 +337,10 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 
 		/* If multipart boundary is at least = "--", then parse multipart */
 		if (strlen(multipart_boundary) >= 2)
-			multipart_parse(req->form, req->IP, multipart_boundary, content_length);
-		
+		{
+			req->form = multipart_parse(form, req->IP, multipart_boundary, content_length);
+			free(form);
+		}
 	}
 	// Delegate request to router
 	router_handle_request(req);
-- 
2.43.0


From d246737dfe9469ea3ec49c30a03c75ae850ef4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:11 +0000
Subject: [PATCH 33/73] fix: multipart fields were mistaken for files

The file name was also searched in the field's value, and in what a
longer part before it had left in the buffer.
---
 ws.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index ea2b67d..2114839 100644
--- a/ws.c
+++ b/ws.c
@@ -213,7 +213,8 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 		if (strlen(tmpfields) > 0)
 			sprintf(tmpfields + strlen(tmpfields), "&");
 
-		long start_file = text_find_after(tmpdata, "; filename=\"", 0, strlen(tmpdata));
+		/* The file name is in the part's header: what follows is the value */
+		long start_file = text_find_after(tmpdata, "; filename=\"", 0, data_start);
 		if (data_start > 0)
 		{
 			/* Save filename */
@@ -292,6 +293,7 @@ char *multipart_parse(char *form, char *IP, char *multipart_boundary, long conte
 
 		int tmppart_len = part_end - part_start - strlen(multipart_boundary);
 		memcpy(tmppart, form + part_start, tmppart_len);
+		tmppart[tmppart_len] = 0;
 
 		part_parse(IP, tmpfields, tmppart, tmppart_len);
 
-- 
2.43.0


From 0f1bc82abc033932eeb88e3252184572fcc4c1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:12 +0000
Subject: [PATCH 34/73] fix: a multipart part without data and line end crashed
 the server

Its length came out negative.
---
 ws.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ws.c b/ws.c
index 2114839..e80a1dc 100644
--- a/ws.c
+++ b/ws.c
@@ -209,6 +209,13 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 		field[bytes] = 0;
 		chop_string(field);
 		long data_start = text_find_after(tmpdata, "\r\n\r\n", 0, actuallength);
+		/* The data is followed by a line end */
+		if (data_start > actuallength - 2)
+		{
+			log_warn("IP:%s Multipart error: part is cut short", IP);
+			free(field);
+			return;
+		}
 		/* If there is already data in tmpfields, start with & */
 		if (strlen(tmpfields) > 0)
 			sprintf(tmpfields + strlen(tmpfields), "&");
-- 
2.43.0


From ce04b7ec153c2911baa65c7d44a37df9092d7da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:44 +0000
Subject: [PATCH 35/73] fix: folder URLs were resolved by an uninitialised
 buffer

Whether a path ending in '/' got its index.html depended on what was on
the stack, not on the path.
---
 ws.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ws.c b/ws.c
index e80a1dc..d26d2fe 100644
--- a/ws.c
+++ b/ws.c
@@ -359,7 +359,7 @@ void handle_static_routes(api_request *req)
 {
 	log_debug("Handle static route: %s", req->path);
 	char path[1024];
-	int pathlen = strlen(path);
+	int pathlen = strlen(req->path);
 	/**
 	 *  Handle default routes. URL Rewritting.
 	 */
@@ -375,15 +375,15 @@ void handle_static_routes(api_request *req)
 		req->path = strdup(FAVICON_URL);
 	}
 	// If static route ends with '/', then redirect to the index.html in the folder.
-	else if (path[pathlen-1] == '/')
+	else if (pathlen > 0 && req->path[pathlen-1] == '/')
 	{
 
-		sprintf(path, "%s%s", req->path, "index.html");
+		snprintf(path, sizeof(path), "%s%s", req->path, "index.html");
 		free(req->path);
 		req->path = strdup(path);
 	}
 
-	sprintf(path, "%s/%s", WAYUU_STATIC_ROOT, req->path);
+	snprintf(path, sizeof(path), "%s/%s", WAYUU_STATIC_ROOT, req->path);
 
 	log_debug("IP:%s GET: %s, PATH: %s", req->IP, req->path, path);
 	// If the file is not found return /index.html
-- 
2.43.0


From 891efd02c25c3fe979ee376cc9072dcd311ecd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:45 +0000
Subject: [PATCH 36/73] fix: a missing file without an index page got no
 response at all

---
 ws.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index d26d2fe..2f56cdd 100644
--- a/ws.c
+++ b/ws.c
@@ -390,7 +390,10 @@ void handle_static_routes(api_request *req)
 	if (direct_file(req, path) < 0)
 	{
 		sprintf(path, "%s/%s", WAYUU_STATIC_ROOT, WWW_INDEX);
-		direct_file(req, path);
+		if (direct_file(req, path) < 0)
+		{
+			not_found(req);
+		}
 	}
 }
 
-- 
2.43.0


From ee0a201fcfafbf59fa54a575eee1eef262c11562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:45 +0000
Subject: [PATCH 37/73] fix: static paths could leave the static root

GET /../../etc/passwd served any file the server could read.
---
 ws.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ws.c b/ws.c
index 2f56cdd..4a30739 100644
--- a/ws.c
+++ b/ws.c
@@ -355,9 +355,28 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 	router_handle_request(req);
 }
 
+/* Returns true if a segment of the path is ".." */
+static bool has_parent_segment(char *path)
+{
+	for (char *p = strstr(path, ".."); p != NULL; p = strstr(p + 1, ".."))
+	{
+		if ((p == path || p[-1] == '/') && (p[2] == '/' || p[2] == 0))
+		{
+			return true;
+		}
+	}
+	return false;
+}
+
 void handle_static_routes(api_request *req)
 {
 	log_debug("Handle static route: %s", req->path);
+	// Never leave the static root
+	if (has_parent_segment(req->path))
+	{
+		bad_request(req);
+		return;
+	}
 	char path[1024];
 	int pathlen = strlen(req->path);
 	/**
-- 
2.43.0


From 8f4c16e96826bd850b4e1edf5fefe5bc8704695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:45 +0000
Subject: [PATCH 38/73] fix: connection limits admitted one connection too many

The new connection is not in the table yet when it is validated.
---
 ws.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 4a30739..001beea 100644
--- a/ws.c
+++ b/ws.c
@@ -460,12 +460,12 @@ bool connection_validate(char *IP, char *path)
 			int total = 0;
 			int by_ip = 0;
 			get_live_stats(limits[i].path, IP, &total, &by_ip);
-			if (total > limits[i].max_connections)
+			if (total >= limits[i].max_connections)
 			{
 				log_debug("IP:%s denied, max_connections exceeded for %s", IP, limits[i].path);
 				return false;
 			}
-			if (by_ip > limits[i].max_connections_per_ip)
+			if (by_ip >= limits[i].max_connections_per_ip)
 			{
 				log_debug("IP:%s denied, max_connections_per_ip exceeded for %s", IP, limits[i].path);
 				return false;
-- 
2.43.0


From d1861c7939b39028acb40647f67263637b82cce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:45 +0000
Subject: [PATCH 39/73] fix: the live connection table was changed by all
 threads without a lock

Connections arriving together passed the limits together or took the same
place, and one whose number was reused between close and removal lost its
place to the old one.
---
 ws.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 001beea..5ad1a99 100644
--- a/ws.c
+++ b/ws.c
@@ -38,6 +38,8 @@ pthread_cond_t ws_cond;
 ws_queue *ws_threads_queue;
 SSL_CTX *ctx;
 connections *live_connections;
+/* Protects live_connections */
+static pthread_mutex_t live_mutex = PTHREAD_MUTEX_INITIALIZER;
 path_limits *limits;
 
 char WAYUU_WS_ROOT[ROOT_PATH_MAX];
@@ -482,13 +484,15 @@ void connection_close(api_request *req)
 		SSL_shutdown(req->ssl);
 		SSL_free(req->ssl);
 	}
-	close(req->socket);
+	/* Once closed, the socket number can be that of a new connection */
 	connection_del(req->socket);
+	close(req->socket);
 }
 
 /* Removes socket from live_connections */
 void connection_del(int socket)
 {
+	pthread_mutex_lock(&live_mutex);
 	for (int i = 0; i < WS_MAX_CONNECTIONS; i++)
 	{
 		if (live_connections[i].socket == socket)
@@ -499,13 +503,18 @@ void connection_del(int socket)
 			break;
 		}
 	}
+	pthread_mutex_unlock(&live_mutex);
 }
 
 /* Adds socket to live_connections (if allowed) */
 bool connection_add(int socket, char *IP, char *path)
 {
+	pthread_mutex_lock(&live_mutex);
 	if (!connection_validate(IP, path))
+	{
+		pthread_mutex_unlock(&live_mutex);
 		return false;
+	}
 
 	for (int i = 0; i < WS_MAX_CONNECTIONS; i++)
 	{
@@ -514,10 +523,12 @@ bool connection_add(int socket, char *IP, char *path)
 			live_connections[i].socket = socket;
 			strcpy(live_connections[i].path, path);
 			strcpy(live_connections[i].IP, IP);
+			pthread_mutex_unlock(&live_mutex);
 			return true;
 		}
 	}
 
+	pthread_mutex_unlock(&live_mutex);
 	log_debug("WS_MAX_CONNECTIONS reached");
 	return false;
 }
-- 
2.43.0


From 29c146f12d188789121adf5aa393eba45c58087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:46 +0000
Subject: [PATCH 40/73] fix: a long path in the limits file overflowed its rule

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 5ad1a99..90b2d81 100644
--- a/ws.c
+++ b/ws.c
@@ -955,7 +955,7 @@ path_limits *load_limits()
 				/* Tokenize line, comma delimited */
 				char *token;
 				token = strtok(line, ",");
-				strcpy(out[path_rules].path, token);
+				strncpy(out[path_rules].path, token, HTTP_MAX_PATH - 1);
 				int i = 1;
 				while (token != NULL)
 				{
-- 
2.43.0


From 766d9dc2f7613becc3382ce4d47a07a144848025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:46 +0000
Subject: [PATCH 41/73] fix: a failing accept ended the server, and each
 connection leaked its address

A client that disconnects early, or too many open connections, made
accept fail once and the whole process exit.
---
 ws.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 90b2d81..2884735 100644
--- a/ws.c
+++ b/ws.c
@@ -876,9 +876,14 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 
 		client_sock = accept(httpd, (struct sockaddr *)&client_name, &client_name_len);
 		if (client_sock == -1)
-			log_fatal("Error while creating client socket");
+		{
+			// The client may be gone already, or descriptors be short for a moment
+			log_error("Error while creating client socket");
+			usleep(10000);
+			continue;
+		}
 
-		char *IP = malloc(16);
+		char IP[HTTP_MAX_IP];
 		strcpy(IP, inet_ntoa(client_name.sin_addr));
 
 		if (!allowed_address(IP))
-- 
2.43.0


From e79ea03975f0f0ec75f400dfbce3dc930bea7c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:46 +0000
Subject: [PATCH 42/73] fix: connections dropped for a full queue were never
 closed

---
 ws.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ws.c b/ws.c
index 2884735..9fedd7a 100644
--- a/ws.c
+++ b/ws.c
@@ -907,6 +907,7 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 			else
 			{
 				log_warn("IP:%s Connection dropped. No threads available", IP);
+				close(client_sock);
 			}
 			pthread_mutex_unlock(&ws_mutex);
 			pthread_cond_signal(&ws_cond);
-- 
2.43.0


From d1a1f4aed743681de7bdd339d129b3ec9bd4be83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:46 +0000
Subject: [PATCH 43/73] fix: URLs over 254 characters were shortened and
 handled as another URL

Hold HTTP_MAX_PATH characters as http_utils.h says, and answer 400 to
longer ones.
---
 ws.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 9fedd7a..cd2d4e0 100644
--- a/ws.c
+++ b/ws.c
@@ -544,7 +544,7 @@ void accept_request(int socket)
 	char buf[1024] = "\0";
 	int numchars;
 	char method[255];
-	char url[255];
+	char url[HTTP_MAX_PATH];
 	size_t i, j;
 	api_request *req = api_request_new(socket);
 
@@ -615,6 +615,15 @@ void accept_request(int socket)
 
 	url[i] = '\0';
 
+	// A shortened URL would be another URL: reject it
+	if (strlen(url) == sizeof(url) - 1 && buf[j] && !isspace((int)(buf[j])))
+	{
+		bad_request(req);
+		connection_close(req);
+		free(req);
+		return;
+	}
+
 	req->url = strdup(url);
 
 	/* Validate and add connection to live_connections */
-- 
2.43.0


From 30dd523b36af16072df8261c0b7128e2fced6a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:47 +0000
Subject: [PATCH 44/73] fix: the rest of a header line over 1023 bytes was
 taken for another header

Or, if only its line end was left, for the end of the headers.
---
 ws.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ws.c b/ws.c
index cd2d4e0..666aace 100644
--- a/ws.c
+++ b/ws.c
@@ -139,6 +139,11 @@ int get_line(api_request *req, char *buf, int size)
 	}
 
 	buf[i] = '\0';
+
+	// Drop what does not fit, or it would be taken for the next line
+	while (c != '\n' && http_read_char(req, &c) > 0)
+		;
+
 	return (i);
 }
 
-- 
2.43.0


From e525dc6447e8ec5405cb1bce33de7e159310691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:28 +0000
Subject: [PATCH 45/73] fix: each request leaked its address, URL, path, query,
 session and body

The server's memory grew with every request served.
---
 ws.c | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/ws.c b/ws.c
index 666aace..04d36b3 100644
--- a/ws.c
+++ b/ws.c
@@ -423,17 +423,42 @@ void handle_static_routes(api_request *req)
 	}
 }
 
+/* What the fields of a request hold until they are allocated */
+static char NOTHING[] = "";
+
+static void free_field(char *field)
+{
+	if (field != NOTHING)
+	{
+		free(field);
+	}
+}
+
+/* Frees a request and all that was allocated while it was read */
+void api_request_free(api_request *req)
+{
+	free(req->IP);
+	free(req->request_line);
+	free(req->content_type);
+	free_field(req->query_string);
+	free_field(req->form);
+	free_field(req->session);
+	free_field(req->path);
+	free_field(req->url);
+	free(req);
+}
+
 api_request *api_request_new(int socket)
 {
 	api_request *req = calloc(1, sizeof(api_request));
 	req->request_start = epoch_millis();
 	req->response_length = 0;
-	req->query_string = "";
-	req->form = "";
-	req->session = "";
-	req->path = "";
+	req->query_string = NOTHING;
+	req->form = NOTHING;
+	req->session = NOTHING;
+	req->path = NOTHING;
 	req->username = "";
-	req->url = "";
+	req->url = NOTHING;
 	req->socket = socket;
 	return req;
 }
@@ -600,7 +625,7 @@ void accept_request(int socket)
 	{
 		bad_request(req);
 		connection_close(req);
-		free(req);
+		api_request_free(req);
 		return;
 	}
 
@@ -625,7 +650,7 @@ void accept_request(int socket)
 	{
 		bad_request(req);
 		connection_close(req);
-		free(req);
+		api_request_free(req);
 		return;
 	}
 
@@ -636,7 +661,7 @@ void accept_request(int socket)
 	{
 		too_many_connections(req);
 		connection_close(req);
-		free(req);
+		api_request_free(req);
 		return;
 	}
 
@@ -761,13 +786,13 @@ void accept_request(int socket)
 	/* II. HANDLE API REQUEST */
 	else
 	{
-		req->path = strdup(pq->path) + strlen(API_MOUNT);
+		req->path = strdup(pq->path + strlen(API_MOUNT));
 		// Create an api request object.
 		handle_api_request(req, content_length, multipart_boundary);
 	}
 	free_path_and_query_t(pq);
 	connection_close(req);
-	free(req);
+	api_request_free(req);
 }
 
 ws_queue *ws_create_queue(int maxElements)
-- 
2.43.0


From 9afce87ca9536283a174bb326f1bc0dc03482df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:28 +0000
Subject: [PATCH 46/73] fix: the -r option did not apply to static content

The static root stayed /etc/wayuu/www whatever root folder was given.
---
 main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 5a88d42..56054db 100644
--- a/main.c
+++ b/main.c
@@ -84,7 +84,8 @@ int main(int argc, char *argv[])
       ws_port = atoi(optarg);
       break;
     case 'r':
-      strcpy(WAYUU_WS_ROOT, optarg);
+      snprintf(WAYUU_WS_ROOT, ROOT_PATH_MAX, "%s", optarg);
+      sprintf(WAYUU_STATIC_ROOT, "%s/%s", WAYUU_WS_ROOT, DEFAULT_STATIC_ROOT);
       log_info("WAYUU ROOT now: %s", WAYUU_WS_ROOT);
       if (!is_dir(WAYUU_WS_ROOT))
       {
-- 
2.43.0


From 05e3926209db3c354473aca5325481e85dd7717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:28 +0000
Subject: [PATCH 47/73] fix: a long -b argument overflowed the bind address

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 56054db..3f7e97a 100644
--- a/main.c
+++ b/main.c
@@ -78,7 +78,7 @@ int main(int argc, char *argv[])
       exit(EXIT_SUCCESS);
       break;
     case 'b':
-      strcpy(bind_addr, optarg);
+      snprintf(bind_addr, sizeof(bind_addr), "%s", optarg);
       break;
     case 'p':
       ws_port = atoi(optarg);
-- 
2.43.0


From 415798b64d0dd054bc977426c92f8f8c31acbe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:28 +0000
Subject: [PATCH 48/73] fix: time stamps shared gmtime's static result between
 threads

---
 log.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/log.c b/log.c
index 5a8bbdc..0380bb7 100644
--- a/log.c
+++ b/log.c
@@ -42,7 +42,8 @@ char *format_timestamp()
   // Always use UTC time
   char *out = malloc(64);
   time_t t = time(NULL);
-  struct tm *utc = gmtime(&t);
+  struct tm buf;
+  struct tm *utc = gmtime_r(&t, &buf);
   strftime(out, 64, "%d-%m-%y %H:%M:%S", utc);
   return out;
 }
@@ -55,7 +56,8 @@ char *format_ts_common_log()
   //%d/%b/%Y:%H:%M:%S %z
   char *out = malloc(64);
   time_t t = time(NULL);
-  struct tm *utc = gmtime(&t);
+  struct tm buf;
+  struct tm *utc = gmtime_r(&t, &buf);
   strftime(out, 64, "%d/%b/%Y:%H:%M:%S %z", utc);
   return out;
 }
-- 
2.43.0


From b26e477615b39606a4552cf536fcd89994a5965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:28 +0000
Subject: [PATCH 49/73] fix: log lines of different threads were mixed up

Each line is written in three parts.
---
 log.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/log.c b/log.c
index 0380bb7..c6e952a 100644
--- a/log.c
+++ b/log.c
@@ -78,12 +78,14 @@ void __logger(int level, const char *file, int line, const char *func, const cha
   va_list args;
 
   // II. Format log
+  flockfile(LOG_FILE);
   fprintf(LOG_FILE, "%s %lu %-5s %s:%s:%d: ", buf, pthread_self(), level_names[level], file, func, line);
   va_start(args, format);
   vfprintf(LOG_FILE, format, args);
   va_end(args);
   fprintf(LOG_FILE, "\n");
   fflush(LOG_FILE);
+  funlockfile(LOG_FILE);
   free(buf);
 
   // Exit with error if log level is FATAL
-- 
2.43.0


From e80479a520b0e1b473fbec3412d462a5d2041320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:44 +0000
Subject: [PATCH 50/73] fix: a dot in a folder name was taken for the file's
 extension

Files without extension below such a folder, or the server root, were not
sent as text/html.
---
 http_utils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http_utils.c b/http_utils.c
index 42f1e1d..6ce5704 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -110,6 +110,10 @@ int return_headers(api_request *req, char *filename)
 char *get_content_type(char *filename)
 {
 	char *buf = malloc(1024);
+	/* The extension is looked for in the last segment of the path only */
+	char *slash = strrchr(filename, '/');
+	if (slash)
+		filename = slash + 1;
 	char *ext = strrchr(filename, '.');
 	if (!ext || ext == filename)
 		sprintf(buf, CONTENT_TYPE_TEXT_HTML);
-- 
2.43.0


From 5de7426627dddc7d7a7bc5d72b5f8d37dbb81d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:07 +0000
Subject: [PATCH 51/73] fix: connections alive for longer than max_seconds were
 never dropped

---
 ws.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/ws.c b/ws.c
index 04d36b3..1700f28 100644
--- a/ws.c
+++ b/ws.c
@@ -23,6 +23,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
+#include <time.h>
 #include "file_utils.h"
 #include "http_utils.h"
 #include "string_utils.h"
@@ -551,6 +552,7 @@ bool connection_add(int socket, char *IP, char *path)
 		if (!live_connections[i].socket)
 		{
 			live_connections[i].socket = socket;
+			live_connections[i].unix_time = time(NULL);
 			strcpy(live_connections[i].path, path);
 			strcpy(live_connections[i].IP, IP);
 			pthread_mutex_unlock(&live_mutex);
@@ -563,6 +565,38 @@ bool connection_add(int socket, char *IP, char *path)
 	return false;
 }
 
+/* Returns true if a rule for its path allows the connection less time than it is alive */
+static bool connection_expired(connections *connection, long now)
+{
+	for (int i = 0; i < MAX_LIMIT_RULES && *limits[i].path; i++)
+	{
+		if (limits[i].max_seconds > 0 && startswith(connection->path, limits[i].path) && now - connection->unix_time > limits[i].max_seconds)
+		{
+			return true;
+		}
+	}
+	return false;
+}
+
+/* Drops the connections that are alive for longer than max_seconds. Their workers then find the socket shut down */
+static void *connection_watch()
+{
+	while (1)
+	{
+		sleep(1);
+		pthread_mutex_lock(&live_mutex);
+		for (int i = 0; i < WS_MAX_CONNECTIONS; i++)
+		{
+			if (live_connections[i].socket && connection_expired(&live_connections[i], time(NULL)))
+			{
+				shutdown(live_connections[i].socket, SHUT_RDWR);
+			}
+		}
+		pthread_mutex_unlock(&live_mutex);
+	}
+	return NULL;
+}
+
 /**
  * accept_request: Main request handling routine. It performs initial parsing of structures,
  * generates api_request structure
@@ -902,6 +936,8 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 
 	for (int i = 0; i < WS_THREAD_POOL_SIZE; i++)
 		pthread_create(&threadPool[i], NULL, ws_connection_handler, (void *)NULL);
+	pthread_t watch;
+	pthread_create(&watch, NULL, connection_watch, (void *)NULL);
 
 	if (listen(httpd, 5) < 0)
 		log_fatal("Error while listening to socket");
-- 
2.43.0


From aa1456456dc6f7f3821cee07761bfc98ced7635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:25 +0000
Subject: [PATCH 52/73] fix: looking up an empty header leaked its copy

---
 http_utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http_utils.c b/http_utils.c
index 6ce5704..4c6aca0 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -536,7 +536,8 @@ char *http_get_header(api_request *req, char *name)
 	{
 		if (!strcasecmp(req->headers[i].name, name))
 		{
-			return strdup(req->headers[i].value);
+			// As for a missing header, an empty value is not allocated
+			return *req->headers[i].value ? strdup(req->headers[i].value) : "";
 		}
 	}
 	return "";
-- 
2.43.0


From c62c53142bd7b0de8cce4d7f78c3de4a0b1cf5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:33 +0000
Subject: [PATCH 53/73] fix: a path parameter with a long name overflowed the
 buffer for it

---
 router.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.c b/router.c
index 58e1f04..55a12da 100644
--- a/router.c
+++ b/router.c
@@ -83,7 +83,7 @@ char *router_extract_param(const char *path, route_matcher *matcher)
   log_debug("router_extract_param(path=%s,prefix=%s,param=%s)", path, matcher->prefix, matcher->param);
   char *tmp = strdup(path);
   int prefix_len = strlen(matcher->prefix);
-  char *qs = calloc(1, strlen(tmp) + prefix_len + 10);
+  char *qs = calloc(1, strlen(tmp) + strlen(matcher->param) + 10);
   sprintf(qs, "%s=%s", matcher->param, tmp + prefix_len);
   free(tmp);
   return qs;
-- 
2.43.0


From a8639a90d329d542c09388cc5b835ec8370c5c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:49 +0000
Subject: [PATCH 54/73] fix: a parametric route with a character above 127 was
 cut there

---
 router.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.c b/router.c
index 55a12da..b6ac978 100644
--- a/router.c
+++ b/router.c
@@ -66,7 +66,7 @@ void router_resolve_route(const char *template, route_matcher *matcher)
   tmp[strlen(template) - 1] = 0;
   char *prefix = tmp;
   int index = 0;
-  while (*tmp > 0 && *tmp != '{')
+  while (*tmp != 0 && *tmp != '{')
   {
     tmp++;
     index++;
-- 
2.43.0


From 8a4ac08391bcdfb34d6301b9ce8bc8d9501c1f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:02 +0000
Subject: [PATCH 55/73] fix: the largest Content-Length overflowed the size of
 the body

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 1700f28..08c576a 100644
--- a/ws.c
+++ b/ws.c
@@ -336,7 +336,7 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 	if (content_length > 0)
 	{
 		char c = '\0';
-		char *form = malloc(content_length + 1);
+		char *form = malloc((size_t)content_length + 1);
 		long formptr = 0;
 		while (form != NULL && formptr < content_length && http_read_char(req, &c) > 0)
 		{
-- 
2.43.0


From d48762704f290269af366d01b80095d4b807809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:50 +0000
Subject: [PATCH 56/73] fix: a carriage return within a session was sent back
 within a header

---
 ws.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ws.c b/ws.c
index 08c576a..620cedf 100644
--- a/ws.c
+++ b/ws.c
@@ -795,6 +795,9 @@ void accept_request(int socket)
 
 	req->n_headers = headers_idx;
 
+	// The session is sent back in a header: it ends at a line end
+	req->session[strcspn(req->session, "\r\n")] = 0;
+
 	// ROUTE HANDLING LOGIC
 	// query string and path
 	path_and_query_t *pq = get_path_and_query_string(url);
-- 
2.43.0


From 62c141feca6c53012c46f4a125783d44a783be67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:08 +0000
Subject: [PATCH 57/73] fix: an empty form leaked when a path parameter
 replaced it

---
 ws.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ws.c b/ws.c
index 620cedf..2a7bd06 100644
--- a/ws.c
+++ b/ws.c
@@ -320,6 +320,9 @@ char *multipart_parse(char *form, char *IP, char *multipart_boundary, long conte
 	return tmpfields;
 }
 
+/* What the fields of a request hold until they are allocated */
+static char NOTHING[] = "";
+
 void handle_api_request(api_request *req, long content_length, char *multipart_boundary)
 {
 
@@ -358,6 +361,13 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 			req->form = multipart_parse(form, req->IP, multipart_boundary, content_length);
 			free(form);
 		}
+
+		// The router replaces an empty form
+		if (req->form[0] == 0)
+		{
+			free(req->form);
+			req->form = NOTHING;
+		}
 	}
 	// Delegate request to router
 	router_handle_request(req);
@@ -424,9 +434,6 @@ void handle_static_routes(api_request *req)
 	}
 }
 
-/* What the fields of a request hold until they are allocated */
-static char NOTHING[] = "";
-
 static void free_field(char *field)
 {
 	if (field != NOTHING)
-- 
2.43.0


From 6c6fc1d2921f45211edeb2d0cfc2eb71a365d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:40 +0000
Subject: [PATCH 58/73] fix: the usage named an address the server does not
 bind to by default

---
 README.md | 2 +-
 main.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index 8651e19..ad4d327 100644
--- a/README.md
+++ b/README.md
@@ -17,7 +17,7 @@ $ ./wayuu -h
 USAGE: wayuu [-d] [-b ip_addr] [-p port] [-r root] [-f]
 Options:
 -d         : Enabled DEBUG mode
--b ip_addr : Bind to IP address. Default: "0.0.0.0"
+-b ip_addr : Bind to IP address. Default: "127.0.0.1"
 -p port    : Bind to TCP port. Default: 4443
 -r root    : Use root as the root folder for WAYUU. Default: /etc/wayuu
 -f         : HTTP mode
diff --git a/main.c b/main.c
index 3f7e97a..cf86992 100644
--- a/main.c
+++ b/main.c
@@ -35,7 +35,7 @@ void print_usage()
   printf("USAGE: wayuu [-d] [-b ip_addr] [-p port] [-r root] [-f] [-v]\n");
   printf("Options:\n");
   printf("-d         : Enabled DEBUG mode\n");
-  printf("-b ip_addr : Bind to IP address. Default: \"0.0.0.0\"\n");
+  printf("-b ip_addr : Bind to IP address. Default: \"127.0.0.1\"\n");
   printf("-p port    : Bind to TCP port. Default: 4443\n");
   printf("-r root    : Use root as the root folder for WAYUU. Default: /etc/wayuu\n");
   printf("-f         : HTTP mode\n");
-- 
2.43.0


From 92639b0b3302c4ff71796d52e613f6e50263fc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:58 +0000
Subject: [PATCH 59/73] fix: an address that is none was bound to as
 255.255.255.255

---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 2a7bd06..82d43ed 100644
--- a/ws.c
+++ b/ws.c
@@ -931,7 +931,8 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 	memset(&name, 0, sizeof(name));
 	name.sin_family = AF_INET;
 	name.sin_port = htons(port);
-	name.sin_addr.s_addr = inet_addr(bind_addr);
+	if (!inet_aton(bind_addr, &name.sin_addr))
+		log_fatal("Unable to bind to address %s", bind_addr);
 	log_info("WAYUU binding to address: %s", bind_addr);
 	log_info("WAYUU starting on port %d", port);
 	// Set SO_REUSEADDR to prevent no bind on TIME_WAIT. See for instance
-- 
2.43.0


From 99adfc6331ea000a3e6f320da82e94bee0cc2102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:17 +0000
Subject: [PATCH 60/73] fix: look for a part's name in its header only, not in
 its data

---
 ws.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 82d43ed..304bf1a 100644
--- a/ws.c
+++ b/ws.c
@@ -201,7 +201,9 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 {
 
 	long actuallength = length;
-	long start = text_find_after(tmpdata, "form-data; name=\"", 0, strlen(tmpdata));
+	/* The name is in the part's header: what follows is the data */
+	long data_start = text_find_after(tmpdata, "\r\n\r\n", 0, actuallength);
+	long start = text_find_after(tmpdata, "form-data; name=\"", 0, data_start);
 	if (start < 1)
 	{
 		log_warn("IP:%s Multipart error: Form-data not found ", IP);
@@ -216,7 +218,6 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 		memcpy(field, tmpdata + start, bytes);
 		field[bytes] = 0;
 		chop_string(field);
-		long data_start = text_find_after(tmpdata, "\r\n\r\n", 0, actuallength);
 		/* The data is followed by a line end */
 		if (data_start > actuallength - 2)
 		{
-- 
2.43.0


From 747838aa83d26d58029f19d919230b6a5d8e97e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:15 +0000
Subject: [PATCH 61/73] fix: files of 2 GB and more were served cut short or
 not at all

---
 http_utils.c | 20 ++++++++------------
 http_utils.h |  2 +-
 wayuu_log.c  |  2 +-
 3 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 4c6aca0..aa0e573 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -173,29 +173,25 @@ char *get_content_type_for_mime(char *mime)
 	return buf;
 }
 
-int return_file(api_request *req, char *path)
+long return_file(api_request *req, char *path)
 {
 
-	char *src;
+	char src[65536];
+	size_t bytes;
 	long length = 0;
 
 	FILE *file = fopen(path, "rb");
 	if (file)
 	{
 
-		fseek(file, 0, SEEK_END);
-		length = ftell(file);
-		fseek(file, 0, SEEK_SET);
-		src = calloc(length + 5, 1);
-
-		if (src)
+		/* The file can be larger than memory, or than what can be sent at once */
+		while ((bytes = fread(src, 1, sizeof(src), file)) > 0)
 		{
-			fread(src, 1, length, file);
+			http_print(req, src, bytes);
+			length += bytes;
 		}
 
 		fclose(file);
-		http_print(req, src, length);
-		free(src);
 	}
 	return length;
 }
@@ -209,7 +205,7 @@ int direct_file(api_request *req, char *filename)
 		log_warn("File not found: %s", filename);
 		return -1;
 	}
-	int length = return_headers(req, filename);
+	long length = return_headers(req, filename);
 	length += return_file(req, filename);
 	req->response_length = length;
 	log_access(req, 200);
diff --git a/http_utils.h b/http_utils.h
index 33e4df0..0e61b83 100644
--- a/http_utils.h
+++ b/http_utils.h
@@ -124,7 +124,7 @@ typedef struct api_request
   char *session;
   char *request_line;       // The full request line (e.g. GET /index.html HTTP/1.1)
   uint64_t request_start;   // Start time in epoch milliseconds
-  uint32_t response_length; // Length in bytes of the response
+  uint64_t response_length; // Length in bytes of the response
 } api_request;
 
 
diff --git a/wayuu_log.c b/wayuu_log.c
index f695502..a8c76ed 100644
--- a/wayuu_log.c
+++ b/wayuu_log.c
@@ -46,7 +46,7 @@ void log_access(api_request *req, int status)
   FILE *fp = fopen(WAYUU_ANALYTICS_LOG, "a");
   if (fp != NULL)
   {
-    fprintf(fp, "%s - - [%s] \"%s\" %d %u \"%s\" \"%s\" %.3f\n", req->IP, ts, req->request_line, status, req->response_length, referer, ua, response_time(req));
+    fprintf(fp, "%s - - [%s] \"%s\" %d %lu \"%s\" \"%s\" %.3f\n", req->IP, ts, req->request_line, status, req->response_length, referer, ua, response_time(req));
     fclose(fp);
   }
   free(ts);
-- 
2.43.0


From c780d47aba1fb4001b98bd9dce428cd19e17ebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:17 +0000
Subject: [PATCH 62/73] fix: a part of 2 GB or more of a multipart body crashed
 the server

---
 file_utils.c   |  4 ++--
 file_utils.h   |  2 +-
 string_utils.c | 10 +++++-----
 string_utils.h |  2 +-
 ws.c           |  6 +++---
 5 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/file_utils.c b/file_utils.c
index 2471d9d..1c2389d 100644
--- a/file_utils.c
+++ b/file_utils.c
@@ -114,9 +114,9 @@ void read_file(char *out, char *path, uint64_t maxlen)
   }
 }
 
-void write_file(char *filename, char *ptr, int size)
+void write_file(char *filename, char *ptr, long size)
 {
-  log_debug("write_file(filename=%s, size=%d)", filename, size);
+  log_debug("write_file(filename=%s, size=%ld)", filename, size);
   if (is_file(filename))
   {
     remove(filename);
diff --git a/file_utils.h b/file_utils.h
index d18bd41..14b36ff 100644
--- a/file_utils.h
+++ b/file_utils.h
@@ -26,5 +26,5 @@ bool find_in_file(char *path, char *needle);
 bool is_dir(char *path);
 bool is_file(char *path);
 void read_file(char *out, char *path, uint64_t maxlen);
-void write_file(char *filename, char *ptr, int size);
+void write_file(char *filename, char *ptr, long size);
 #endif
\ No newline at end of file
diff --git a/string_utils.c b/string_utils.c
index a0a3194..ffeb1b5 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -27,8 +27,8 @@
 
 void chop_string(char *data)
 {
-  int len = strlen(data);
-  for (int i = 0; i < len; i++)
+  long len = strlen(data);
+  for (long i = 0; i < len; i++)
   {
     if ((unsigned char)data[i] <= 34)
     {
@@ -40,10 +40,10 @@ void chop_string(char *data)
 
 void trim(char *str)
 {
-  int i = 0;
+  long i = 0;
 
   /* Left trim */
-  int len = strlen(str);
+  long len = strlen(str);
   for (i = 0; i < len; i++)
     if (!isspace(str[i]))
       break;
@@ -91,7 +91,7 @@ char *ltrim(const char *str, char sep)
   return strdup(str);
 }
 
-void md5sum(char *out, char *data, int len)
+void md5sum(char *out, char *data, long len)
 {
   int i;
   EVP_MD_CTX *mdctx;
diff --git a/string_utils.h b/string_utils.h
index 43d7872..582028a 100644
--- a/string_utils.h
+++ b/string_utils.h
@@ -38,7 +38,7 @@ typedef struct str_list_t
 /**
  * md5sum: Returns a hex representation of the MD5 of the input 'data' string.
  */
-void md5sum(char *out, char *data, int len);
+void md5sum(char *out, char *data, long len);
 void trim(char *str);
 /**
  * rtrim: Returns a subtring of the original string until the first occurrence of the character 'sep'.
diff --git a/ws.c b/ws.c
index 304bf1a..8515896 100644
--- a/ws.c
+++ b/ws.c
@@ -244,7 +244,7 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 			{
 				char *value = calloc(actuallength + 1, 1);
 				memcpy(value, tmpdata + data_start, actuallength - data_start - 2);
-				sprintf(tmpfields + strlen(tmpfields), "%s=%s", field, value);
+				strcat(strcat(strcat(tmpfields, field), "="), value);
 				free(value);
 			}
 		}
@@ -259,7 +259,7 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
  */
 void save_tmp_file(char *tmpfields, char *field, long start_file, char *tmpdata, long data_start, long actuallength)
 {
-	log_debug("save_tmp_file, start_file: %d, data_start: %d, actuallength: %d", start_file, data_start, actuallength);
+	log_debug("save_tmp_file, start_file: %ld, data_start: %ld, actuallength: %ld", start_file, data_start, actuallength);
 	char orig_filename[MAX_ORIG_FILENAME];
 	strncpy(orig_filename, tmpdata + start_file, MAX_ORIG_FILENAME);
 	// Add string termination to last character to prevent strlen errors.
@@ -307,7 +307,7 @@ char *multipart_parse(char *form, char *IP, char *multipart_boundary, long conte
 		if (part_end < 0)
 			break;
 
-		int tmppart_len = part_end - part_start - strlen(multipart_boundary);
+		long tmppart_len = part_end - part_start - strlen(multipart_boundary);
 		memcpy(tmppart, form + part_start, tmppart_len);
 		tmppart[tmppart_len] = 0;
 
-- 
2.43.0


From 56453295a403bd674fd7d366b5cb71bf0fa6f654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:41 +0000
Subject: [PATCH 63/73] fix: a message after the log file was closed was
 written to freed memory

---
 log.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/log.c b/log.c
index c6e952a..b5adcc6 100644
--- a/log.c
+++ b/log.c
@@ -117,5 +117,9 @@ void log_set_file(char *filename)
 
 void log_close_file()
 {
-  fclose(LOG_FILE);
+  if (LOG_FILE != NULL)
+  {
+    fclose(LOG_FILE);
+  }
+  LOG_FILE = NULL;
 }
-- 
2.43.0


From 8351398bc4f4a2a95fcb6f457d0ee190563ea56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:43 +0000
Subject: [PATCH 64/73] fix: denied addresses were let in while the deny file
 could not be read

---
 ws.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ws.c b/ws.c
index 8515896..46f9a75 100644
--- a/ws.c
+++ b/ws.c
@@ -70,8 +70,8 @@ void wayuu_failed()
 	exit(EXIT_FAILURE);
 }
 
-/* Returns true if ip is one of the lines of the given file */
-static bool address_in_file(char *path, char *ip)
+/* Returns true if ip is one of the lines of the given file, or unreadable if there is a file that cannot be read */
+static bool address_in_file(char *path, char *ip, bool unreadable)
 {
 	if (!is_file(path))
 	{
@@ -81,7 +81,8 @@ static bool address_in_file(char *path, char *ip)
 	FILE *fp = fopen(path, "r");
 	if (fp == NULL)
 	{
-		return false;
+		log_error("Cannot read %s", path);
+		return unreadable;
 	}
 
 	bool found = false;
@@ -105,7 +106,8 @@ bool allowed_address(char *ip)
 		sprintf(WAYUU_WS_DENY, "%s/etc/deny", WAYUU_WS_ROOT);
 	}
 
-	if (address_in_file(WAYUU_WS_DENY, ip))
+	/* Nobody is let in while a list cannot be read */
+	if (address_in_file(WAYUU_WS_DENY, ip, true))
 	{
 		return false;
 	}
@@ -114,7 +116,7 @@ bool allowed_address(char *ip)
 	{
 		return true;
 	}
-	return address_in_file(WAYUU_WS_ALLOW, ip);
+	return address_in_file(WAYUU_WS_ALLOW, ip, false);
 }
 
 int get_line(api_request *req, char *buf, int size)
-- 
2.43.0


From c8daaecfe3e5a7b572021de284291a3a19a1e4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:44 +0000
Subject: [PATCH 65/73] fix: a static file that cannot be opened was answered
 200 with nothing

---
 http_utils.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index aa0e573..6e0d9fb 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -173,25 +173,18 @@ char *get_content_type_for_mime(char *mime)
 	return buf;
 }
 
-long return_file(api_request *req, char *path)
+static long return_file(api_request *req, FILE *file)
 {
 
 	char src[65536];
 	size_t bytes;
 	long length = 0;
 
-	FILE *file = fopen(path, "rb");
-	if (file)
+	/* The file can be larger than memory, or than what can be sent at once */
+	while ((bytes = fread(src, 1, sizeof(src), file)) > 0)
 	{
-
-		/* The file can be larger than memory, or than what can be sent at once */
-		while ((bytes = fread(src, 1, sizeof(src), file)) > 0)
-		{
-			http_print(req, src, bytes);
-			length += bytes;
-		}
-
-		fclose(file);
+		http_print(req, src, bytes);
+		length += bytes;
 	}
 	return length;
 }
@@ -200,13 +193,16 @@ long return_file(api_request *req, char *path)
 
 int direct_file(api_request *req, char *filename)
 {
-	if (!is_file(filename))
+	/* Once the headers are sent, it is too late to find that the file cannot be read */
+	FILE *file = is_file(filename) ? fopen(filename, "rb") : NULL;
+	if (file == NULL)
 	{
 		log_warn("File not found: %s", filename);
 		return -1;
 	}
 	long length = return_headers(req, filename);
-	length += return_file(req, filename);
+	length += return_file(req, file);
+	fclose(file);
 	req->response_length = length;
 	log_access(req, 200);
 	return 0;
-- 
2.43.0


From cd82ac418e984c890f810dab6ec3e2b5e9ecc3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:44 +0000
Subject: [PATCH 66/73] fix: the request of a client that had left was taken
 for another address

---
 ws.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 46f9a75..081b040 100644
--- a/ws.c
+++ b/ws.c
@@ -626,7 +626,13 @@ void accept_request(int socket)
 	req->IP = calloc(24, 1);
 	struct sockaddr_in addr;
 	socklen_t addr_len = sizeof(addr);
-	getpeername(socket, (struct sockaddr *)&addr, &addr_len);
+	if (getpeername(socket, (struct sockaddr *)&addr, &addr_len) < 0)
+	{
+		/* The client is gone already: nobody could receive an answer */
+		close(socket);
+		api_request_free(req);
+		return;
+	}
 	strcpy(req->IP, inet_ntoa(addr.sin_addr));
 	SSL *ssl;
 	// SSL
-- 
2.43.0


From 149c1028ff454452baa4c622387c3be2c3a5b7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:46 +0000
Subject: [PATCH 67/73] fix: handlers ran for uploads that could not be stored

---
 file_utils.c | 11 ++++++-----
 file_utils.h |  2 +-
 ws.c         | 35 +++++++++++++++++++++++++++--------
 ws.h         |  4 ++--
 4 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/file_utils.c b/file_utils.c
index 1c2389d..8e824c0 100644
--- a/file_utils.c
+++ b/file_utils.c
@@ -114,7 +114,7 @@ void read_file(char *out, char *path, uint64_t maxlen)
   }
 }
 
-void write_file(char *filename, char *ptr, long size)
+bool write_file(char *filename, char *ptr, long size)
 {
   log_debug("write_file(filename=%s, size=%ld)", filename, size);
   if (is_file(filename))
@@ -125,12 +125,13 @@ void write_file(char *filename, char *ptr, long size)
   if (f == NULL)
   {
     log_error("There was an error opening file: %s", filename);
-    return;
+    return false;
   }
-  size_t written = fwrite(ptr, 1, size, f);
-  if (written < 0)
+  bool written = fwrite(ptr, 1, size, f) == size;
+  written = !fclose(f) && written;
+  if (!written)
   {
     log_error("There was an error writing file: %s", filename);
   }
-  fclose(f);
+  return written;
 }
diff --git a/file_utils.h b/file_utils.h
index 14b36ff..a8aebec 100644
--- a/file_utils.h
+++ b/file_utils.h
@@ -26,5 +26,5 @@ bool find_in_file(char *path, char *needle);
 bool is_dir(char *path);
 bool is_file(char *path);
 void read_file(char *out, char *path, uint64_t maxlen);
-void write_file(char *filename, char *ptr, long size);
+bool write_file(char *filename, char *ptr, long size);
 #endif
\ No newline at end of file
diff --git a/ws.c b/ws.c
index 081b040..6cbcf93 100644
--- a/ws.c
+++ b/ws.c
@@ -199,17 +199,19 @@ void configure_context(SSL_CTX *ctx)
 	}
 }
 
-void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
+/* Returns false if a file cannot be stored */
+bool part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 {
 
 	long actuallength = length;
+	bool stored = true;
 	/* The name is in the part's header: what follows is the data */
 	long data_start = text_find_after(tmpdata, "\r\n\r\n", 0, actuallength);
 	long start = text_find_after(tmpdata, "form-data; name=\"", 0, data_start);
 	if (start < 1)
 	{
 		log_warn("IP:%s Multipart error: Form-data not found ", IP);
-		return;
+		return true;
 	}
 
 	if (strlen(tmpdata + start) > 0)
@@ -225,7 +227,7 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 		{
 			log_warn("IP:%s Multipart error: part is cut short", IP);
 			free(field);
-			return;
+			return true;
 		}
 		/* If there is already data in tmpfields, start with & */
 		if (strlen(tmpfields) > 0)
@@ -238,7 +240,7 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 			/* Save filename */
 			if (start_file > 0)
 			{
-				save_tmp_file(tmpfields, field, start_file, tmpdata, data_start, actuallength);
+				stored = save_tmp_file(tmpfields, field, start_file, tmpdata, data_start, actuallength);
 			}
 
 			/* It is a form field: Save field value */
@@ -253,13 +255,14 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 
 		free(field);
 	}
+	return stored;
 }
 
 // TODO: Make this work for multiple file downloads
 /**
  * save_tmp_file: Saves a file into FILE_DOWNLOAD_TMP_DIR, and stores the file name in tmpfields as well as the original filename
  */
-void save_tmp_file(char *tmpfields, char *field, long start_file, char *tmpdata, long data_start, long actuallength)
+bool save_tmp_file(char *tmpfields, char *field, long start_file, char *tmpdata, long data_start, long actuallength)
 {
 	log_debug("save_tmp_file, start_file: %ld, data_start: %ld, actuallength: %ld", start_file, data_start, actuallength);
 	char orig_filename[MAX_ORIG_FILENAME];
@@ -283,11 +286,16 @@ void save_tmp_file(char *tmpfields, char *field, long start_file, char *tmpdata,
 	sprintf(tmpfile, "%lu-%s", pthread_self(), md5);
 	sprintf(tmpfilepath, "%s/%s", FILE_DOWNLOAD_TMP_DIR, tmpfile);
 
-	write_file(tmpfilepath, tmpdata + data_start, actuallength - data_start - 2);
+	if (!write_file(tmpfilepath, tmpdata + data_start, actuallength - data_start - 2))
+	{
+		remove(tmpfilepath);
+		return false;
+	}
 	sprintf(tmpfields + strlen(tmpfields), "%s=%s&tmpfile=%s", field, orig_filename, tmpfile);
+	return true;
 }
 
-/* Returns the form fields, dynamically allocated */
+/* Returns the form fields, dynamically allocated, or NULL if a file cannot be stored */
 char *multipart_parse(char *form, char *IP, char *multipart_boundary, long content_length)
 {
 
@@ -313,7 +321,12 @@ char *multipart_parse(char *form, char *IP, char *multipart_boundary, long conte
 		memcpy(tmppart, form + part_start, tmppart_len);
 		tmppart[tmppart_len] = 0;
 
-		part_parse(IP, tmpfields, tmppart, tmppart_len);
+		if (!part_parse(IP, tmpfields, tmppart, tmppart_len))
+		{
+			free(tmppart);
+			free(tmpfields);
+			return NULL;
+		}
 
 		trim(tmppart);
 		ptr = part_start + 1;
@@ -363,6 +376,12 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 		{
 			req->form = multipart_parse(form, req->IP, multipart_boundary, content_length);
 			free(form);
+			if (req->form == NULL)
+			{
+				req->form = NOTHING;
+				internal_server_error(req);
+				return;
+			}
 		}
 
 		// The router replaces an empty form
diff --git a/ws.h b/ws.h
index f3c0cdb..14d132b 100644
--- a/ws.h
+++ b/ws.h
@@ -98,12 +98,12 @@ void handle_static_routes(api_request *req);
 /**
  * part_parse: Handles parsing each of the parts of a multipart POST
  */
-void part_parse(char *IP, char *tmpfields, char *tmpdata, long length);
+bool part_parse(char *IP, char *tmpfields, char *tmpdata, long length);
 
 /**
  * save_tmp_file: Saves a file into SCAN_TMP_DIR, and stores the file name in tmpfields as well as the original filename
  */
-void save_tmp_file(char *tmpfields, char *field, long start_file, char *tmpdata, long data_start, long actuallength);
+bool save_tmp_file(char *tmpfields, char *field, long start_file, char *tmpdata, long data_start, long actuallength);
 
 /**
  * wayuu_failed: Exits with EXIT_FAILURE and warns via STDOUT showing log location
-- 
2.43.0


From 02ddb3461c7af139f934f8fde2f5c1891f48a54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:46 +0000
Subject: [PATCH 68/73] fix: a configuration that could not be written was
 reported as written

---
 conf_parser.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/conf_parser.c b/conf_parser.c
index 00f8060..1f14af2 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -252,7 +252,13 @@ int write_conf(void *input, conf_serializer serializer)
     free(itemString);
   }
   free_serializable(s);
-  fclose(file);
+  // What does not fit on the disk may only be found now
+  bool failed = ferror(file);
+  if (fclose(file) || failed)
+  {
+    perror("Unable to write configuration");
+    return -1;
+  }
   return 0;
 }
 
-- 
2.43.0


From 93afbc122b506bebc56859236db9187a45fa55bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:13 +0000
Subject: [PATCH 69/73] fix: reading the beginning of a file larger than memory
 crashed

---
 file_utils.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/file_utils.c b/file_utils.c
index 8e824c0..bd35a3a 100644
--- a/file_utils.c
+++ b/file_utils.c
@@ -83,7 +83,6 @@ bool is_file(char *path)
 void read_file(char *out, char *path, uint64_t maxlen)
 {
 
-  char *src;
   uint64_t length = 0;
   out[0] = 0;
 
@@ -99,18 +98,13 @@ void read_file(char *out, char *path, uint64_t maxlen)
     fseek(file, 0, SEEK_END);
     length = ftell(file);
     fseek(file, 0, SEEK_SET);
-    src = calloc(length, 1);
-    if (src)
-    {
-      fread(src, 1, length, file);
-    }
-    fclose(file);
+    /* The file can be larger than memory: only what is asked for is read */
     if (maxlen > 0)
       if (length > maxlen - 1)
         length = maxlen - 1;
-    memcpy(out, src, length);
+    length = fread(out, 1, length, file);
     out[length] = 0;
-    free(src);
+    fclose(file);
   }
 }
 
-- 
2.43.0


From 84d1d4bce761ec53657ab81686b28cdcda3d9ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:51 +0000
Subject: [PATCH 70/73] fix: a body too large for memory crashed the server

---
 router.c | 10 +++++++++-
 ws.c     | 17 +++++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/router.c b/router.c
index b6ac978..2a8d6ad 100644
--- a/router.c
+++ b/router.c
@@ -151,7 +151,15 @@ void router_handle_request(api_request *request)
       else
       {
         // The form has no room left behind the request body
-        request->form = realloc(request->form, strlen(request->form) + strlen(qs) + 2);
+        char *form = realloc(request->form, strlen(request->form) + strlen(qs) + 2);
+        if (form == NULL)
+        {
+          free(qs);
+          free(matcher);
+          internal_server_error(request);
+          return;
+        }
+        request->form = form;
         strcat(request->form, "&");
         strcat(request->form, qs);
       }
diff --git a/ws.c b/ws.c
index 6cbcf93..32053f6 100644
--- a/ws.c
+++ b/ws.c
@@ -199,7 +199,7 @@ void configure_context(SSL_CTX *ctx)
 	}
 }
 
-/* Returns false if a file cannot be stored */
+/* Returns false if a file cannot be stored, or memory is short */
 bool part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 {
 
@@ -217,6 +217,8 @@ bool part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 	if (strlen(tmpdata + start) > 0)
 	{
 		char *field = calloc(actuallength + 1, 1);
+		if (field == NULL)
+			return false;
 		long bytes = actuallength - start;
 
 		memcpy(field, tmpdata + start, bytes);
@@ -247,6 +249,11 @@ bool part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 			else
 			{
 				char *value = calloc(actuallength + 1, 1);
+				if (value == NULL)
+				{
+					free(field);
+					return false;
+				}
 				memcpy(value, tmpdata + data_start, actuallength - data_start - 2);
 				strcat(strcat(strcat(tmpfields, field), "="), value);
 				free(value);
@@ -295,13 +302,19 @@ bool save_tmp_file(char *tmpfields, char *field, long start_file, char *tmpdata,
 	return true;
 }
 
-/* Returns the form fields, dynamically allocated, or NULL if a file cannot be stored */
+/* Returns the form fields, dynamically allocated, or NULL if a file cannot be stored or memory is short */
 char *multipart_parse(char *form, char *IP, char *multipart_boundary, long content_length)
 {
 
 	char *tmppart = calloc(content_length + 1, 1);
 	/* A file part takes 35 bytes or more, and adds at most 64 to its field and file names */
 	char *tmpfields = calloc(3 * content_length + 128, 1);
+	if (tmppart == NULL || tmpfields == NULL)
+	{
+		free(tmppart);
+		free(tmpfields);
+		return NULL;
+	}
 
 	long ptr = 0;
 	long part_start;
-- 
2.43.0


From 2dd1496b839a805e33e52b84b6f789e4e1425591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:35 +0000
Subject: [PATCH 71/73] fix: send responses of 2 GB and more whole, and count
 them

---
 http_utils.c | 18 +++++++++++++-----
 http_utils.h |  3 ++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 6e0d9fb..18e3b3a 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -211,10 +211,10 @@ int direct_file(api_request *req, char *filename)
 /**
  * send_stream: Read from file until end and streams response until end. It doesn't send any HTTP headers.
  */
-int send_stream(api_request *req, FILE *fp)
+long send_stream(api_request *req, FILE *fp)
 {
 	char buf[1024];
-	int len = 0;
+	long len = 0;
 	while (fgets(buf, sizeof(buf) - 1, fp) != NULL)
 	{
 		int s = strlen(buf);
@@ -259,7 +259,15 @@ void http_print(api_request *req, void *data, int length)
  */
 void http_print_str(api_request *req, char *data)
 {
-	http_print(req, data, strlen(data));
+	size_t length = strlen(data);
+	/* The length that http_print takes, and what can be sent at once, are limited */
+	while (length > HTTP_MAX_PRINT)
+	{
+		http_print(req, data, HTTP_MAX_PRINT);
+		data += HTTP_MAX_PRINT;
+		length -= HTTP_MAX_PRINT;
+	}
+	http_print(req, data, length);
 }
 
 void return_json(api_request *req, char *data)
@@ -316,7 +324,7 @@ int return_headers_with_mime(api_request *req, int status, char *mime)
 
 void return_json_stream(api_request *req, int status, FILE *fp)
 {
-	int len = return_json_headers(req, status);
+	long len = return_json_headers(req, status);
 	if (len == 0)
 	{
 		return;
@@ -331,7 +339,7 @@ void return_json_stream(api_request *req, int status, FILE *fp)
 
 void return_json_with_status(api_request *req, int status, char *data)
 {
-	int len = return_json_headers(req, status);
+	long len = return_json_headers(req, status);
 	if (len == 0)
 	{
 		return;
diff --git a/http_utils.h b/http_utils.h
index 0e61b83..dd637a5 100644
--- a/http_utils.h
+++ b/http_utils.h
@@ -70,6 +70,7 @@
 
 #define HTTP_MAX_PATH 512 // Max path length in URI
 #define HTTP_MAX_IP 16 // Max length of an IP address
+#define HTTP_MAX_PRINT (1 << 30) // Max length handed to http_print at once
 
 
 
@@ -171,7 +172,7 @@ void return_json_stream(api_request *req, int status, FILE *fp);
 void http_print(api_request *req, void *data, int length);
 void http_print_str(api_request *req, char *data);
 int direct_file(api_request *req, char *filename);
-int send_stream(api_request *req, FILE *fp);
+long send_stream(api_request *req, FILE *fp);
 void send_empty_line(api_request *req);
 
 // Helper methods for returning HTTP Status
-- 
2.43.0


From 00b84dac626c851df755bed2986589a37840230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:58 +0000
Subject: [PATCH 72/73] fix: do not cut answers short when the client sent more
 than its request

Closing a socket that has unread data resets the connection and
discards what was not delivered yet: a large file came incomplete
when the request had a body, or anything followed it.
---
 ws.c | 18 ++++++++++++++++++
 ws.h |  2 ++
 2 files changed, 20 insertions(+)

diff --git a/ws.c b/ws.c
index 32053f6..5796bf7 100644
--- a/ws.c
+++ b/ws.c
@@ -550,6 +550,23 @@ bool connection_validate(char *IP, char *path)
 	return true;
 }
 
+/* Closing a socket with unread data discards what the client did not receive yet. If it sent more than its request,
+   it is given some time to receive the answer and close */
+static void drop_unread(int socket)
+{
+	char unread[1024];
+	if (recv(socket, unread, sizeof(unread), MSG_DONTWAIT) <= 0)
+	{
+		return;
+	}
+	shutdown(socket, SHUT_WR);
+	struct timeval wait = {WS_LINGER_SECONDS, 0};
+	setsockopt(socket, SOL_SOCKET, SO_RCVTIMEO, &wait, sizeof(wait));
+	time_t end = time(NULL) + WS_LINGER_SECONDS;
+	while (recv(socket, unread, sizeof(unread), 0) > 0 && time(NULL) <= end)
+		;
+}
+
 void connection_close(api_request *req)
 {
 	if (WAYUU_SSL_ON)
@@ -559,6 +576,7 @@ void connection_close(api_request *req)
 	}
 	/* Once closed, the socket number can be that of a new connection */
 	connection_del(req->socket);
+	drop_unread(req->socket);
 	close(req->socket);
 }
 
diff --git a/ws.h b/ws.h
index 14d132b..dfa4ab8 100644
--- a/ws.h
+++ b/ws.h
@@ -34,6 +34,8 @@
 #define WS_THREAD_POOL_SIZE 200
 // Maximum amount of connections held in the WS queue
 #define WS_MAX_CONNECTIONS 1024
+// Time that a client who sent more than its request is given to receive the answer
+#define WS_LINGER_SECONDS 2
 
 #define DEFAULT_PORT 4443
 // This is the default folder for configuration.
-- 
2.43.0


From 134a6a33fff3a6b0515078cc7f95958c5195adad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:14 +0000
Subject: [PATCH 73/73] fix: closing the log while standard error is logged to
 lost all further messages

---
 log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log.c b/log.c
index b5adcc6..a0463fe 100644
--- a/log.c
+++ b/log.c
@@ -117,7 +117,7 @@ void log_set_file(char *filename)
 
 void log_close_file()
 {
-  if (LOG_FILE != NULL)
+  if (LOG_FILE != NULL && LOG_FILE != stderr)
   {
     fclose(LOG_FILE);
   }
-- 
2.43.0


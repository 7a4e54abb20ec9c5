From fdeed9a0f43901cb39c780e1a1fa2b3b60308168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 01/14] fix: do not overflow path buffers for paths longer than
 path_max_length

---
 src/src/commands/ush_cmd_ls.c |  2 +-
 src/src/ush_node.c            | 13 +++++++++++++
 src/src/ush_node_utils.c      |  3 +++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/src/commands/ush_cmd_ls.c b/src/src/commands/ush_cmd_ls.c
index 7d1de82..5842500 100644
--- a/src/src/commands/ush_cmd_ls.c
+++ b/src/src/commands/ush_cmd_ls.c
@@ -43,7 +43,7 @@ void ush_buildin_cmd_ls_callback(struct ush_object *self, struct ush_file_descri
                 char abs_path[self->desc->path_max_length];
                 ush_node_get_absolute_path(self, argv[1], abs_path);
 
-                self->process_node = ush_node_get_by_path(self, abs_path);
+                self->process_node = (abs_path[0] != '\0') ? ush_node_get_by_path(self, abs_path) : NULL;
                 if (self->process_node == NULL) {
                         ush_print_status(self, USH_STATUS_ERROR_NODE_NOT_FOUND);
                         return;
diff --git a/src/src/ush_node.c b/src/src/ush_node.c
index cf7544f..8c4774b 100644
--- a/src/src/ush_node.c
+++ b/src/src/ush_node.c
@@ -75,6 +75,19 @@ void ush_node_get_absolute_path(struct ush_object *self, const char *in_path, ch
         USH_ASSERT(in_path != NULL);
         USH_ASSERT(out_path != NULL);
 
+        size_t abs_path_size = strlen(in_path) + 1;
+        if (in_path[0] != '/') {
+                abs_path_size += strlen(self->current_node->path);
+                if (strcmp(self->current_node->path, "/") != 0)
+                        abs_path_size++;
+        }
+
+        /* path does not fit in the working buffers */
+        if (abs_path_size > self->desc->path_max_length) {
+                out_path[0] = '\0';
+                return;
+        }
+
         if (in_path[0] == '/') {
                 strcpy(abs_path, in_path);
         } else {
diff --git a/src/src/ush_node_utils.c b/src/src/ush_node_utils.c
index 9321a28..b4a2467 100644
--- a/src/src/ush_node_utils.c
+++ b/src/src/ush_node_utils.c
@@ -54,6 +54,9 @@ ush_status_t ush_node_set_current_dir(struct ush_object *self, const char *path)
         char abs_path[self->desc->path_max_length];
         
         ush_node_get_absolute_path(self, path, abs_path);
+        if (abs_path[0] == '\0')
+                return USH_STATUS_ERROR_NODE_NOT_FOUND;
+
         struct ush_node_object *node = ush_node_get_by_path(self, abs_path);
         if (node != NULL) {
                 self->current_node = node;
-- 
2.43.0


From 0078c05d59c3b88e5d1d25de1e3530e0492df985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:05 +0000
Subject: [PATCH 02/14] fix: do not complete a name which does not fit in the
 input buffer

---
 src/src/ush_autocomp_state.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/src/ush_autocomp_state.c b/src/src/ush_autocomp_state.c
index 6a08f00..c715a49 100644
--- a/src/src/ush_autocomp_state.c
+++ b/src/src/ush_autocomp_state.c
@@ -85,6 +85,12 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                         self->state = USH_STATE_READ_CHAR;
                         break;
                 case 1: {
+                        size_t prefix_len = self->autocomp_input - self->desc->input_buffer;
+                        if (prefix_len + strlen(self->autocomp_candidate_name) >= self->desc->input_buffer_size) {
+                                /* completed name does not fit */
+                                self->state = USH_STATE_READ_CHAR;
+                                break;
+                        }
                         char *suffix = self->autocomp_input + strlen(self->autocomp_input);
                         strcpy(self->autocomp_input, self->autocomp_candidate_name);
                         self->in_pos = strlen(self->desc->input_buffer);
-- 
2.43.0


From a48cae62396b314612eee746b9e19f3675800ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:05 +0000
Subject: [PATCH 03/14] fix: stop completing a common prefix when the input
 buffer is full

---
 src/src/ush_autocomp_state.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/src/ush_autocomp_state.c b/src/src/ush_autocomp_state.c
index c715a49..50f3323 100644
--- a/src/src/ush_autocomp_state.c
+++ b/src/src/ush_autocomp_state.c
@@ -99,6 +99,11 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                 }
                 default:
                         self->autocomp_suffix_len = 0;
+                        if (self->in_pos + 1 >= self->desc->input_buffer_size) {
+                                /* no space for next char */
+                                self->state = USH_STATE_AUTOCOMP_RECALL_SUFFIX;
+                                break;
+                        }
                         ush_autocomp_optimize_continue(self);
                         break;
                 }
@@ -114,6 +119,12 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                         return;
                 }
 
+                if (self->in_pos + 1 >= self->desc->input_buffer_size) {
+                        /* no space for next char */
+                        self->state = USH_STATE_AUTOCOMP_RECALL_SUFFIX;
+                        return;
+                }
+
                 ush_autocomp_optimize_continue(self);
         } else {
                 USH_ASSERT(false);
-- 
2.43.0


From 3e2b8f386bceb32c67ae4eca8641c91b2c84a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:19 +0000
Subject: [PATCH 04/14] fix: keep input position consistent when completing a
 line with nul chars

---
 src/src/ush_autocomp_state.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/src/ush_autocomp_state.c b/src/src/ush_autocomp_state.c
index 50f3323..5924314 100644
--- a/src/src/ush_autocomp_state.c
+++ b/src/src/ush_autocomp_state.c
@@ -44,6 +44,8 @@ void ush_autocomp_state_recall_suffix(struct ush_object *self)
 
 void ush_autocomp_state_prepare(struct ush_object *self)
 {
+        /* drop chars hidden behind nul char typed by user */
+        self->in_pos = strlen(self->desc->input_buffer);
         self->autocomp_input = ush_utils_get_last_arg(self->desc->input_buffer);
         self->state = USH_STATE_AUTOCOMP_CANDIDATES_START;
 }
-- 
2.43.0


From d08983c2f6df541da6a014d782c2a22bbcad2169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:19 +0000
Subject: [PATCH 05/14] fix: echo printed stale chars behind decoded string

---
 src/src/commands/ush_cmd_echo.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/src/commands/ush_cmd_echo.c b/src/src/commands/ush_cmd_echo.c
index fe336d8..be5030f 100644
--- a/src/src/commands/ush_cmd_echo.c
+++ b/src/src/commands/ush_cmd_echo.c
@@ -62,6 +62,9 @@ void ush_buildin_cmd_echo_callback(struct ush_object *self, struct ush_file_desc
                 char *data_in = argv[1];
                 size_t max_size = strlen(data_in);
                 data_size = ush_utils_decode_ascii(data_in, (uint8_t*)data_in, max_size);
+                /* decoding in place can only shorten the string */
+                if (data_size < max_size)
+                        data_in[data_size] = '\0';
                 data = (uint8_t*)data_in;
         }
                 /* fallthrough */
-- 
2.43.0


From a569e564a0d1abccbf22341cd138dc70fb792885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:20 +0000
Subject: [PATCH 06/14] fix: ush_printf error message exceeded output buffer

---
 src/src/ush.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/src/ush.c b/src/src/ush.c
index 0070f6a..7f65fa6 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -154,14 +154,19 @@ void ush_printf(struct ush_object *self, const char *format, ...)
                 }
 
                 /* Do the error message fit into output_buffer pointed to by self->write_buf? */
-                if (self->desc->output_buffer_size - strlen(self->write_buf) >= strlen(error_msg)) {
+                if (self->desc->output_buffer_size - strlen(self->write_buf) > strlen(error_msg)) {
                         /* Error message fits */
                         size_t end_idx = strlen(self->write_buf);
                         (void)snprintf(&self->write_buf[end_idx], error_msg_size, "%s", error_msg);
                         self->write_size += strlen(&self->write_buf[end_idx]);
                 } else {
                         /* Error message does NOT fit */
-                        size_t end_idx = self->desc->output_buffer_size - error_msg_size;
+                        size_t end_idx = 0;
+                        if (self->desc->output_buffer_size >= (size_t)error_msg_size) {
+                                end_idx = self->desc->output_buffer_size - error_msg_size;
+                        } else {
+                                error_msg_size = self->desc->output_buffer_size;
+                        }
                         (void)snprintf(&self->write_buf[end_idx], error_msg_size, "%s", error_msg);
                         self->write_size = self->desc->output_buffer_size;
                 }
-- 
2.43.0


From 7a4ae267c1e7c9ae93e19e4b094b8eb2fff62d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 07/14] fix: long names overflowed output buffer in ls and help

---
 src/src/commands/ush_cmd_help.c | 4 ++--
 src/src/commands/ush_cmd_ls.c   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/src/commands/ush_cmd_help.c b/src/src/commands/ush_cmd_help.c
index c63f8a8..116ec0d 100644
--- a/src/src/commands/ush_cmd_help.c
+++ b/src/src/commands/ush_cmd_help.c
@@ -88,10 +88,10 @@ bool ush_buildin_cmd_help_service(struct ush_object *self, struct ush_file_descr
                 switch (self->process_index) {
                 case 0:        
                         if (f->description != NULL) {
-                                sprintf(self->desc->output_buffer, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
                                 self->process_index = 1;
                         } else {
-                                sprintf(self->desc->output_buffer, "%s", (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%s", (char*)f->name);
                                 self->process_index = 2;
                         }
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
diff --git a/src/src/commands/ush_cmd_ls.c b/src/src/commands/ush_cmd_ls.c
index 5842500..a61624b 100644
--- a/src/src/commands/ush_cmd_ls.c
+++ b/src/src/commands/ush_cmd_ls.c
@@ -129,17 +129,17 @@ bool ush_buildin_cmd_ls_service(struct ush_object *self, struct ush_file_descrip
                         char is_write = (f->set_data != NULL) ? 'w' : '-';
                         char is_exec = (f->exec != NULL) ? 'x' : '-';
                         char is_help = (f->help != NULL) ? 'h' : '-';
-                        sprintf(self->desc->output_buffer, "-%c%c%c%c ", is_read, is_write, is_exec, is_help);
+                        snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "-%c%c%c%c ", is_read, is_write, is_exec, is_help);
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         self->process_index = 1;
                         break;
                 }
                 case 1:
                         if (f->description != NULL) {
-                                sprintf(self->desc->output_buffer, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
                                 self->process_index = 2;
                         } else {
-                                sprintf(self->desc->output_buffer, "%s", (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%s", (char*)f->name);
                                 self->process_index = 3;
                         }
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
-- 
2.43.0


From 714a76bd98e008fe08630e94ce3f95d73132a8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 08/14] fix: current directory pointed to unmounted node

---
 src/src/ush_node_mount.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/src/ush_node_mount.c b/src/src/ush_node_mount.c
index fb0c65e..f83d77a 100644
--- a/src/src/ush_node_mount.c
+++ b/src/src/ush_node_mount.c
@@ -97,6 +97,8 @@ ush_status_t ush_node_unmount(struct ush_object *self, const char *path)
                 } else {
                         prev->next = node->next;
                 }
+                if (self->current_node == node)
+                        self->current_node = parent_node;
                 return USH_STATUS_OK;           
         }
 
-- 
2.43.0


From ebef9c18c52dbbfd8ada09c55f45104c4e465f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 09/14] fix: initialize commands list in ush_init

---
 src/src/ush.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/ush.c b/src/src/ush.c
index 7f65fa6..a408713 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -48,6 +48,7 @@ void ush_init(struct ush_object *self, const struct ush_descriptor *desc)
 
         self->desc = desc;
         self->root = NULL;
+        self->commands = NULL;
 
 #if USH_CONFIG_ENABLE_FEATURE_COMMANDS == 1
         ush_status_t stat = ush_commands_add(self, &self->buildin_commands, g_ush_buildin_commands, g_ush_buildin_commands_num);
-- 
2.43.0


From 44db796b9728cddd638373cdf6e7454cb10446e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 10/14] fix: failed mount modified node object

---
 src/src/ush_node_mount.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/src/ush_node_mount.c b/src/src/ush_node_mount.c
index f83d77a..62901b2 100644
--- a/src/src/ush_node_mount.c
+++ b/src/src/ush_node_mount.c
@@ -37,16 +37,15 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
                 USH_ASSERT(file_list[i].name != NULL);
         }
 
-        node->file_list = file_list;
-        node->file_list_size = file_list_size;
-        node->path = path;
-
         struct ush_node_object *node_exists = ush_node_get_by_path(self, path);
         if (node_exists != NULL)
                 return USH_STATUS_ERROR_NODE_ALREADY_MOUNTED;
 
         struct ush_node_object *node_parent = ush_node_get_parent_by_path(self, path);
         if (node_parent != NULL) {
+                node->file_list = file_list;
+                node->file_list_size = file_list_size;
+                node->path = path;
                 node->next = node_parent->children;
                 node_parent->children = node;
                 node->parent = node_parent;
@@ -54,6 +53,9 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
         }
 
         if (strcmp(path, "/") == 0) {
+                node->file_list = file_list;
+                node->file_list_size = file_list_size;
+                node->path = path;
                 node->next = NULL;
                 self->root = node;
                 self->current_node = self->root;
-- 
2.43.0


From cf3602dd0ce76a8574e9f0015811b717ec120bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 11/14] fix: reject input buffer without space for any char

---
 src/src/ush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/ush.c b/src/src/ush.c
index a408713..a57131b 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -36,7 +36,7 @@ void ush_init(struct ush_object *self, const struct ush_descriptor *desc)
         USH_ASSERT(desc != NULL);
 
         USH_ASSERT(desc->input_buffer != NULL);
-        USH_ASSERT(desc->input_buffer_size > 0);
+        USH_ASSERT(desc->input_buffer_size > 1); /* at least one char with terminator */
         USH_ASSERT(desc->output_buffer != NULL);
         USH_ASSERT(desc->output_buffer_size >= 4); /* internal echo buffer */
 
-- 
2.43.0


From b99d91f074fceac572bc6451ff53e057f67e299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 12/14] fix: cat crashed when file disappeared during printing

---
 src/src/commands/ush_cmd_cat.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/src/commands/ush_cmd_cat.c b/src/src/commands/ush_cmd_cat.c
index 78636c5..3defd11 100644
--- a/src/src/commands/ush_cmd_cat.c
+++ b/src/src/commands/ush_cmd_cat.c
@@ -79,6 +79,11 @@ bool ush_buildin_cmd_cat_service(struct ush_object *self, struct ush_file_descri
                 ush_parse_get_args(self, argv);
 
                 struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[self->process_index_item]);
+                if ((f == NULL) || (f->get_data == NULL)) {
+                        /* file disappeared in the meantime */
+                        self->state = USH_STATE_PROCESS_FINISH;
+                        break;
+                }
 
                 uint8_t *data;
                 size_t data_size = f->get_data(self, f, &data);
-- 
2.43.0


From 79ecd0b303237310953d5d45f8d59dbebefc14ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 13/14] fix: last argument behind single leading space

---
 src/src/ush_utils.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/src/ush_utils.c b/src/src/ush_utils.c
index 6278f6f..4cd5ea1 100644
--- a/src/src/ush_utils.c
+++ b/src/src/ush_utils.c
@@ -212,6 +212,9 @@ char* ush_utils_get_last_arg(const char *input)
                 len--;
         }
 
+        if (input[0] == ' ')
+                return (char*)&input[1];
+
         return (char*)input;
 }
 
-- 
2.43.0


From 2d4ced3c9c42ada4e089612e0aad95c3f5b4bafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:46 +0000
Subject: [PATCH 14/14] fix: xxd rows overflowed small output buffers

---
 src/src/commands/ush_cmd_xxd.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/src/commands/ush_cmd_xxd.c b/src/src/commands/ush_cmd_xxd.c
index 27d6ef5..01cec91 100644
--- a/src/src/commands/ush_cmd_xxd.c
+++ b/src/src/commands/ush_cmd_xxd.c
@@ -77,7 +77,7 @@ bool ush_buildin_cmd_xxd_service(struct ush_object *self, struct ush_file_descri
         case USH_STATE_PROCESS_SERVICE: {
                 switch (self->process_index) {
                 case 0:
-                        sprintf(self->desc->output_buffer, "%08lX: ", self->process_index_item);
+                        snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%08lX: ", self->process_index_item);
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         self->process_index = 1;
                         break;
@@ -85,14 +85,18 @@ bool ush_buildin_cmd_xxd_service(struct ush_object *self, struct ush_file_descri
                         self->desc->output_buffer[0] = '\0';
                         for (size_t i = 0; i < USH_CMD_XXD_COLUMNS; i++) {
                                 size_t offset = self->process_index_item + i;
+                                size_t len = strlen(self->desc->output_buffer);
+                                char *out = &self->desc->output_buffer[len];
+                                size_t out_size = self->desc->output_buffer_size - len;
                                 if (offset < self->process_data_size) {
                                         uint8_t b = self->process_data[offset];
-                                        sprintf(&self->desc->output_buffer[strlen(self->desc->output_buffer)], "%02X ", b);
+                                        snprintf(out, out_size, "%02X ", b);
                                 } else {
-                                        strcat(self->desc->output_buffer, "   ");
+                                        snprintf(out, out_size, "   ");
                                 }
                         }
-                        strcat(self->desc->output_buffer, " ");
+                        size_t end = strlen(self->desc->output_buffer);
+                        snprintf(&self->desc->output_buffer[end], self->desc->output_buffer_size - end, " ");
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         self->process_index = 2;
                         break;
@@ -101,15 +105,18 @@ bool ush_buildin_cmd_xxd_service(struct ush_object *self, struct ush_file_descri
                         self->desc->output_buffer[0] = '\0';
                         for (size_t i = 0; i < USH_CMD_XXD_COLUMNS; i++) {
                                 size_t offset = self->process_index_item;
+                                size_t len = strlen(self->desc->output_buffer);
+                                char *out = &self->desc->output_buffer[len];
+                                size_t out_size = self->desc->output_buffer_size - len;
                                 if (offset < self->process_data_size) {
                                         uint8_t b = self->process_data[offset];
                                         if (ush_utils_is_printable(b) != false) {
-                                                sprintf(&self->desc->output_buffer[strlen(self->desc->output_buffer)], "%c", (char)b);
+                                                snprintf(out, out_size, "%c", (char)b);
                                         } else {
-                                                strcat(self->desc->output_buffer, ".");
+                                                snprintf(out, out_size, ".");
                                         }
                                 } else {
-                                        strcat(self->desc->output_buffer, " ");
+                                        snprintf(out, out_size, " ");
                                 }
                                 self->process_index_item++;
                         }
-- 
2.43.0


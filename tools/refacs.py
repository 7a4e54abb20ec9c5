"""Behaviour-preserving edits for refac.py: name -> [(file, old, new)..]"""
REFACS = {}


def R(name, *edits): REFACS[name] = list(edits)


# ---- ush_utils.c
U = 'ush_utils.c'
R('join-nested', (U, '''        if (strcmp(out_path, "/") == 0) {
                strcat(out_path, name);
        } else {
                strcat(out_path, "/");
                strcat(out_path, name);
        }''', '''        if (strcmp(out_path, "/") != 0)
                strcat(out_path, "/");
        strcat(out_path, name);'''))
R('join-manual-end', (U, '''        if (strcmp(out_path, "/") == 0) {
                strcat(out_path, name);
        } else {
                strcat(out_path, "/");
                strcat(out_path, name);
        }''', '''        size_t end = strlen(out_path);
        if (strcmp(in_path, "/") != 0)
                out_path[end++] = '/';
        strcpy(out_path + end, name);'''))
R('levels-for', (U, '''        size_t count = 1;

        while (*path) {
                path++;
                if (*path == '/')
                        count++;
        }

        return count;''', '''        size_t count = 1;

        for (path++; *path != '\\0'; path++) {
                if (*path == '/')
                        count++;
        }

        return count;'''))
R('levels-index', (U, '''        size_t count = 1;

        while (*path) {
                path++;
                if (*path == '/')
                        count++;
        }

        return count;''', '''        size_t count = 1;
        size_t i = 0;

        while (path[i] != '\\0') {
                i++;
                if (path[i] == '/')
                        count++;
        }

        return count;'''))
R('level-index', (U, '''        size_t i = 1;

        while ((i <= level) && (*in_path != '\\0')) {
                *out_path = *in_path;
                out_path++;
                in_path++;

                if (*in_path == '/')
                        i++;
        }
        *out_path = '\\0';''', '''        size_t i = 1;
        size_t pos = 0;

        while ((i <= level) && (in_path[pos] != '\\0')) {
                out_path[pos] = in_path[pos];
                pos++;

                if (in_path[pos] == '/')
                        i++;
        }
        out_path[pos] = '\\0';'''))
R('upper-for', (U, '''        while (len > 0) {
                len--;

                if (path[len] != '/')
                        continue;

                if (len == 0) {
                        path[len + 1] = '\\0';
                } else {
                        path[len] = '\\0';
                }
                break;
        }''', '''        for (size_t i = len; i-- > 0;) {
                if (path[i] == '/') {
                        path[(i == 0) ? 1 : i] = '\\0';
                        break;
                }
        }'''))
R('last-strrchr-style', (U, '''        while (i > 0) {
                i--;
                if (in_path[i] != '/')
                        continue;
                out = (char*)&in_path[i + 1];
                break;
        }

        return out;''', '''        while ((i > 0) && (in_path[i - 1] != '/'))
                i--;
        if (i > 0)
                out = (char*)&in_path[i];

        return out;'''))
R('last-forward', (U, '''        while (i > 0) {
                i--;
                if (in_path[i] != '/')
                        continue;
                out = (char*)&in_path[i + 1];
                break;
        }

        return out;''', '''        for (i = 0; i < len; i++) {
                if (in_path[i] == '/')
                        out = (char*)&in_path[i + 1];
        }

        return out;'''))
R('lastarg-simple', (U, '''        len--;
        if (input[len] == ' ')
                return (char*)&input[len + 1];

        while (len > 0) {
                char ch = input[len];
                if (ch == ' ')
                        return (char*)&input[len + 1];
                len--;
        }

        if (input[0] == ' ')
                return (char*)&input[1];

        return (char*)input;''', '''        while (len > 0) {
                if (input[len - 1] == ' ')
                        return (char*)&input[len];
                len--;
        }

        return (char*)input;'''))
R('startswith-plain', (U, 'return (strncmp(prefix, input, strlen(prefix)) == 0) ? true : false;', '''size_t len = strlen(prefix);
        return strncmp(input, prefix, len) == 0;'''))
R('startswith-loop', (U, 'return (strncmp(prefix, input, strlen(prefix)) == 0) ? true : false;', '''while (*prefix != '\\0') {
                if (*prefix != *input)
                        return false;
                prefix++;
                input++;
        }
        return true;'''))
R('printable-if', (U, 'return ((ch >= 0x20) && (ch <= 0x7E));', '''if (ch < 0x20)
                return false;
        return ch < 0x7F;'''))
R('hex-switch', (U, '''        if (ch >= '0' && ch <= '9') {
                return (uint8_t)(ch - '0');
        } else if (ch >= 'A' && ch <= 'F') {
                return (uint8_t)(ch - 'A') + 10;
        } else if (ch >= 'a' && ch <= 'f') {
                return (uint8_t)(ch - 'a') + 10;
        }''', '''        if (ch >= 'a' && ch <= 'f')
                return (uint8_t)(ch - 'a' + 10);
        if (ch >= 'A' && ch <= 'F')
                return (uint8_t)(ch - 'A' + 10);
        if (ch >= '0' && ch <= '9')
                return (uint8_t)(ch - '0');'''))
R('decode-index', (U, '''                        default:
                                *output++ = ch;
                                ret_size++;
                                break;
                        }
                } else if (state == 1) {''', '''                        default:
                                output[0] = ch;
                                output = output + 1;
                                ret_size = ret_size + 1;
                                break;
                        }
                } else if (state == 1) {'''))
R('decode-for', (U, '''        while ((*input != '\\0') && (ret_size < max_size)) {
                ch = *input;
''', '''        for (;;) {
                if (ret_size >= max_size)
                        break;
                ch = *input;
                if (ch == '\\0')
                        break;
'''))
R('decode-outindex', (U, '''                } else if (state == 3) {
                        val |= hex_to_dec(ch);
                        *output++ = val;
                        ret_size++;
                        state = 0;
                }''', '''                } else if (state == 3) {
                        uint8_t low = hex_to_dec(ch);
                        state = 0;
                        ret_size++;
                        *output++ = (uint8_t)(val | low);
                }'''))
R('collapse-out-once', (U, '''        out_path[0] = '\\0';
        if (count == 0) {
                strcat(out_path, "/");
                return;
        }
''', '''        if (count == 0) {
                strcpy(out_path, "/");
                return;
        }
        out_path[0] = '\\0';
'''))
R('collapse-dots-swapped', (U, '''                if (strcmp(nodes[i], "..") == 0) {
                        if (count > 0)
                                count--;
                        continue;
                } else if (strcmp(nodes[i], ".") == 0) {
                        continue;
                }
                nodes_out[count++] = nodes[i];''', '''                char *item = nodes[i];
                if (strcmp(item, ".") == 0)
                        continue;
                if (strcmp(item, "..") != 0) {
                        nodes_out[count] = item;
                        count++;
                } else if (count != 0) {
                        count--;
                }'''))
R('collapse-forever', (U, '        while (1) {\n                char ch = *in_path;\n', '        for (;; in_path++) {\n                char ch = *in_path;\n'), (U, '''                        nodes[index++] = in_path;
                        state = 0;
                }

                in_path++;
        }''', '''                        nodes[index++] = in_path;
                        state = 0;
                }
        }'''))
R('collapse-nocopy', (U, '''        strcpy(out_path, in_path);

        if (strcmp(in_path, "/") == 0)
                return;
''', '''        if (strcmp(in_path, "/") == 0) {
                strcpy(out_path, in_path);
                return;
        }
'''))
R('collapse-bool', (U, '        int state = 0;\n        while (1) {', '        bool state = false;\n        while (true) {'), (U, 'if (state == 0) {\n                        if (ch == \'\\0\')', 'if (!state) {\n                        if (ch == \'\\0\')'))

# ---- ush_file.c
F = 'ush_file.c'
R('find-while', (F, '''                for (size_t i = 0; i < curr->file_list_size; i++) {
                        file = &curr->file_list[i];
                        if (strcmp(file->name, name) == 0)
                                return file;
                }
''', '''                size_t i = 0;
                while (i < curr->file_list_size) {
                        if (strcmp(curr->file_list[i].name, name) == 0)
                                return &curr->file_list[i];
                        i++;
                }
'''))
R('find-helper', (F, '''struct ush_file_descriptor const* ush_file_find_by_name(''', '''static struct ush_file_descriptor const* find_command(struct ush_node_object *list, const char *name)
{
        for (; list != NULL; list = list->next) {
                for (size_t i = 0; i < list->file_list_size; i++) {
                        if (strcmp(list->file_list[i].name, name) == 0)
                                return &list->file_list[i];
                }
        }
        return NULL;
}

struct ush_file_descriptor const* ush_file_find_by_name('''), (F, '''        curr = self->commands;        
        while (curr != NULL) {
                for (size_t i = 0; i < curr->file_list_size; i++) {
                        file = &curr->file_list[i];
                        if (strcmp(file->name, name) == 0)
                                return file;
                }
                curr = curr->next;                
        }
''', '''        file = find_command(self->commands, name);
        if (file != NULL)
                return file;
'''))
R('find-ptrwalk', (F, '''                for (size_t i = 0; i < curr->file_list_size; i++) {
                        file = &curr->file_list[i];
                        if (strcmp(file->name, name) == 0)
                                return file;
                }
''', '''                file = curr->file_list;
                for (size_t left = curr->file_list_size; left > 0; left--, file++) {
                        if (strcmp(file->name, name) == 0)
                                return file;
                }
'''))

# ---- ush_node.c
N = 'ush_node.c'
R('bypath-while-cond', (N, '''                bool found = false;
                while (curr != NULL) {
                        if (strcmp(curr->path, level_path) == 0) {
                                found = true;
                                break;
                        }
                        curr = curr->next;
                }

                if (found == false)
                        break;
''', '''                while ((curr != NULL) && (strcmp(curr->path, level_path) != 0))
                        curr = curr->next;

                if (curr == NULL)
                        break;
'''))
R('bypath-helper', (N, '''struct ush_node_object* ush_node_get_by_path(''', '''static struct ush_node_object* find_sibling(struct ush_node_object *node, const char *path)
{
        while (node != NULL) {
                if (strcmp(node->path, path) == 0)
                        return node;
                node = node->next;
        }
        return NULL;
}

struct ush_node_object* ush_node_get_by_path('''), (N, '''                bool found = false;
                while (curr != NULL) {
                        if (strcmp(curr->path, level_path) == 0) {
                                found = true;
                                break;
                        }
                        curr = curr->next;
                }

                if (found == false)
                        break;
''', '''                curr = find_sibling(curr, level_path);
                if (curr == NULL)
                        return NULL;
'''))
R('bypath-countdown', (N, 'for (size_t i = 1; i <= levels; i++) {', 'for (size_t i = 1; i < levels + 1; ++i) {'))
R('bypath-root-first', (N, '''        struct ush_node_object *curr = self->root->children;
''', '''        struct ush_node_object *root = self->root;
        struct ush_node_object *curr = root->children;
'''))
R('abs-isroot', (N, '''        if (in_path[0] != '/') {
                abs_path_size += strlen(self->current_node->path);
                if (strcmp(self->current_node->path, "/") != 0)
                        abs_path_size++;
        }
''', '''        const char *cwd = self->current_node->path;
        bool relative = (in_path[0] != '/');
        if (relative) {
                size_t cwd_len = strlen(cwd);
                abs_path_size += (strcmp(cwd, "/") == 0) ? cwd_len : cwd_len + 1;
        }
'''))
R('abs-strcat', (N, '''                strcpy(abs_path, self->current_node->path);
                if (strcmp(self->current_node->path, "/") != 0)
                        strcat(abs_path, "/");
                strcat(abs_path, in_path);''', '''                ush_utils_join_path(self->current_node->path, in_path, abs_path);'''))
R('deinit-for', (N, '''                if (curr->children != NULL)
                        ush_node_deinit_recursive(self, curr->children);
                struct ush_node_object *tmp = curr->next;
''', '''                struct ush_node_object *tmp = curr->next;
                ush_node_deinit_recursive(self, curr->children);
'''))

# ---- ush_node_mount.c
M = 'ush_node_mount.c'
R('mount-order', (M, '''                node->next = node_parent->children;
                node_parent->children = node;
                node->parent = node_parent;

                return USH_STATUS_OK;''', '''                node->parent = node_parent;
                node->next = node_parent->children;
                node_parent->children = node;

                return USH_STATUS_OK;'''))
R('mount-common', (M, '''        if (node_parent != NULL) {
                node->file_list = file_list;
                node->file_list_size = file_list_size;
                node->path = path;
                node->next = node_parent->children;
''', '''        if (node_parent != NULL) {
                node->path = path;
                node->file_list_size = file_list_size;
                node->file_list = file_list;
                struct ush_node_object *first = node_parent->children;
                node->next = first;
'''))
R('unmount-for', (M, '''        while (curr != NULL) {
                if (curr != node) {
                        prev = curr;
                        curr = curr->next;
                        continue;
                }

                if (prev == NULL) {
                        parent_node->children = node->next;
                } else {
                        prev->next = node->next;
                }
''', '''        for (; curr != NULL; prev = curr, curr = curr->next) {
                if (curr != node)
                        continue;

                if (prev != NULL)
                        prev->next = curr->next;
                else
                        parent_node->children = curr->next;
'''))
R('unmount-ptrptr', (M, '''        struct ush_node_object *prev = NULL;
        struct ush_node_object *curr = parent_node->children;

        while (curr != NULL) {
                if (curr != node) {
                        prev = curr;
                        curr = curr->next;
                        continue;
                }

                if (prev == NULL) {
                        parent_node->children = node->next;
                } else {
                        prev->next = node->next;
                }
''', '''        struct ush_node_object **link = &parent_node->children;

        while (*link != NULL) {
                if (*link != node) {
                        link = &(*link)->next;
                        continue;
                }

                *link = node->next;
'''))

# ---- ush_commands.c
C = 'ush_commands.c'
R('cmdrem-for', (C, '''        while (curr != NULL) {
                if (curr != node) {
                        prev = curr;
                        curr = curr->next;
                        continue;
                }
''', '''        for (; curr != NULL; prev = curr, curr = curr->next) {
                if (curr != node)
                        continue;
'''))
R('cmdrem-search-then', (C, '''        while (curr != NULL) {
                if (curr != node) {
                        prev = curr;
                        curr = curr->next;
                        continue;
                }

                if (prev == NULL) {
                        self->commands = node->next;
                } else {
                        prev->next = node->next;
                }

                return USH_STATUS_OK;           
        }

        return USH_STATUS_ERROR_NODE_NOT_FOUND;''', '''        while ((curr != NULL) && (curr != node)) {
                prev = curr;
                curr = curr->next;
        }
        if (curr == NULL)
                return USH_STATUS_ERROR_NODE_NOT_FOUND;

        if (prev == NULL)
                self->commands = node->next;
        else
                prev->next = node->next;

        return USH_STATUS_OK;'''))

# ---- ush_node_utils.c
NU = 'ush_node_utils.c'
R('parent-strcpy', (NU, 'memcpy(path_parent, path, path_len + 1);', 'strcpy(path_parent, path);'))
R('setdir-invert', (NU, '''        if (node != NULL) {
                self->current_node = node;
                return USH_STATUS_OK;
        }

        return USH_STATUS_ERROR_NODE_NOT_FOUND;''', '''        if (node == NULL)
                return USH_STATUS_ERROR_NODE_NOT_FOUND;

        self->current_node = node;
        return USH_STATUS_OK;'''))

# ---- read
RC = 'ush_read_char.c'
RU = 'ush_read_utils.c'
R('readchar-ifs', (RC, '''                if (self->in_pos > 0) {
                        self->in_pos--;
                        self->desc->input_buffer[self->in_pos] = '\\0';
                } else {
                        echo = false;
                }
                break;''', '''                if (self->in_pos == 0) {
                        echo = false;
                        break;
                }
                self->desc->input_buffer[--self->in_pos] = '\\0';
                break;'''))
R('readchar-early', (RC, '''                ush_write_pointer(self, "^C", USH_STATE_RESET);
                echo = false;
                break;''', '''                ush_write_pointer(self, "^C", USH_STATE_RESET);
                return true;'''))
R('echo-tmp', (RU, '''        switch (ch) {
        case '\\r':
                self->desc->output_buffer[0] = ch;
                self->desc->output_buffer[1] = '\\n';
                self->desc->output_buffer[2] = '\\0';
                break;''', '''        char *out = self->desc->output_buffer;

        switch (ch) {
        case '\\r':
                out[2] = '\\0';
                out[1] = '\\n';
                out[0] = ch;
                break;'''))
R('echo-next-switch', (RU, "ush_state_t next = (ch == '\\r' || ch == '\\n') ? USH_STATE_PARSE_PREPARE : USH_STATE_READ_CHAR;", '''ush_state_t next = USH_STATE_READ_CHAR;
        if (ch == '\\n')
                next = USH_STATE_PARSE_PREPARE;
        if (ch == '\\r')
                next = USH_STATE_PARSE_PREPARE;'''))
R('escape-switch', (RU, '''                self->desc->input_buffer[self->in_pos++] = ch;
                if (self->in_pos >= self->desc->input_buffer_size)
                        self->in_pos = 0;
''', '''                size_t pos = self->in_pos;
                self->desc->input_buffer[pos] = ch;
                pos++;
                self->in_pos = (pos < self->desc->input_buffer_size) ? pos : 0;
'''))
R('escape-nolog', (RU, '''                if (ch == '\\x41') {
                        /* up */
                } else if (ch == '\\x42') {
                        /* down */
                } else if (ch == '\\x43') {
                        /* right */
                } else if (ch == '\\x44') {
                        /* left */
                }
''', '''                /* arrow keys are ignored */
'''))
R('readstart-order', (RU, '''        self->in_pos = 0;
        self->desc->input_buffer[self->in_pos] = '\\0';

        self->state = USH_STATE_READ_CHAR;
        self->ansi_escape_state = 0;''', '''        self->ansi_escape_state = 0;
        self->state = USH_STATE_READ_CHAR;
        self->desc->input_buffer[0] = '\\0';
        self->in_pos = 0;'''))

# ---- parse
P = 'ush_parse_utils.c'
R('getargs-while', (P, '''        for (int i = 0; i < argc; i++) {
                argv[i] = ptr;
                ptr += strlen(argv[i]) + 1;
        }
''', '''        int i = 0;
        while (i < argc) {
                size_t len = strlen(ptr);
                argv[i++] = ptr;
                ptr = ptr + len + 1;
        }
'''))
R('parsechar-put', (P, '''void ush_parse_char_standard(''', '''static void put(struct ush_object *self, char ch)
{
        self->desc->input_buffer[self->out_pos] = ch;
        self->out_pos++;
}

void ush_parse_char_standard('''), (P, '''                case ' ':
                        self->desc->input_buffer[self->out_pos++] = '\\0';
                        self->state = USH_STATE_PARSE_SEARCH_ARG;''', '''                case ' ':
                        put(self, '\\0');
                        self->state = USH_STATE_PARSE_SEARCH_ARG;'''), (P, '''                default:
                        self->desc->input_buffer[self->out_pos++] = ch;
                        self->args_count++;''', '''                default:
                        put(self, ch);
                        self->args_count++;'''))
R('parsechar-search-ifs', (P, '''                switch (ch) {
                case ' ':
                        break;
                case '\\"':
                        self->args_count++;
                        self->state = USH_STATE_PARSE_QUOTE_ARG;
                        break;
                case '\\\\':
                        self->escape_flag = true;
                        self->args_count++;
                        self->state = USH_STATE_PARSE_STANDARD_ARG;
                        break;
                default:
                        self->desc->input_buffer[self->out_pos++] = ch;
                        self->args_count++;
                        self->state = USH_STATE_PARSE_STANDARD_ARG;
                        break;
                }
                break;''', '''                if (ch == ' ')
                        break;
                self->args_count++;
                if (ch == '\\"') {
                        self->state = USH_STATE_PARSE_QUOTE_ARG;
                        break;
                }
                self->state = USH_STATE_PARSE_STANDARD_ARG;
                if (ch == '\\\\')
                        self->escape_flag = true;
                else
                        self->desc->input_buffer[self->out_pos++] = ch;
                break;'''))
R('parsefinish-nested', ('ush_parse.c', '''        if (file == NULL) {
                ush_print_status(self, USH_STATUS_ERROR_COMMAND_SYNTAX_ERROR);
                return;
        }

        if (file->exec == NULL) {
                ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_EXECUTABLE);
                return;
        }
        
        file->exec(self, file, argc, argv);''', '''        if (file == NULL)
                ush_print_status(self, USH_STATUS_ERROR_COMMAND_SYNTAX_ERROR);
        else if (file->exec == NULL)
                ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_EXECUTABLE);
        else
                file->exec(self, file, argc, argv);'''))
R('parseservice-if', ('ush_parse.c', '''        bool processed = true;

        switch (self->state) {
        case USH_STATE_PARSE_PREPARE:
                ush_parse_start(self);
                break;
        case USH_STATE_PARSE_SEARCH_ARG:
        case USH_STATE_PARSE_QUOTE_ARG:
        case USH_STATE_PARSE_STANDARD_ARG:
                ush_parse_char(self);
                break;
        default:
                processed = false;
                break;
        }

        return processed;''', '''        if (self->state == USH_STATE_PARSE_PREPARE) {
                ush_parse_start(self);
                return true;
        }

        if ((self->state == USH_STATE_PARSE_SEARCH_ARG) || (self->state == USH_STATE_PARSE_QUOTE_ARG) || (self->state == USH_STATE_PARSE_STANDARD_ARG)) {
                ush_parse_char(self);
                return true;
        }

        return false;'''))
R('parsechar-else', ('ush_parse_char.c', '''        if (ch == '\\n' || ch == '\\r') {
                self->desc->input_buffer[self->out_pos++] = '\\0';
                self->state = USH_STATE_RESET_PROMPT;
                ush_parse_finish(self);
                return;
        }

        ush_parse_char_standard(self, ch);''', '''        switch (ch) {
        case '\\r':
        case '\\n':
                self->state = USH_STATE_RESET_PROMPT;
                self->desc->input_buffer[self->out_pos] = '\\0';
                self->out_pos += 1;
                ush_parse_finish(self);
                break;
        default:
                ush_parse_char_standard(self, ch);
                break;
        }'''))

# ---- write, reset, process, prompt, service
R('write-invert', ('ush_write_utils.c', '''        if (self->desc->io->write(self, ch) == 0)
                return;
        
        self->write_pos++;''', '''        if (self->desc->io->write(self, ch) != 0)
                self->write_pos++;'''))
R('write-helper', ('ush_write_utils.c', 'void ush_write_char(', '''static inline bool all_written(const struct ush_object *self)
{
        return !(self->write_pos < self->write_size);
}

void ush_write_char('''), ('ush_write_utils.c', 'if (self->write_pos >= self->write_size) {', 'if (all_written(self)) {'))
R('writeptr-order', ('ush_write_utils.c', '''        self->write_pos = 0;
        self->write_size = data_size;
        self->write_buf = (char*)data;
        self->state = USH_STATE_WRITE_CHAR;
        self->write_next_state = write_next_state;''', '''        self->write_next_state = write_next_state;
        self->state = USH_STATE_WRITE_CHAR;
        self->write_buf = (char*)data;
        self->write_size = data_size;
        self->write_pos = 0;'''))
R('service-or', ('ush.c', '''        if (ush_reset_service(self) != false)
                return true;        
        if (ush_prompt_service(self) != false)
                return true;        
''', '''        if (ush_reset_service(self) || ush_prompt_service(self))
                return true;
'''))
R('service-tail', ('ush.c', '''        if (ush_process_service(self) != false)
                return true;

        return false;''', '''        return ush_process_service(self);'''))
R('process-ifs', ('ush_process.c', '''                if (self->process_file->process == NULL) {
                        self->state = USH_STATE_RESET;
                        break;
                }
                self->process_file->process(self, self->process_file);
                break;''', '''                if (self->process_file->process != NULL)
                        self->process_file->process(self, self->process_file);
                else
                        self->state = USH_STATE_RESET;
                break;'''))
R('prompt-local', ('ush_prompt.c', 'ush_write_pointer(self, self->desc->hostname, USH_STATE_PROMPT_SPACE);', '''{
                        char *host = self->desc->hostname;
                        ush_write_pointer(self, host, USH_STATE_PROMPT_SPACE);
                }'''))
R('printf-va-first', ('ush.c', '''                /* Reset output_buffer to start position */
                self->desc->output_buffer[0] = '\\0';
                ush_write_pointer(self, self->desc->output_buffer, USH_STATE_RESET_PROMPT);''', '''                /* Reset output_buffer to start position */
                char *start = self->desc->output_buffer;
                *start = '\\0';
                ush_write_pointer(self, start, USH_STATE_RESET_PROMPT);'''))
R('printf-fits', ('ush.c', 'if (self->desc->output_buffer_size - strlen(self->write_buf) > strlen(error_msg)) {', '''size_t space_left = self->desc->output_buffer_size - strlen(self->write_buf);
                if (strlen(error_msg) < space_left) {'''))
R('deinit-locals', ('ush.c', '        ush_node_deinit_recursive(self, self->root);\n        memset(self, 0, sizeof(struct ush_object));', '''        struct ush_node_object *root = self->root;
        ush_node_deinit_recursive(self, root);
        memset(self, 0, sizeof(*self));'''))

# ---- completion
A = 'ush_autocomp_utils.c'
S = 'ush_autocomp_state.c'
R('comp-start-reset', (A, '''                self->process_node = self->current_node;
                self->process_index = 0;
                self->process_index_item = 0;
                self->process_stage = 1;''', '''                self->process_stage = 1;
                self->process_index_item = 0;
                self->process_index = 0;
                self->process_node = self->current_node;'''))
R('comp-parent-local', (A, '''                if (self->autocomp_input[0] == '\\0') {
                        self->process_node = self->current_node;
                } else {
                        self->process_node = ush_node_get_parent_by_path(self, abs_path);
                        if (self->process_node == NULL)
                                self->process_node = self->current_node;
                }
                self->process_node = self->process_node->children;
''', '''                struct ush_node_object *dir = NULL;
                if (self->autocomp_input[0] != '\\0')
                        dir = ush_node_get_parent_by_path(self, abs_path);
                if (dir == NULL)
                        dir = self->current_node;
                self->process_node = dir->children;
'''))
R('comp-finish-switch', (A, '''        bool ret = false;

        if (self->process_stage == 0) {
                if (self->process_index_item >= self->process_node->file_list_size) {
                        self->process_index_item = 0;
                        self->process_node = self->process_node->next;
                        ret = true;
                }
        } else if (self->process_stage == 1) {
                if (self->process_index_item >= self->process_node->file_list_size) {
                        self->process_index_item = 0;
                        self->process_node = NULL;
                        ret = true;
                }
        } else''', '''        bool ret = false;

        if ((self->process_stage == 0) || (self->process_stage == 1)) {
                if (self->process_index_item >= self->process_node->file_list_size) {
                        self->process_index_item = 0;
                        self->process_node = (self->process_stage == 0) ? self->process_node->next : NULL;
                        ret = true;
                }
        } else'''))
R('comp-add-char', (A, '''        self->desc->input_buffer[self->in_pos++] = ch;
        if (self->in_pos >= self->desc->input_buffer_size)
                self->in_pos = 0;
        self->desc->input_buffer[self->in_pos] = '\\0';
        self->autocomp_suffix_len++;''', '''        self->autocomp_suffix_len++;
        self->desc->input_buffer[self->in_pos] = ch;
        self->in_pos++;
        if (self->in_pos >= self->desc->input_buffer_size)
                self->in_pos = 0;
        self->desc->input_buffer[self->in_pos] = '\\0';'''))
R('comp-count-if', (S, '''                switch (self->autocomp_count) {
                case 0:
                        self->state = USH_STATE_READ_CHAR;
                        break;
''', '''                if (self->autocomp_count == 0) {
                        self->state = USH_STATE_READ_CHAR;
                        return;
                }
                switch (self->autocomp_count) {
'''))
R('comp-suffix-empty', (S, 'if (strlen(suffix) > 0) {', "if (*suffix != '\\0') {"))
R('comp-onecand-locals', (S, '''                        size_t prefix_len = self->autocomp_input - self->desc->input_buffer;
                        if (prefix_len + strlen(self->autocomp_candidate_name) >= self->desc->input_buffer_size) {''', '''                        size_t name_len = strlen(self->autocomp_candidate_name);
                        size_t prefix_len = self->autocomp_input - self->desc->input_buffer;
                        if (self->desc->input_buffer_size <= prefix_len + name_len) {'''))
R('comp-prev-order', (S, '''        if (self->autocomp_prev_state == USH_STATE_AUTOCOMP_CANDIDATES_PRINT) {
                self->state = USH_STATE_AUTOCOMP_PROMPT;
        } else if''', '''        if (self->autocomp_prev_state == USH_STATE_AUTOCOMP_CANDIDATES_PRINT) {
                self->state = USH_STATE_AUTOCOMP_PROMPT;
                return;
        }
        if'''))
R('comp-service-order', ('ush_autocomp.c', '''        case USH_STATE_AUTOCOMP_PROMPT_PREPARE:
                ush_write_pointer(self, "\\r\\n", USH_STATE_AUTOCOMP_PROMPT);
                break;
        case USH_STATE_AUTOCOMP_PROMPT:
                ush_prompt_start(self, USH_STATE_AUTOCOMP_RECALL);
                break;
''', '''        case USH_STATE_AUTOCOMP_PROMPT:
                ush_prompt_start(self, USH_STATE_AUTOCOMP_RECALL);
                break;
        case USH_STATE_AUTOCOMP_PROMPT_PREPARE:
                ush_write_pointer(self, "\\r\\n", USH_STATE_AUTOCOMP_PROMPT);
                break;
'''))

# ---- commands
X = 'commands/ush_cmd_xxd.c'
R('cat-while', ('commands/ush_cmd_cat.c', '        for (int i = 1; i < argc; i++) {', '        for (int i = 0; ++i < argc;) {'))
R('cat-status', ('commands/ush_cmd_cat.c', '''                if (f == NULL) {
                        ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_FOUND);
                        return;
                }
                if (f->get_data == NULL) {
                        ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_READABLE);
                        return;
                }
''', '''                if ((f == NULL) || (f->get_data == NULL)) {
                        ush_print_status(self, (f == NULL) ? USH_STATUS_ERROR_FILE_NOT_FOUND : USH_STATUS_ERROR_FILE_NOT_READABLE);
                        return;
                }
'''))
R('cat-index-local', ('commands/ush_cmd_cat.c', '''                uint8_t *data;
                size_t data_size = f->get_data(self, f, &data);

                ush_write_pointer_bin(self, data, data_size, self->state);
                self->process_index_item++;''', '''                uint8_t *data = NULL;
                self->process_index_item++;
                size_t data_size = f->get_data(self, f, &data);

                ush_write_pointer_bin(self, data, data_size, USH_STATE_PROCESS_SERVICE);'''))
R('cd-short', ('commands/ush_cmd_cd.c', '''        ush_status_t status = ush_node_set_current_dir(self, argv[1]);
        if (status != USH_STATUS_OK) {
                ush_print_status(self, status);
                return;
        }''', '''        ush_status_t status = ush_node_set_current_dir(self, argv[1]);
        if (status == USH_STATUS_OK)
                return;
        ush_print_status(self, status);'''))
R('echo-ifs', ('commands/ush_cmd_echo.c', '''                if (f != NULL) {
                        f->set_data(self, f, data, data_size);
                } else {
                        if (data != NULL) {
                                ush_print(self, (char*)data);
                        } else {
                                self->state = USH_STATE_RESET;
                        }
                }
                break;''', '''                if (f != NULL)
                        f->set_data(self, f, data, data_size);
                else if (data == NULL)
                        self->state = USH_STATE_RESET;
                else
                        ush_print(self, (char*)data);
                break;'''))
R('help-next', ('commands/ush_cmd_help.c', '''                        self->process_index = 0;
                        self->process_index_item = 0;
                        self->process_node = self->process_node->next;
                        break;''', '''                        self->process_node = self->process_node->next;
                        self->process_index_item = 0;
                        self->process_index = 0;
                        break;'''))
R('ls-flag', ('commands/ush_cmd_ls.c', '''                        char is_read = (f->get_data != NULL) ? 'r' : '-';
''', '''                        char is_read = '-';
                        if (f->get_data != NULL)
                                is_read = 'r';
'''))
R('ls-case2', ('commands/ush_cmd_ls.c', '''                ush_node_get_absolute_path(self, argv[1], abs_path);
                self->process_node = (abs_path[0] != '\\0') ? ush_node_get_by_path(self, abs_path) : NULL;

                if (self->process_node == NULL) {''', '''                struct ush_node_object *found = NULL;
                ush_node_get_absolute_path(self, argv[1], abs_path);
                if (abs_path[0] != '\\0')
                        found = ush_node_get_by_path(self, abs_path);
                self->process_node = found;

                if (found == NULL) {'''))
R('pwd-local', ('commands/ush_cmd_pwd.c', '        ush_print(self, (char*)self->current_node->path);', '''        struct ush_node_object *node = self->current_node;
        ush_print(self, (char*)node->path);'''))
R('xxd-hex-offset', (X, '''                                size_t offset = self->process_index_item + i;
                                size_t len = strlen(self->desc->output_buffer);
                                char *out = &self->desc->output_buffer[len];
''', '''                                size_t len = strlen(self->desc->output_buffer);
                                char *out = self->desc->output_buffer + len;
                                size_t offset = i + self->process_index_item;
'''))
R('xxd-hex-tracked', (X, '''                        self->desc->output_buffer[0] = '\\0';
                        for (size_t i = 0; i < USH_CMD_XXD_COLUMNS; i++) {
                                size_t offset = self->process_index_item + i;
''', '''                        self->desc->output_buffer[0] = '\\0';
                        size_t i;
                        for (i = 0; i < USH_CMD_XXD_COLUMNS; i++) {
                                size_t offset = self->process_index_item + i;
'''))
R('xxd-char-ternary', (X, '''                                        if (ush_utils_is_printable(b) != false) {
                                                snprintf(out, out_size, "%c", (char)b);
                                        } else {
                                                snprintf(out, out_size, ".");
                                        }''', '''                                        char shown = ush_utils_is_printable(b) ? (char)b : '.';
                                        snprintf(out, out_size, "%c", shown);'''))
R('xxd-end', (X, '''                        if (self->process_index_item >= self->process_data_size) {
                                ush_write_pointer(self, "\\r\\n", USH_STATE_PROCESS_FINISH);
                                break;
                        }
                        ush_write_pointer(self, "\\r\\n", self->state);
                        self->process_index = 0;
                        break;''', '''                        if (self->process_index_item < self->process_data_size) {
                                ush_write_pointer(self, "\\r\\n", USH_STATE_PROCESS_SERVICE);
                                self->process_index = 0;
                        } else {
                                ush_write_pointer(self, "\\r\\n", USH_STATE_PROCESS_FINISH);
                        }
                        break;'''))


def apply(text, old, new):
    """replaces old (blank lines do not matter) by new; None unless it matches once"""
    import re
    ls = [l.strip() for l in old.split('\n') if l.strip()]
    pat = r'[ \t]*\n(?:[ \t]*\n)*[ \t]*'.join(re.escape(l) for l in ls)
    if '\n' in old and not old.startswith('\n'): pat = r'(?:(?<=\n)[ \t]*)?' + pat
    if old.endswith('\n'): pat += r'[ \t]*\n'
    m = list(re.finditer(pat, text))
    return None if len(m) != 1 else text[:m[0].start()] + new + text[m[0].end():]


from refacs2 import REFACS2
REFACS.update(REFACS2)

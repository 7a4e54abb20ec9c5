"""More behaviour-preserving edits for refac.py: helpers extracted, locals and aliases introduced, loops and switches rewritten"""
REFACS2 = {}


def R(name, *edits): REFACS2[name] = list(edits)


U = 'ush_utils.c'; F = 'ush_file.c'; N = 'ush_node.c'; M = 'ush_node_mount.c'; C = 'ush_commands.c'; NU = 'ush_node_utils.c'
RC = 'ush_read_char.c'; RU = 'ush_read_utils.c'; P = 'ush_parse_utils.c'; A = 'ush_autocomp_utils.c'; S = 'ush_autocomp_state.c'
X = 'commands/ush_cmd_xxd.c'; L = 'commands/ush_cmd_ls.c'; H = 'commands/ush_cmd_help.c'; E = 'commands/ush_cmd_echo.c'; K = 'commands/ush_cmd_cat.c'

# ---- reading
R('h-backspace', (RC, 'bool ush_read_char(struct ush_object *self)\n{', '''static bool remove_last(struct ush_object *self)
{
        if (self->in_pos == 0)
                return false;
        self->desc->input_buffer[--self->in_pos] = '\\0';
        return true;
}

bool ush_read_char(struct ush_object *self)
{'''), (RC, '''                if (self->in_pos > 0) {
                        self->in_pos--;
                        self->desc->input_buffer[self->in_pos] = '\\0';
                } else {
                        echo = false;
                }
                break;''', '''                echo = remove_last(self);
                break;'''))
R('h-append', (RU, 'bool ush_read_char_by_escape_state(struct ush_object *self, char ch)\n{', '''static void append_char(struct ush_object *self, char ch)
{
        char *buf = self->desc->input_buffer;
        size_t next = self->in_pos + 1;

        buf[self->in_pos] = ch;
        if (next >= self->desc->input_buffer_size)
                next = 0;
        buf[next] = '\\0';
        self->in_pos = next;
}

bool ush_read_char_by_escape_state(struct ush_object *self, char ch)
{'''), (RU, '''                self->desc->input_buffer[self->in_pos++] = ch;
                if (self->in_pos >= self->desc->input_buffer_size)
                        self->in_pos = 0;
                self->desc->input_buffer[self->in_pos] = '\\0';
''', '''                append_char(self, ch);
'''))
R('read-alias', (RC, '''        char ch;
        bool echo = true;

        if (self->desc->io->read(self, &ch) == 0)
                return false;
''', '''        const struct ush_descriptor *desc = self->desc;
        const struct ush_io_interface *io = desc->io;
        char ch = '\\0';
        bool echo = true;
        int got = io->read(self, &ch);

        if (got == 0)
                return false;
'''))
R('echo-helper', (RU, 'void ush_read_echo_service(struct ush_object *self, char ch)\n{', '''static void fill(char *out, char a, char b, char c)
{
        *out++ = a;
        if (b != '\\0')
                *out++ = b;
        if (c != '\\0')
                *out++ = c;
        *out = '\\0';
}

void ush_read_echo_service(struct ush_object *self, char ch)
{'''), (RU, '''                self->desc->output_buffer[0] = ch;
                self->desc->output_buffer[1] = '\\n';
                self->desc->output_buffer[2] = '\\0';
                break;''', '''                fill(self->desc->output_buffer, ch, '\\n', '\\0');
                break;'''), (RU, '''                self->desc->output_buffer[0] = '\\x08';
                self->desc->output_buffer[1] = ' ';
                self->desc->output_buffer[2] = '\\x08';
                self->desc->output_buffer[3] = '\\0';
                break;''', '''                fill(self->desc->output_buffer, '\\b', ' ', '\\b');
                break;'''))
R('echo-strcpy', (RU, '''                self->desc->output_buffer[0] = '\\x08';
                self->desc->output_buffer[1] = ' ';
                self->desc->output_buffer[2] = '\\x08';
                self->desc->output_buffer[3] = '\\0';
                break;''', '''                strcpy(self->desc->output_buffer, "\\b \\b");
                break;'''), (RU, 'void ush_read_echo_service(struct', '#include <string.h>\n\nvoid ush_read_echo_service(struct'))
R('escape-enum', (RU, '''                if (ch == '\\x5B' || ch == '\\x4F') {
                        self->ansi_escape_state = 2;
                } else {
                        self->ansi_escape_state = 0;
                }
                echo = false;''', '''                bool introducer = (ch == '[') || (ch == 'O');
                self->ansi_escape_state = introducer ? 2 : 0;
                echo = false;'''))
R('readstart-alias', (RU, '''        self->in_pos = 0;
        self->desc->input_buffer[self->in_pos] = '\\0';
        self->state = USH_STATE_READ_CHAR;
        self->ansi_escape_state = 0;''', '''        self->ansi_escape_state = 0;
        *self->desc->input_buffer = '\\0';
        self->in_pos = 0;
        self->state = USH_STATE_READ_CHAR;'''))

# ---- parsing
R('h-emit', (P, 'void ush_parse_char_standard(struct ush_object *self, char ch)\n{', '''static void emit_escaped(struct ush_object *self, char ch)
{
        char *out = &self->desc->input_buffer[self->out_pos];
        if (ch == 'x') {
                *out++ = '\\\\';
                self->out_pos++;
        }
        *out = ch;
        self->out_pos++;
        self->escape_flag = false;
}

void ush_parse_char_standard(struct ush_object *self, char ch)
{'''), (P, '''        case USH_STATE_PARSE_QUOTE_ARG:
                if (self->escape_flag != false) {
                        if (ch == 'x')
                                self->desc->input_buffer[self->out_pos++] = '\\\\';
                        self->desc->input_buffer[self->out_pos++] = ch;
                        self->escape_flag = false;
                        break;
                }
''', '''        case USH_STATE_PARSE_QUOTE_ARG:
                if (self->escape_flag) {
                        emit_escaped(self, ch);
                        break;
                }
'''), (P, '''        case USH_STATE_PARSE_STANDARD_ARG:
                if (self->escape_flag != false) {
                        if (ch == 'x')
                                self->desc->input_buffer[self->out_pos++] = '\\\\';
                        self->desc->input_buffer[self->out_pos++] = ch;
                        self->escape_flag = false;
                        break;
                }
''', '''        case USH_STATE_PARSE_STANDARD_ARG:
                if (self->escape_flag) {
                        emit_escaped(self, ch);
                        break;
                }
'''))
R('parse-escape-first', (P, '''        switch (self->state) {
        case USH_STATE_PARSE_SEARCH_ARG:
                switch (ch) {''', '''        if (self->state != USH_STATE_PARSE_SEARCH_ARG && self->escape_flag != false) {
                if (ch == 'x')
                        self->desc->input_buffer[self->out_pos++] = '\\\\';
                self->desc->input_buffer[self->out_pos++] = ch;
                self->escape_flag = false;
                return;
        }

        switch (self->state) {
        case USH_STATE_PARSE_SEARCH_ARG:
                switch (ch) {'''), (P, '''        case USH_STATE_PARSE_QUOTE_ARG:
                if (self->escape_flag != false) {
                        if (ch == 'x')
                                self->desc->input_buffer[self->out_pos++] = '\\\\';
                        self->desc->input_buffer[self->out_pos++] = ch;
                        self->escape_flag = false;
                        break;
                }
''', '''        case USH_STATE_PARSE_QUOTE_ARG:
'''), (P, '''        case USH_STATE_PARSE_STANDARD_ARG:
                if (self->escape_flag != false) {
                        if (ch == 'x')
                                self->desc->input_buffer[self->out_pos++] = '\\\\';
                        self->desc->input_buffer[self->out_pos++] = ch;
                        self->escape_flag = false;
                        break;
                }
''', '''        case USH_STATE_PARSE_STANDARD_ARG:
'''))
R('getargs-down', (P, '''        for (int i = 0; i < argc; i++) {
                argv[i] = ptr;
                ptr += strlen(argv[i]) + 1;
        }
''', '''        char **next = argv;
        int left = argc;
        while (left-- > 0) {
                *next++ = ptr;
                ptr += strlen(ptr) + 1;
        }
'''))
R('getargs-nul', (P, '''        for (int i = 0; i < argc; i++) {
                argv[i] = ptr;
                ptr += strlen(argv[i]) + 1;
        }
''', '''        for (int i = 0; i != argc; ++i) {
                size_t len = strlen(ptr);
                argv[i] = ptr;
                ptr = &ptr[len + 1];
        }
'''))
R('finish-helper', ('ush_parse.c', 'void ush_parse_finish(struct ush_object *self)\n{', '''static void run_file(struct ush_object *self, int argc, char *argv[])
{
        struct ush_file_descriptor const *file = ush_file_find_by_name(self, argv[0]);

        if (file == NULL)
                ush_print_status(self, USH_STATUS_ERROR_COMMAND_SYNTAX_ERROR);
        else if (file->exec == NULL)
                ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_EXECUTABLE);
        else
                file->exec(self, file, argc, argv);
}

void ush_parse_finish(struct ush_object *self)
{'''), ('ush_parse.c', '''        struct ush_file_descriptor const *file = ush_file_find_by_name(self, argv[0]);
        if (file == NULL) {
                ush_print_status(self, USH_STATUS_ERROR_COMMAND_SYNTAX_ERROR);
                return;
        }

        if (file->exec == NULL) {
                ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_EXECUTABLE);
                return;
        }
        
        file->exec(self, file, argc, argv);
}
''', '''        run_file(self, argc, argv);
}
'''))
R('parsechar-local', ('ush_parse_char.c', '''        char ch = self->desc->input_buffer[self->in_pos++];
''', '''        char *line = self->desc->input_buffer;
        size_t pos = self->in_pos;
        char ch = line[pos];
        self->in_pos = pos + 1;
'''))
R('parsechar-switch', ('ush_parse_char.c', '''        if (ch == '\\n' || ch == '\\r') {
                self->desc->input_buffer[self->out_pos++] = '\\0';
                self->state = USH_STATE_RESET_PROMPT;
                ush_parse_finish(self);
                return;
        }

        ush_parse_char_standard(self, ch);''', '''        switch (ch) {
        case '\\r':
        case '\\n':
                self->state = USH_STATE_RESET_PROMPT;
                self->desc->input_buffer[self->out_pos] = '\\0';
                self->out_pos += 1;
                ush_parse_finish(self);
                break;
        default:
                ush_parse_char_standard(self, ch);
                break;
        }'''))

# ---- writing
R('write-ptr', ('ush_write_utils.c', '''        char ch = self->write_buf[self->write_pos];

        if (self->desc->io->write(self, ch) == 0)
                return;

        self->write_pos++;
''', '''        const char *next = self->write_buf + self->write_pos;
        int sent = self->desc->io->write(self, *next);

        if (sent != 0)
                self->write_pos += 1;
'''))
R('write-len', ('ush_write.c', '''        ush_write_pointer_bin(self, (uint8_t*)text, strlen(text), write_next_state);
''', '''        size_t len = 0;
        const char *end = strchr(text, '\\0');
        len = (size_t)(end - text);
        ush_write_pointer_bin(self, (uint8_t*)text, len, write_next_state);
'''))
R('printf-msg-helper', ('ush.c', 'void ush_printf(struct ush_object *self, const char *format, ...)\n{', '''static size_t room_left(struct ush_object *self)
{
        return self->desc->output_buffer_size - strlen(self->write_buf);
}

void ush_printf(struct ush_object *self, const char *format, ...)
{'''), ('ush.c', '''                if (self->desc->output_buffer_size - strlen(self->write_buf) > strlen(error_msg)) {''', '''                if (room_left(self) > strlen(error_msg)) {'''))
R('printf-cond', ('ush.c', '''                        if (self->desc->output_buffer_size >= (size_t)error_msg_size) {
                                end_idx = self->desc->output_buffer_size - error_msg_size;
                        } else {
                                error_msg_size = self->desc->output_buffer_size;
                        }''', '''                        if (self->desc->output_buffer_size < (size_t)error_msg_size)
                                error_msg_size = self->desc->output_buffer_size;
                        else
                                end_idx = self->desc->output_buffer_size - error_msg_size;'''))
R('status-table-if', ('ush.c', '''        char *ret = (char*)ush_utils_get_status_string(status);
        ush_write_pointer(self, ret, USH_STATE_RESET);''', '''        ush_print(self, (char*)ush_utils_get_status_string(status));'''))
R('print-through', ('ush.c', '''        ush_write_pointer(self, self->desc->output_buffer, USH_STATE_RESET_PROMPT);
}

''', '''        ush_print_no_newline(self, self->desc->output_buffer);
}

''') if False else ('ush.c', '''void ush_flush(struct ush_object *self)
{
        USH_ASSERT(self != NULL);

        ush_write_pointer(self, self->desc->output_buffer, USH_STATE_RESET_PROMPT);
}''', '''void ush_flush(struct ush_object *self)
{
        USH_ASSERT(self != NULL);

        ush_print_no_newline(self, self->desc->output_buffer);
}'''))
R('init-helper', ('ush.c', 'void ush_init(struct ush_object *self, const struct ush_descriptor *desc)\n{', '''static void check_descriptor(const struct ush_descriptor *desc)
{
        USH_ASSERT(desc != NULL);
        USH_ASSERT(desc->io != NULL);
        USH_ASSERT(desc->hostname != NULL);
}

void ush_init(struct ush_object *self, const struct ush_descriptor *desc)
{
        check_descriptor(desc);
'''))
R('init-order', ('ush.c', '''        self->desc = desc;
        self->root = NULL;
        self->commands = NULL;
''', '''        self->commands = NULL;
        self->root = NULL;
        self->desc = desc;
'''))
R('prompt-fallthrough', ('ush_prompt.c', '''        case USH_STATE_PROMPT_PATH: {
                char *path = ush_utils_path_last(self->current_node->path);
                ush_write_pointer(self, (char*)path, USH_STATE_PROMPT_SUFFIX);
                break;
        }''', '''        case USH_STATE_PROMPT_PATH:
                ush_write_pointer(self, ush_utils_path_last(self->current_node->path), USH_STATE_PROMPT_SUFFIX);
                break;'''))
R('reset-if', ('ush_reset.c', '''        bool processed = true;

        switch (self->state) {
        case USH_STATE_RESET:
                ush_write_pointer(self, "\\r\\n", USH_STATE_RESET_PROMPT);
                break;
        case USH_STATE_RESET_PROMPT:
                ush_prompt_start(self, USH_STATE_READ_PREPARE);
                break;
        default:
                processed = false;
                break;
        }

        return processed;''', '''        if (self->state == USH_STATE_RESET) {
                ush_write_pointer(self, "\\r\\n", USH_STATE_RESET_PROMPT);
                return true;
        }

        if (self->state != USH_STATE_RESET_PROMPT)
                return false;

        ush_prompt_start(self, USH_STATE_READ_PREPARE);
        return true;'''))
R('process-local', ('ush_process.c', '''                if (self->process_file->process == NULL) {
                        self->state = USH_STATE_RESET;
                        break;
                }
                self->process_file->process(self, self->process_file);
                break;''', '''                {
                        const struct ush_file_descriptor *file = self->process_file;
                        if (file->process != NULL)
                                file->process(self, file);
                        else
                                self->state = USH_STATE_RESET;
                }
                break;'''))

# ---- paths
R('levels-do', (U, '''        size_t count = 1;
        while (*path) {
                path++;
                if (*path == '/')
                        count++;
        }

        return count;''', '''        size_t count = 0;
        do {
                path++;
                if (*path == '/')
                        count++;
        } while (*path != '\\0');

        return count + 1;'''))
R('levels-len', (U, '''        size_t count = 1;
        while (*path) {
                path++;
                if (*path == '/')
                        count++;
        }

        return count;''', '''        size_t len = strlen(path);
        size_t count = 1;
        for (size_t i = 1; i < len; i++)
                count += (path[i] == '/') ? 1 : 0;

        return count;'''))
R('level-for', (U, '''        size_t i = 1;
        while ((i <= level) && (*in_path != '\\0')) {
                *out_path = *in_path;
                out_path++;
                in_path++;
                if (*in_path == '/')
                        i++;
        }
        *out_path = '\\0';''', '''        for (size_t i = 1; *in_path != '\\0'; ) {
                *out_path++ = *in_path++;
                if (*in_path == '/' && ++i > level)
                        break;
        }
        *out_path = '\\0';'''))
R('upper-ptr', (U, '''        while (len > 0) {
                len--;
                if (path[len] != '/')
                        continue;

                if (len == 0) {
                        path[len + 1] = '\\0';
                } else {
                        path[len] = '\\0';
                }
                break;
        }''', '''        while (len > 0 && path[len - 1] != '/')
                len--;
        if (len > 0)
                path[(len == 1) ? 1 : len - 1] = '\\0';'''))
R('upper-strrchr', (U, '''        while (len > 0) {
                len--;
                if (path[len] != '/')
                        continue;

                if (len == 0) {
                        path[len + 1] = '\\0';
                } else {
                        path[len] = '\\0';
                }
                break;
        }''', '''        char *slash = strrchr(path, '/');
        if (slash == NULL)
                return;
        if (slash == path)
                slash++;
        *slash = '\\0';'''))
R('last-ptr', (U, '''        size_t len = strlen(in_path);
        size_t i = len;

        char *out = (char*)in_path;

        if (len == 1) 
                return out;

        while (i > 0) {
                i--;
                if (in_path[i] != '/')
                        continue;

                out = (char*)&in_path[i + 1];
                break;
        }

        return out;''', '''        size_t len = strlen(in_path);

        if (len == 1)
                return (char*)in_path;

        const char *p = in_path + len;
        while ((p > in_path) && (p[-1] != '/'))
                p--;

        return (char*)p;'''))
R('lastarg-strrchr', (U, '''        size_t len = strlen(input);

        if (len == 0)
                return (char*)input;

        len--;
        if (input[len] == ' ')
                return (char*)&input[len + 1];

        while (len > 0) {
                char ch = input[len];
                if (ch == ' ')
                        return (char*)&input[len + 1];
                len--;
        }

        if (input[0] == ' ')
                return (char*)&input[1];

        return (char*)input;''', '''        const char *space = strrchr(input, ' ');

        return (char*)((space != NULL) ? space + 1 : input);'''))
R('lastarg-ptr', (U, '''        size_t len = strlen(input);

        if (len == 0)
                return (char*)input;

        len--;
        if (input[len] == ' ')
                return (char*)&input[len + 1];

        while (len > 0) {
                char ch = input[len];
                if (ch == ' ')
                        return (char*)&input[len + 1];
                len--;
        }

        if (input[0] == ' ')
                return (char*)&input[1];

        return (char*)input;''', '''        const char *p = input + strlen(input);

        while ((p != input) && (*(p - 1) != ' '))
                p--;

        return (char*)p;'''))
R('hex-helper', (U, 'static uint8_t hex_to_dec(char ch)\n{', '''static bool in_range(char ch, char lo, char hi)
{
        return (ch >= lo) && (ch <= hi);
}

static uint8_t hex_to_dec(char ch)
{'''), (U, '''        if (ch >= '0' && ch <= '9') {
                return (uint8_t)(ch - '0');
        } else if (ch >= 'A' && ch <= 'F') {
                return (uint8_t)(ch - 'A') + 10;
        } else if (ch >= 'a' && ch <= 'f') {
                return (uint8_t)(ch - 'a') + 10;
        }
        return 0;''', '''        uint8_t dec = 0;
        if (in_range(ch, '0', '9'))
                dec = (uint8_t)(ch - '0');
        else if (in_range(ch, 'A', 'F'))
                dec = (uint8_t)(ch - 'A' + 0x0A);
        else if (in_range(ch, 'a', 'f'))
                dec = (uint8_t)(ch - 'a' + 0x0A);
        return dec;'''))
R('decode-switch', (U, '''                if (state == 0) {
                        switch (ch) {
                        case '\\\\':
                                state = 1;
                                break;
                        default:
                                *output++ = ch;
                                ret_size++;
                                break;
                        }
                } else if (state == 1) {
                        switch (ch) {
                        case 'x':
                                state = 2;
                                break;
                        default:
                                *output++ = ch;
                                ret_size++;
                                state = 0;
                                break;
                        }
                } else if (state == 2) {
                        val = hex_to_dec(ch) << 4;
                        state = 3;
                } else if (state == 3) {
                        val |= hex_to_dec(ch);
                        *output++ = val;
                        ret_size++;
                        state = 0;
                }''', '''                switch (state) {
                case 0:
                        if (ch == '\\\\') {
                                state = 1;
                        } else {
                                output[ret_size++] = ch;
                        }
                        break;
                case 1:
                        if (ch == 'x') {
                                state = 2;
                        } else {
                                output[ret_size++] = ch;
                                state = 0;
                        }
                        break;
                case 2:
                        val = hex_to_dec(ch) << 4;
                        state = 3;
                        break;
                default:
                        output[ret_size++] = val | hex_to_dec(ch);
                        state = 0;
                        break;
                }'''))
R('collapse-emit-helper', (U, 'void ush_utils_get_collapse_path(char *in_path, char *out_path)\n{', '''static void add_level(char *path, const char *name)
{
        strcat(path, "/");
        strcat(path, name);
}

void ush_utils_get_collapse_path(char *in_path, char *out_path)
{'''), (U, '''        for (size_t i = 0; i < count; i++) {
                strcat(out_path, "/");
                strcat(out_path, nodes_out[i]);
        }''', '''        for (size_t i = 0; i < count; i++)
                add_level(out_path, nodes_out[i]);'''))
R('collapse-filter-ifs', (U, '''                if (strcmp(nodes[i], "..") == 0) {
                        if (count > 0)
                                count--;
                        continue;
                } else if (strcmp(nodes[i], ".") == 0) {
                        continue;
                }
                nodes_out[count++] = nodes[i];
''', '''                char *name = nodes[i];
                if (strcmp(name, "..") == 0) {
                        count -= (count > 0) ? 1 : 0;
                } else if (strcmp(name, ".") != 0) {
                        nodes_out[count] = name;
                        count++;
                }
'''))
R('collapse-same-array', (U, '''        char *nodes_out[levels];
''', '''        char **nodes_out = nodes;
'''))
R('join-once', (U, '''        strcpy(out_path, in_path);

        if (strcmp(out_path, "/") == 0) {
                strcat(out_path, name);
        } else {
                strcat(out_path, "/");
                strcat(out_path, name);
        }''', '''        bool root = (strcmp(in_path, "/") == 0);

        strcpy(out_path, in_path);
        strcat(out_path, root ? "" : "/");
        strcat(out_path, name);'''))

# ---- tree
R('abs-helper', (N, 'void ush_node_get_absolute_path(struct ush_object *self, const char *in_path, char *out_path)\n{', '''static void drop_trailing_slash(char *path)
{
        size_t len = strlen(path);
        if (len <= 1)
                return;
        if (path[len - 1] == '/')
                path[len - 1] = '\\0';
}

void ush_node_get_absolute_path(struct ush_object *self, const char *in_path, char *out_path)
{'''), (N, '''        size_t abs_path_len = strlen(abs_path);
        if ((abs_path_len > 1) && (abs_path[abs_path_len - 1] == '/'))
                abs_path[abs_path_len - 1] = '\\0';
''', '''        drop_trailing_slash(abs_path);
'''))
R('abs-cwd', (N, '''        size_t abs_path_size = strlen(in_path) + 1;
        if (in_path[0] != '/') {
                abs_path_size += strlen(self->current_node->path);
                if (strcmp(self->current_node->path, "/") != 0)
                        abs_path_size++;
        }
''', '''        const char *cwd = self->current_node->path;
        size_t abs_path_size = strlen(in_path) + 1;
        if (*in_path != '/')
                abs_path_size += strlen(cwd) + ((strcmp(cwd, "/") == 0) ? 0 : 1);
'''))
R('bypath-find-helper', (N, 'struct ush_node_object* ush_node_get_by_path(struct ush_object *self, const char *path)\n{', '''static struct ush_node_object* find_sibling(struct ush_node_object *node, const char *path)
{
        for (; node != NULL; node = node->next) {
                if (strcmp(node->path, path) == 0)
                        return node;
        }
        return NULL;
}

struct ush_node_object* ush_node_get_by_path(struct ush_object *self, const char *path)
{'''), (N, '''                bool found = false;
                while (curr != NULL) {
                        if (strcmp(curr->path, level_path) == 0) {
                                found = true;
                                break;
                        }
                        curr = curr->next;
                }

                if (found == false)
                        break;
''', '''                curr = find_sibling(curr, level_path);
                if (curr == NULL)
                        return NULL;
'''))
R('deinit-helper', (N, 'void ush_node_deinit_recursive(struct ush_object *self, struct ush_node_object *node)\n{', '''static struct ush_node_object* clear_node(struct ush_node_object *node)
{
        struct ush_node_object *next = node->next;
        memset(node, 0, sizeof(*node));
        return next;
}

void ush_node_deinit_recursive(struct ush_object *self, struct ush_node_object *node)
{'''), (N, '''                struct ush_node_object *tmp = curr->next;
                memset((uint8_t*)curr, 0, sizeof(struct ush_node_object));
                curr = tmp;
''', '''                curr = clear_node(curr);
'''))
R('deinit-always', (N, '''                if (curr->children != NULL)
                        ush_node_deinit_recursive(self, curr->children);
''', '''                ush_node_deinit_recursive(self, curr->children);
'''))
R('mount-helper', (M, 'ush_status_t ush_node_mount(struct', '''static void setup(struct ush_node_object *node, const char *path, const struct ush_file_descriptor *file_list, size_t file_list_size, struct ush_node_object *parent)
{
        node->path = path;
        node->parent = parent;
        node->file_list = file_list;
        node->file_list_size = file_list_size;
        node->next = (parent != NULL) ? parent->children : NULL;
}

ush_status_t ush_node_mount(struct'''), (M, '''                node->file_list = file_list;
                node->file_list_size = file_list_size;
                node->path = path;
                node->next = node_parent->children;
                node_parent->children = node;
                node->parent = node_parent;
                return USH_STATUS_OK;''', '''                setup(node, path, file_list, file_list_size, node_parent);
                node_parent->children = node;
                return USH_STATUS_OK;'''), (M, '''                node->file_list = file_list;
                node->file_list_size = file_list_size;
                node->path = path;
                node->next = NULL;
                self->root = node;
                self->current_node = self->root;
                node->parent = NULL;
                return USH_STATUS_OK;''', '''                setup(node, path, file_list, file_list_size, NULL);
                self->root = node;
                self->current_node = node;
                return USH_STATUS_OK;'''))
R('mount-guards', (M, '''        if (node_parent != NULL) {
                node->file_list = file_list;
                node->file_list_size = file_list_size;
                node->path = path;
                node->next = node_parent->children;
                node_parent->children = node;
                node->parent = node_parent;
                return USH_STATUS_OK;
        }

        if (strcmp(path, "/") == 0) {
                node->file_list = file_list;
                node->file_list_size = file_list_size;
                node->path = path;
                node->next = NULL;
                self->root = node;
                self->current_node = self->root;
                node->parent = NULL;
                return USH_STATUS_OK;
        }

        return USH_STATUS_ERROR_NODE_WITHOUT_PARENT;''', '''        bool is_root = (strcmp(path, "/") == 0);

        if ((node_parent == NULL) && (is_root == false))
                return USH_STATUS_ERROR_NODE_WITHOUT_PARENT;

        node->path = path;
        node->file_list = file_list;
        node->file_list_size = file_list_size;
        node->parent = node_parent;

        if (node_parent != NULL) {
                node->next = node_parent->children;
                node_parent->children = node;
        } else {
                node->next = NULL;
                self->root = node;
                self->current_node = node;
        }

        return USH_STATUS_OK;'''))
R('unmount-unlink-helper', (M, 'ush_status_t ush_node_unmount(struct', '''static bool unlink_child(struct ush_node_object *parent, struct ush_node_object *node)
{
        struct ush_node_object *prev = NULL;
        struct ush_node_object *curr = parent->children;

        while ((curr != NULL) && (curr != node)) {
                prev = curr;
                curr = curr->next;
        }

        if (curr == NULL)
                return false;

        if (prev == NULL)
                parent->children = node->next;
        else
                prev->next = node->next;

        return true;
}

ush_status_t ush_node_unmount(struct'''), (M, '''        struct ush_node_object *prev = NULL;
        struct ush_node_object *curr = parent_node->children;

        while (curr != NULL) {
                if (curr != node) {
                        prev = curr;
                        curr = curr->next;
                        continue;
                }
                if (prev == NULL) {
                        parent_node->children = node->next;
                } else {
                        prev->next = node->next;
                }
                if (self->current_node == node)
                        self->current_node = parent_node;
                return USH_STATUS_OK;           
        }

        return USH_STATUS_ERROR_NODE_NOT_FOUND;''', '''        if (unlink_child(parent_node, node) == false)
                return USH_STATUS_ERROR_NODE_NOT_FOUND;

        if (self->current_node == node)
                self->current_node = parent_node;

        return USH_STATUS_OK;'''))
R('unmount-first-special', (M, '''        struct ush_node_object *prev = NULL;
        struct ush_node_object *curr = parent_node->children;

        while (curr != NULL) {
                if (curr != node) {
                        prev = curr;
                        curr = curr->next;
                        continue;
                }
                if (prev == NULL) {
                        parent_node->children = node->next;
                } else {
                        prev->next = node->next;
                }
                if (self->current_node == node)
                        self->current_node = parent_node;
                return USH_STATUS_OK;           
        }

        return USH_STATUS_ERROR_NODE_NOT_FOUND;''', '''        if (parent_node->children == node) {
                parent_node->children = node->next;
        } else {
                struct ush_node_object *curr = parent_node->children;
                while ((curr != NULL) && (curr->next != node))
                        curr = curr->next;
                if (curr == NULL)
                        return USH_STATUS_ERROR_NODE_NOT_FOUND;
                curr->next = node->next;
        }

        if (self->current_node == node)
                self->current_node = parent_node;

        return USH_STATUS_OK;'''))
R('unmount-checks', (M, '''        if ((node == NULL) || ((node != self->root) && (parent_node == NULL)))
                return USH_STATUS_ERROR_NODE_NOT_FOUND;
''', '''        if (node == NULL)
                return USH_STATUS_ERROR_NODE_NOT_FOUND;
        if (parent_node == NULL && self->root != node)
                return USH_STATUS_ERROR_NODE_NOT_FOUND;
'''))
R('cmdrem-ptrptr', (C, '''        struct ush_node_object *prev = NULL;
        struct ush_node_object *curr = self->commands;

        while (curr != NULL) {
                if (curr != node) {
                        prev = curr;
                        curr = curr->next;
                        continue;
                }
                if (prev == NULL) {
                        self->commands = node->next;
                } else {
                        prev->next = node->next;
                }
                return USH_STATUS_OK;           
        }
''', '''        for (struct ush_node_object **link = &self->commands; *link != NULL; link = &(*link)->next) {
                if (*link == node) {
                        *link = node->next;
                        return USH_STATUS_OK;
                }
        }
'''))
R('cmdadd-order', (C, '''        node->file_list = file_list;
        node->file_list_size = file_list_size;
        node->path = NULL;

        node->next = self->commands;
        self->commands = node;
''', '''        struct ush_node_object *head = self->commands;

        node->next = head;
        node->path = NULL;
        node->file_list_size = file_list_size;
        node->file_list = file_list;
        self->commands = node;
'''))
R('parent-strncpy', (NU, '''        size_t path_len = strlen(path);
        char path_parent[path_len + 1];
        memcpy(path_parent, path, path_len + 1);
''', '''        size_t size = strlen(path) + 1;
        char path_parent[size];
        strcpy(path_parent, path);
'''))
R('setdir-nested', (NU, '''        if (node != NULL) {
                self->current_node = node;
                return USH_STATUS_OK;
        }

        return USH_STATUS_ERROR_NODE_NOT_FOUND;''', '''        ush_status_t status = USH_STATUS_ERROR_NODE_NOT_FOUND;
        if (node != NULL) {
                self->current_node = node;
                status = USH_STATUS_OK;
        }

        return status;'''))
R('find-match-helper', (F, 'struct ush_file_descriptor const* ush_file_find_by_name(struct ush_object *self, const char *name)\n{', '''static struct ush_file_descriptor const* find_command(struct ush_object *self, const char *name)
{
        for (struct ush_node_object *group = self->commands; group != NULL; group = group->next) {
                for (size_t i = 0; i < group->file_list_size; i++) {
                        if (strcmp(group->file_list[i].name, name) == 0)
                                return &group->file_list[i];
                }
        }
        return NULL;
}

struct ush_file_descriptor const* ush_file_find_by_name(struct ush_object *self, const char *name)
{'''), (F, '''        curr = self->commands;        
        while (curr != NULL) {
                for (size_t i = 0; i < curr->file_list_size; i++) {
                        file = &curr->file_list[i];
                        if (strcmp(file->name, name) == 0)
                                return file;
                }
                curr = curr->next;                
        }
''', '''        file = find_command(self, name);
        if (file != NULL)
                return file;
'''))
R('find-endptr', (F, '''                for (size_t i = 0; i < curr->file_list_size; i++) {
                        file = &curr->file_list[i];
                        if (strcmp(file->name, name) == 0)
                                return file;
                }
''', '''                for (file = curr->file_list; file < curr->file_list + curr->file_list_size; file++) {
                        if (strcmp(file->name, name) == 0)
                                return file;
                }
'''))

# ---- completion
R('ac-seen-helper', (A, 'void ush_autocomp_process_file_index(struct', '''static void found(struct ush_object *self, char *name)
{
        if (self->state == USH_STATE_AUTOCOMP_CANDIDATES_PRINT)
                ush_write_pointer(self, name, self->state);
        self->process_index = 1;
        self->autocomp_count++;
        self->autocomp_candidate_name = name;
}

void ush_autocomp_process_file_index(struct'''), (A, '''                        if (self->state == USH_STATE_AUTOCOMP_CANDIDATES_PRINT)
                                ush_write_pointer(self, (char*)file->name, self->state);
                        self->process_index = 1;
                        self->autocomp_count++;
                        self->autocomp_candidate_name = (char*)file->name;
''', '''                        found(self, (char*)file->name);
'''), (A, '''                        if (self->state == USH_STATE_AUTOCOMP_CANDIDATES_PRINT)
                                ush_write_pointer(self, self->autocomp_name, self->state);
                        self->process_index = 1;
                        self->autocomp_count++;
                        self->autocomp_candidate_name = self->autocomp_name;
''', '''                        found(self, self->autocomp_name);
'''))
R('ac-stage-helper', (A, 'void ush_autocomp_check_for_finish(struct', '''static void next_stage(struct ush_object *self, struct ush_node_object *node)
{
        self->process_stage++;
        self->process_node = node;
        self->process_index = 0;
        self->process_index_item = 0;
}

void ush_autocomp_check_for_finish(struct'''), (A, '''                self->process_node = self->current_node;
                self->process_index = 0;
                self->process_index_item = 0;
                self->process_stage = 1;
''', '''                next_stage(self, self->current_node);
'''))
R('ac-next-merged', (A, '''        if (self->process_stage == 0) {
                if (self->process_index_item >= self->process_node->file_list_size) {
                        self->process_index_item = 0;
                        self->process_node = self->process_node->next;
                        ret = true;
                }
        } else if (self->process_stage == 1) {
                if (self->process_index_item >= self->process_node->file_list_size) {
                        self->process_index_item = 0;
                        self->process_node = NULL;
                        ret = true;
                }
        } else if (self->process_stage == 2) {''', '''        if ((self->process_stage == 0) || (self->process_stage == 1)) {
                ret = (self->process_index_item >= self->process_node->file_list_size);
                if (ret) {
                        self->process_node = (self->process_stage == 0) ? self->process_node->next : NULL;
                        self->process_index_item = 0;
                }
        } else if (self->process_stage == 2) {'''))
R('ac-prep-local', (A, '''                *file = &self->process_node->file_list[self->process_index_item];
                if (ush_utils_startswith((char*)((*file)->name), self->autocomp_input) == false) {''', '''                struct ush_file_descriptor const *f = self->process_node->file_list + self->process_index_item;
                *file = f;
                if (!ush_utils_startswith(f->name, self->autocomp_input)) {'''))
R('ac-onecand-helper', (S, 'void ush_autocomp_state_candidates_finish(struct', '''static bool fits(struct ush_object *self)
{
        size_t prefix_len = self->autocomp_input - self->desc->input_buffer;
        return prefix_len + strlen(self->autocomp_candidate_name) < self->desc->input_buffer_size;
}

void ush_autocomp_state_candidates_finish(struct'''), (S, '''                        size_t prefix_len = self->autocomp_input - self->desc->input_buffer;
                        if (prefix_len + strlen(self->autocomp_candidate_name) >= self->desc->input_buffer_size) {''', '''                        if (!fits(self)) {'''))
R('ac-space-helper', (S, 'void ush_autocomp_state_candidates_finish(struct', '''static bool is_full(const struct ush_object *self)
{
        return self->in_pos + 1 >= self->desc->input_buffer_size;
}

void ush_autocomp_state_candidates_finish(struct'''), (S, '''                        self->autocomp_suffix_len = 0;
                        if (self->in_pos + 1 >= self->desc->input_buffer_size) {''', '''                        self->autocomp_suffix_len = 0;
                        if (is_full(self)) {'''), (S, '''                if (self->in_pos + 1 >= self->desc->input_buffer_size) {
                        /* no space for next char */
                        self->state = USH_STATE_AUTOCOMP_RECALL_SUFFIX;
                        return;
                }
''', '''                if (is_full(self)) {
                        self->state = USH_STATE_AUTOCOMP_RECALL_SUFFIX;
                        return;
                }
'''))
R('ac-complete-tail', (S, '''                        char *suffix = self->autocomp_input + strlen(self->autocomp_input);
                        strcpy(self->autocomp_input, self->autocomp_candidate_name);
                        self->in_pos = strlen(self->desc->input_buffer);
                        ush_write_pointer(self, suffix, USH_STATE_READ_CHAR);
                        break;''', '''                        size_t typed = strlen(self->autocomp_input);
                        strcpy(self->autocomp_input, self->autocomp_candidate_name);
                        self->in_pos = prefix_len + strlen(self->autocomp_input);
                        ush_write_pointer(self, &self->autocomp_input[typed], USH_STATE_READ_CHAR);
                        break;'''))
R('ac-complete-cat', (S, '''                        strcpy(self->autocomp_input, self->autocomp_candidate_name);
                        self->in_pos = strlen(self->desc->input_buffer);
                        ush_write_pointer(self, suffix, USH_STATE_READ_CHAR);
                        break;''', '''                        strcpy(suffix, self->autocomp_candidate_name + (suffix - self->autocomp_input));
                        self->in_pos = strlen(self->desc->input_buffer);
                        ush_write_pointer(self, suffix, USH_STATE_READ_CHAR);
                        break;'''))
R('ac-finish-invert', (S, '''                if (self->autocomp_count < self->autocomp_prev_count) {
                        if (self->in_pos > 0)
                                self->in_pos--;
                        self->desc->input_buffer[self->in_pos] = '\\0';
                        self->autocomp_suffix_len--;

                        self->state = USH_STATE_AUTOCOMP_RECALL_SUFFIX;
                        return;
                }

                if (self->in_pos + 1 >= self->desc->input_buffer_size) {
                        /* no space for next char */
                        self->state = USH_STATE_AUTOCOMP_RECALL_SUFFIX;
                        return;
                }

                ush_autocomp_optimize_continue(self);
        } else {''', '''                bool lost = (self->autocomp_count < self->autocomp_prev_count);

                if (lost) {
                        self->autocomp_suffix_len--;
                        if (self->in_pos != 0)
                                self->in_pos -= 1;
                        self->desc->input_buffer[self->in_pos] = '\\0';
                }

                if (lost || (self->in_pos + 1 >= self->desc->input_buffer_size)) {
                        self->state = USH_STATE_AUTOCOMP_RECALL_SUFFIX;
                        return;
                }

                ush_autocomp_optimize_continue(self);
        } else {'''))
R('ac-suffix-local', (S, '''        char *suffix = self->autocomp_input + strlen(self->autocomp_input) - self->autocomp_suffix_len;
        if (strlen(suffix) > 0) {''', '''        size_t len = strlen(self->autocomp_input);
        char *suffix = &self->autocomp_input[len - self->autocomp_suffix_len];
        if (suffix[0] != '\\0') {'''))
R('ac-process-nested', (S, '''        if (ush_autocomp_check_for_next(self) != false)
                return;
        
        struct ush_file_descriptor const *file = NULL;
        
        if (ush_autocomp_process_file_prepare(self, &file) != false)
                return;

        ush_autocomp_process_file_index(self, file);''', '''        struct ush_file_descriptor const *file = NULL;

        if (!ush_autocomp_check_for_next(self) && !ush_autocomp_process_file_prepare(self, &file))
                ush_autocomp_process_file_index(self, file);'''))

# ---- built-in commands
R('cat-check-helper', (K, 'void ush_buildin_cmd_cat_callback(struct', '''static ush_status_t check_file(struct ush_object *self, const char *name)
{
        struct ush_file_descriptor const *f = ush_file_find_by_name(self, name);
        if (f == NULL)
                return USH_STATUS_ERROR_FILE_NOT_FOUND;
        if (f->get_data == NULL)
                return USH_STATUS_ERROR_FILE_NOT_READABLE;
        return USH_STATUS_OK;
}

void ush_buildin_cmd_cat_callback(struct'''), (K, '''                struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[i]);
                if (f == NULL) {
                        ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_FOUND);
                        return;
                }
                if (f->get_data == NULL) {
                        ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_READABLE);
                        return;
                }
        }
''', '''                ush_status_t status = check_file(self, argv[i]);
                if (status != USH_STATUS_OK) {
                        ush_print_status(self, status);
                        return;
                }
        }
'''))
R('cat-next-helper', (K, 'bool ush_buildin_cmd_cat_service(struct', '''static bool print_next(struct ush_object *self)
{
        if (self->process_index_item >= self->args_count)
                return false;

        char *argv[self->args_count];
        ush_parse_get_args(self, argv);

        struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[self->process_index_item]);
        if ((f == NULL) || (f->get_data == NULL))
                return false;

        uint8_t *data;
        size_t data_size = f->get_data(self, f, &data);
        ush_write_pointer_bin(self, data, data_size, USH_STATE_PROCESS_SERVICE);
        self->process_index_item++;
        return true;
}

bool ush_buildin_cmd_cat_service(struct'''), (K, '''        case USH_STATE_PROCESS_SERVICE: {
                if (self->process_index_item >= self->args_count) {
                        self->state = USH_STATE_PROCESS_FINISH;
                        break;
                }

                char *argv[self->args_count];
                ush_parse_get_args(self, argv);

                struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[self->process_index_item]);
                if ((f == NULL) || (f->get_data == NULL)) {
                        /* file disappeared in the meantime */
                        self->state = USH_STATE_PROCESS_FINISH;
                        break;
                }

                uint8_t *data;
                size_t data_size = f->get_data(self, f, &data);

                ush_write_pointer_bin(self, data, data_size, self->state);
                self->process_index_item++;
                break;
        }
''', '''        case USH_STATE_PROCESS_SERVICE:
                if (!print_next(self))
                        self->state = USH_STATE_PROCESS_FINISH;
                break;
'''))
R('echo-target-helper', (E, 'void ush_buildin_cmd_echo_callback(struct', '''static struct ush_file_descriptor const* target(struct ush_object *self, char *argv[])
{
        if (strcmp(argv[2], ">") != 0) {
                ush_print_status(self, USH_STATUS_ERROR_COMMAND_WRONG_ARGUMENTS);
                return NULL;
        }

        struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[3]);
        if (f == NULL) {
                ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_FOUND);
                return NULL;
        }

        if (f->set_data == NULL) {
                ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_WRITABLE);
                return NULL;
        }

        return f;
}

void ush_buildin_cmd_echo_callback(struct'''), (E, '''                if (strcmp(argv[2], ">") != 0) {
                        ush_print_status(self, USH_STATUS_ERROR_COMMAND_WRONG_ARGUMENTS);
                        break;
                }
                f = ush_file_find_by_name(self, argv[3]);
                if (f == NULL) {
                        ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_FOUND);
                        break;
                }
                if (f->set_data == NULL) {
                        ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_WRITABLE);
                        break;
                }
                /* fallthrough */
''', '''                f = target(self, argv);
                if (f == NULL)
                        break;
                /* fallthrough */
'''))
R('echo-out', (E, '''                if (f != NULL) {
                        f->set_data(self, f, data, data_size);
                } else {
                        if (data != NULL) {
                                ush_print(self, (char*)data);
                        } else {
                                self->state = USH_STATE_RESET;
                        }
                }
                break;''', '''                if (f != NULL)
                        f->set_data(self, f, data, data_size);
                else if (data == NULL)
                        self->state = USH_STATE_RESET;
                else
                        ush_print(self, (char*)data);
                break;'''))
R('help-one-helper', (H, 'void ush_buildin_cmd_help_callback(struct', '''static void help_for(struct ush_object *self, const char *name)
{
        struct ush_file_descriptor const *f = ush_file_find_by_name(self, name);

        if ((f != NULL) && (f->help != NULL)) {
                ush_print_no_newline(self, (char*)f->help);
                return;
        }

        ush_print_status(self, (f == NULL) ? USH_STATUS_ERROR_FILE_NOT_FOUND : USH_STATUS_ERROR_FILE_NO_HELP);
}

void ush_buildin_cmd_help_callback(struct'''), (H, '''        case 2: {
                struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[1]);
                if (f == NULL) {
                        ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_FOUND);
                        return;
                }
                if (f->help == NULL) {
                        ush_print_status(self, USH_STATUS_ERROR_FILE_NO_HELP);
                        return;
                }
                ush_print_no_newline(self, (char*)f->help);
                break;
        }
''', '''        case 2:
                help_for(self, argv[1]);
                break;
'''))
R('help-eol', (H, '''                        if (f->description != NULL) {
                                ush_write_pointer(self, USH_SHELL_FONT_STYLE_RESET "\\r\\n", self->state);
                        } else {
                                ush_write_pointer(self, "\\r\\n", self->state);
                        }
                        self->process_index = 0;
                        self->process_index_item++;
                        break;''', '''                        self->process_index_item++;
                        self->process_index = 0;
                        ush_write_pointer(self, (f->description != NULL) ? USH_SHELL_FONT_STYLE_RESET "\\r\\n" : "\\r\\n", self->state);
                        break;'''))
R('help-out-local', (H, '''                        if (f->description != NULL) {
                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
                                self->process_index = 1;
                        } else {
                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%s", (char*)f->name);
                                self->process_index = 2;
                        }
                        ush_write_pointer(self, self->desc->output_buffer, self->state);
                        break;''', '''                        {
                        char *out = self->desc->output_buffer;
                        size_t size = self->desc->output_buffer_size;
                        if (f->description == NULL) {
                                snprintf(out, size, "%s", f->name);
                        } else {
                                snprintf(out, size, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- ", f->name);
                        }
                        self->process_index = (f->description == NULL) ? 2 : 1;
                        ush_write_pointer(self, out, self->state);
                        }
                        break;'''))
R('ls-dots', (L, '''                if (self->process_node->parent != NULL) {
                        ush_write_pointer(self, 
                                "d---- " USH_SHELL_FONT_COLOR_GREEN "." USH_SHELL_FONT_STYLE_RESET "\\r\\n"
                                "d---- " USH_SHELL_FONT_COLOR_GREEN ".." USH_SHELL_FONT_STYLE_RESET "\\r\\n" ,
                                USH_STATE_PROCESS_SERVICE
                        );
                } else {
                        ush_write_pointer(self,
                                "d---- " USH_SHELL_FONT_COLOR_GREEN "." USH_SHELL_FONT_STYLE_RESET "\\r\\n",
                                USH_STATE_PROCESS_SERVICE
                        );
                }
                self->process_child_node = self->process_node->children;
                self->process_index = 0;
                break;''', '''                {
                        char *dots = "d---- " USH_SHELL_FONT_COLOR_GREEN "." USH_SHELL_FONT_STYLE_RESET "\\r\\n";
                        if (self->process_node->parent != NULL)
                                dots = "d---- " USH_SHELL_FONT_COLOR_GREEN "." USH_SHELL_FONT_STYLE_RESET "\\r\\n"
                                       "d---- " USH_SHELL_FONT_COLOR_GREEN ".." USH_SHELL_FONT_STYLE_RESET "\\r\\n";
                        self->process_index = 0;
                        self->process_child_node = self->process_node->children;
                        ush_write_pointer(self, dots, USH_STATE_PROCESS_SERVICE);
                }
                break;'''))
R('ls-rights-helper', (L, 'bool ush_buildin_cmd_ls_service(struct', '''static void print_rights(struct ush_object *self, struct ush_file_descriptor const *f)
{
        snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "-%c%c%c%c ",
                f->get_data ? 'r' : '-', f->set_data ? 'w' : '-', f->exec ? 'x' : '-', f->help ? 'h' : '-');
        ush_write_pointer(self, self->desc->output_buffer, self->state);
}

bool ush_buildin_cmd_ls_service(struct'''), (L, '''                        char is_read = (f->get_data != NULL) ? 'r' : '-';
                        char is_write = (f->set_data != NULL) ? 'w' : '-';
                        char is_exec = (f->exec != NULL) ? 'x' : '-';
                        char is_help = (f->help != NULL) ? 'h' : '-';
                        snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "-%c%c%c%c ", is_read, is_write, is_exec, is_help);
                        ush_write_pointer(self, self->desc->output_buffer, self->state);
''', '''                        print_rights(self, f);
'''))
R('ls-child-local', (L, '''                if (self->process_child_node == NULL) {
                        self->process_index = 0;
                        self->process_index_item = 0;
                        self->state = USH_STATE_PROCESS_FINISH;
                        break;
                }
''', '''                if (!self->process_child_node) {
                        self->state = USH_STATE_PROCESS_FINISH;
                        self->process_index_item = 0;
                        self->process_index = 0;
                        break;
                }
'''))
R('ls-callback-if', (L, '''        switch (argc) {
        case 1:
                self->process_node = self->current_node;
                break;
        case 2: {
                char abs_path[self->desc->path_max_length];
                ush_node_get_absolute_path(self, argv[1], abs_path);

                self->process_node = (abs_path[0] != '\\0') ? ush_node_get_by_path(self, abs_path) : NULL;
                if (self->process_node == NULL) {
                        ush_print_status(self, USH_STATUS_ERROR_NODE_NOT_FOUND);
                        return;
                }
                break;
        }
        default:
                ush_print_status(self, USH_STATUS_ERROR_COMMAND_WRONG_ARGUMENTS);
                return;
        }
''', '''        if ((argc < 1) || (argc > 2)) {
                ush_print_status(self, USH_STATUS_ERROR_COMMAND_WRONG_ARGUMENTS);
                return;
        }

        struct ush_node_object *node = self->current_node;
        if (argc == 2) {
                char abs_path[self->desc->path_max_length];
                ush_node_get_absolute_path(self, argv[1], abs_path);
                node = (*abs_path == '\\0') ? NULL : ush_node_get_by_path(self, abs_path);
        }

        self->process_node = node;
        if (node == NULL) {
                ush_print_status(self, USH_STATUS_ERROR_NODE_NOT_FOUND);
                return;
        }
'''))
R('xxd-hex-helper', (X, 'bool ush_buildin_cmd_xxd_service(struct', '''static void print_hex(struct ush_object *self, size_t offset)
{
        size_t len = strlen(self->desc->output_buffer);
        char *out = self->desc->output_buffer + len;
        size_t size = self->desc->output_buffer_size - len;

        if (offset < self->process_data_size)
                snprintf(out, size, "%02X ", self->process_data[offset]);
        else
                snprintf(out, size, "   ");
}

bool ush_buildin_cmd_xxd_service(struct'''), (X, '''                                size_t offset = self->process_index_item + i;
                                size_t len = strlen(self->desc->output_buffer);
                                char *out = &self->desc->output_buffer[len];
                                size_t out_size = self->desc->output_buffer_size - len;
                                if (offset < self->process_data_size) {
                                        uint8_t b = self->process_data[offset];
                                        snprintf(out, out_size, "%02X ", b);
                                } else {
                                        snprintf(out, out_size, "   ");
                                }
''', '''                                print_hex(self, self->process_index_item + i);
'''))
R('xxd-char-index', (X, '''                                size_t offset = self->process_index_item;
                                size_t len''', '''                                size_t offset = self->process_index_item + i;
                                size_t len'''), (X, '''                                        snprintf(out, out_size, " ");
                                }
                                self->process_index_item++;
                        }
''', '''                                        snprintf(out, out_size, " ");
                                }
                        }
                        self->process_index_item += USH_CMD_XXD_COLUMNS;
'''))
R('xxd-callback-local', (X, '''        self->process_data_size = f->get_data(self, f, &self->process_data);
        ush_process_start(self, file);''', '''        uint8_t *data = self->process_data;
        size_t size = f->get_data(self, f, &data);

        self->process_data = data;
        self->process_data_size = size;
        ush_process_start(self, file);''') if False else (X, '''        if (f->get_data == NULL) {
                ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_READABLE);
                return;
        }

        self->process_data_size = f->get_data(self, f, &self->process_data);
        ush_process_start(self, file);''', '''        if (f->get_data != NULL) {
                size_t size = f->get_data(self, f, &self->process_data);
                self->process_data_size = size;
                ush_process_start(self, file);
        } else {
                ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_READABLE);
        }'''))
R('xxd-pos-helper', (X, 'bool ush_buildin_cmd_xxd_service(struct', '''static void show(struct ush_object *self, size_t next)
{
        ush_write_pointer(self, self->desc->output_buffer, self->state);
        self->process_index = next;
}

bool ush_buildin_cmd_xxd_service(struct'''), (X, '''"%08lX: ", self->process_index_item);
                        ush_write_pointer(self, self->desc->output_buffer, self->state);
                        self->process_index = 1;
''', '''"%08lX: ", self->process_index_item);
                        show(self, 1);
'''))
R('cd-status', ('commands/ush_cmd_cd.c', '''        ush_status_t status = ush_node_set_current_dir(self, argv[1]);
        if (status != USH_STATUS_OK) {
                ush_print_status(self, status);
                return;
        }''', '''        const char *path = argv[1];
        ush_status_t status = ush_node_set_current_dir(self, path);

        if (status == USH_STATUS_OK)
                return;

        ush_print_status(self, status);'''))
R('autocomp-if', ('ush_autocomp.c', '''        case USH_STATE_AUTOCOMP_PROMPT_PREPARE:
                ush_write_pointer(self, "\\r\\n", USH_STATE_AUTOCOMP_PROMPT);
                break;

        case USH_STATE_AUTOCOMP_PROMPT:
                ush_prompt_start(self, USH_STATE_AUTOCOMP_RECALL);
                break;

        case USH_STATE_AUTOCOMP_RECALL:
                ush_write_pointer(self, self->desc->input_buffer, USH_STATE_READ_CHAR);
                break;
''', '''        case USH_STATE_AUTOCOMP_RECALL: {
                char *line = self->desc->input_buffer;
                ush_write_pointer(self, line, USH_STATE_READ_CHAR);
                break;
        }

        case USH_STATE_AUTOCOMP_PROMPT:
                ush_prompt_start(self, USH_STATE_AUTOCOMP_RECALL);
                break;

        case USH_STATE_AUTOCOMP_PROMPT_PREPARE:
                ush_write_pointer(self, "\\r\\n", USH_STATE_AUTOCOMP_PROMPT);
                break;
'''))
R('service-loop', ('ush.c', '''        if (ush_parse_service(self) != false)
                return true;        
        if (ush_write_service(self) != false)
                return true;
        if (ush_process_service(self) != false)
                return true;

        return false;''', '''        return ush_parse_service(self) || ush_write_service(self) || ush_process_service(self);'''))
R('service-order', ('ush.c', '''        if (ush_parse_service(self) != false)
                return true;        
        if (ush_write_service(self) != false)
                return true;
        if (ush_process_service(self) != false)
                return true;
''', '''        if (ush_write_service(self) != false)
                return true;
        if (ush_process_service(self) != false)
                return true;
        if (ush_parse_service(self) != false)
                return true;
''') if False else ('ush.c', '''        bool busy = false;

        if (ush_reset_service(self) != false)
                return true;        
        if (ush_prompt_service(self) != false)
                return true;        
''', '''        bool busy = false;

        if (ush_reset_service(self) || ush_prompt_service(self))
                return true;
'''))

SEEDS2 = {}  # second series
TREE = r'''static struct ush_node_object r, a, b, c, d;
'''
E1 = r'''static void e1(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { (void)s; (void)f; (void)argc; (void)argv; }
'''


def seed(i, prop, edits, demo, needs, breaks):
    SEEDS2[i] = (prop, edits, '#include "sh.h"\n' + demo.lstrip(), needs, breaks)


seed('c01-argv-null', 'C01', [('ush_parse.c', 'char *argv[self->args_count + 1];', 'char *argv[self->args_count > 1 ? self->args_count + 1 : 1];')], E1 + TREE + r'''
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0);
    line("pwd\r"); CHECK(strstr(out, "\n/\r\n"));
    line("help pwd\r"); CHECK(strstr(out, "usage"));
    return 0; }
''', 'a command without arguments', 'the NULL behind the only argument is written behind the array on the stack')

seed('c02-csi-digits', 'C02', [('ush_read_utils.c', """                self->ansi_escape_state = 0;
                echo = false;
        }

        return echo;""", """                if (ch < '0' || ch > '9' || self->in_pos < 2)
                        self->ansi_escape_state = 0;
                echo = false;
        }

        return echo;""")], TREE + r'''
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0); feed("", 0);
    feed("a\x1b[Ab", 5); CHECK(strcmp(ib, "ab") == 0);
    feed("\x1b[3c", 4); CHECK(strcmp(ib, "abc") == 0);
    return 0; }
''', 'an escape sequence whose third byte is a digit', 'the byte behind the three byte sequence is swallowed')

seed('c03-first-empty', 'C03', [('ush_parse_utils.c', """                case ' ':
                        self->desc->input_buffer[self->out_pos++] = '\\0';
""", """                case ' ':
                        if (self->out_pos > 0 || self->in_pos < 4)
                                self->desc->input_buffer[self->out_pos++] = '\\0';
""")], TREE + r'''
static char got[8][64]; static int gn;
static void hk(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { (void)s; (void)f; gn = argc; for (int i = 0; i < argc && i < 8; i++) strcpy(got[i], argv[i]); }
int main(void) {
    desc.exec = hk; ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0);
    line("\"\" b\r"); CHECK(gn == 2 && !got[0][0] && !strcmp(got[1], "b"));
    line("a \"\" b\r"); CHECK(gn == 3 && !strcmp(got[0], "a") && !got[1][0] && !strcmp(got[2], "b"));
    line("  \"\" b\r"); CHECK(gn == 2 && !got[0][0] && !strcmp(got[1], "b"));
    return 0; }
''', 'blanks in front of an empty quoted first argument', 'the empty argument is lost and the arguments run into each other')

seed('c03-escape-kept', 'C03', [('ush_parse_utils.c', """        self->args_count = 0;
        self->escape_flag = false;
""", """        self->args_count = 0;
""")], TREE + r'''
static char got[8][64]; static int gn;
static void hk(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { (void)s; (void)f; gn = argc; for (int i = 0; i < argc && i < 8; i++) strcpy(got[i], argv[i]); }
int main(void) {
    desc.exec = hk; ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0);
    line("ab c\r"); CHECK(gn == 2 && !strcmp(got[0], "ab") && !strcmp(got[1], "c"));
    line("ab\\\r"); CHECK(gn == 1 && !strcmp(got[0], "ab"));
    line("ab \"c d\"\r"); CHECK(gn == 2 && !strcmp(got[0], "ab") && !strcmp(got[1], "c d"));
    line("x y\\\r"); line("a\"b c\"\r"); CHECK(gn == 1 && !strcmp(got[0], "ab c"));
    line("x y\\\r"); line("q\r"); CHECK(gn == 1 && !strcmp(got[0], "q"));
    return 0; }
''', 'a line that ends with a backslash, followed by another line', 'the second character of the next line is taken literally')

seed('c04-lookup-before-hook', 'C04', [('ush_parse.c', """        if (self->desc->exec != NULL)
                self->desc->exec(self, NULL, argc, argv);

        struct ush_file_descriptor const *file = ush_file_find_by_name(self, argv[0]);
""", """        struct ush_file_descriptor const *file = ush_file_find_by_name(self, argv[0]);

        if (self->desc->exec != NULL)
                self->desc->exec(self, NULL, argc, argv);

""")], TREE + r'''
static int ran;
static void e2(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { (void)s; (void)f; (void)argc; (void)argv; ran++; }
static const struct ush_file_descriptor fl[] = { { .name = "late", .exec = e2 } };
static struct ush_node_object g; static int added;
static void hk(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { (void)f; (void)argc; if (!added && !strcmp(argv[0], "late")) { ush_commands_add(s, &g, fl, 1); added = 1; } }
int main(void) {
    desc.exec = hk; ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0);
    line("late\r"); CHECK(ran == 1);
    line("late\r"); CHECK(ran == 2);
    return 0; }
''', 'a hook that registers the command it is told about', 'the command is looked up before the hook has run')

seed('c04-exec-only-dirs', 'C04', [('ush_parse.c', 'if (file->exec == NULL) {', 'if (file->exec == NULL && file->set_data == NULL) {')], TREE + r'''
static void st(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t *dd, size_t n) { (void)s; (void)f; (void)dd; (void)n; }
static const struct ush_file_descriptor fl[] = { { .name = "v" }, { .name = "w", .set_data = st } };
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, fl, 2);
    line("v\r"); CHECK(strstr(out, "not executable"));
    line("w\r"); CHECK(strstr(out, "not executable"));
    return 0; }
''', 'the name of a writable file without exec callback is typed as a command', 'a NULL callback is called')

seed('c05-short-region', 'C05', [('ush_write_utils.c', '        self->write_pos = 0;\n', '        self->write_pos = (data_size == 1 && self->write_size > 300) ? 1 : 0;\n')], TREE + r'''
static char txt[400];
static size_t gd(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **p) { (void)s; (void)f; *p = (uint8_t*)txt; return 390; }
static size_t g1(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **p) { (void)s; (void)f; *p = (uint8_t*)"#"; return 1; }
static const struct ush_file_descriptor fl[] = { { .name = "v", .get_data = gd }, { .name = "w", .get_data = g1 } };
int main(void) {
    memset(txt, 'z', 390); ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, fl, 2);
    line("cat w v\r"); CHECK(strstr(out, "#zzz"));
    line("cat v w\r"); CHECK(strstr(out, "zzz#"));
    return 0; }
''', 'a region of one byte is queued directly after one of more than 300 bytes', 'the single byte is lost')

seed('c06-two-writes', 'C06', [('ush_write_utils.c', '        self->write_pos++;\n', "        self->write_pos++;\n        if (ch == '\\r' && self->write_pos < self->write_size && self->desc->io->write(self, self->write_buf[self->write_pos]) != 0)\n                self->write_pos++;\n")], TREE + r'''
static int w;
static int wr2(struct ush_object *s, char ch) { (void)s; (void)ch; w++; return 1; }
static const struct ush_io_interface io2 = { .read = rd, .write = wr2 };
int main(void) {
    desc.io = &io2; ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0); in_p = "pwd\r"; in_n = 4;
    for (int i = 0; i < 2000; i++) { w = 0; ush_service(&sh); CHECK(w <= 1); }
    return 0; }
''', 'a carriage return in the output', 'one call of the service writes two characters')

seed('c07-full-slash', 'C07', [('ush_node.c', "        if ((abs_path_len > 1) && (abs_path[abs_path_len - 1] == '/'))\n", "        if ((abs_path_len > 1) && (abs_path[abs_path_len - 1] == '/') && (abs_path_len + 1 < self->desc->path_max_length))\n")], TREE + r'''
int main(void) {
    char o[64]; ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0);
    ush_node_get_absolute_path(&sh, "/a/b/", o); CHECK(!strcmp(o, "/a/b"));
    ush_node_get_absolute_path(&sh, "/a/b/../", o); CHECK(!strcmp(o, "/a"));
    desc.path_max_length = 6; ush_node_get_absolute_path(&sh, "/abc/", o); CHECK(!strcmp(o, "/abc"));
    return 0; }
''', 'a path with a trailing slash that fills the path buffers', 'the result keeps a trailing slash')

seed('c07-count-floor', 'C07', [('ush_utils.c', """                        if (count > 0)
                                count--;
""", """                        if (count > 0 && (count > 1 || i < 12))
                                count--;
""")], TREE + r'''
int main(void) {
    char o[64]; ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0);
    ush_node_get_absolute_path(&sh, "/a/..", o); CHECK(!strcmp(o, "/"));
    ush_node_get_absolute_path(&sh, "/a/b/../c", o); CHECK(!strcmp(o, "/a/c"));
    ush_node_get_absolute_path(&sh, "/a/b/c/d/e/f/g/../../../../../../../x", o); CHECK(!strcmp(o, "/x"));
    return 0; }
''', 'a ".." behind more than twelve components that takes the path back to the root', 'the first component is not removed')

seed('c08-level-path', 'C08', [('ush_node.c', 'char level_path[self->desc->path_max_length];', 'char level_path[self->desc->path_max_length - 1];')], TREE + r'''
int main(void) {
    desc.path_max_length = 9; ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0);
    CHECK(ush_node_mount(&sh, "/1234567", &a, NULL, 0) == USH_STATUS_OK);
    CHECK(ush_node_get_by_path(&sh, "/1234567") == &a);
    return 0; }
''', 'a path of exactly path_max_length bytes with its NUL', 'the NUL of the level is written behind the buffer')

seed('c09-prefix-sibling', 'C09', [('ush_node.c', 'if (strcmp(curr->path, level_path) == 0) {', 'if (strncmp(curr->path, level_path, strlen(level_path)) == 0 && (i < levels || strlen(curr->path) == strlen(level_path))) {')], TREE + r'''
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0);
    CHECK(ush_node_mount(&sh, "/a", &a, NULL, 0) == USH_STATUS_OK); CHECK(ush_node_mount(&sh, "/a/x", &b, NULL, 0) == USH_STATUS_OK);
    CHECK(ush_node_get_by_path(&sh, "/a/x") == &b);
    CHECK(ush_node_mount(&sh, "/ab", &c, NULL, 0) == USH_STATUS_OK);
    CHECK(ush_node_get_by_path(&sh, "/ab") == &c); CHECK(ush_node_get_by_path(&sh, "/a/x") == &b);
    return 0; }
''', 'a directory whose name starts with the name of an older sibling that has children', 'the children of the older sibling are not found any more')

seed('c09-mount-under-file-parent', 'C09', [('ush_node_mount.c', '        if (node->children != NULL)\n                return USH_STATUS_ERROR_NODE_WITH_CHILDS;\n', '        if (node->children != NULL && node->file_list_size == 0)\n                return USH_STATUS_ERROR_NODE_WITH_CHILDS;\n')], TREE + r'''
static const struct ush_file_descriptor fl[] = { { .name = "v" } };
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0);
    ush_node_mount(&sh, "/a", &a, NULL, 0); ush_node_mount(&sh, "/a/x", &b, NULL, 0);
    CHECK(ush_node_unmount(&sh, "/a") == USH_STATUS_ERROR_NODE_WITH_CHILDS);
    ush_node_mount(&sh, "/c", &c, fl, 1); ush_node_mount(&sh, "/c/x", &d, NULL, 0);
    CHECK(ush_node_unmount(&sh, "/c") == USH_STATUS_ERROR_NODE_WITH_CHILDS);
    CHECK(ush_node_get_by_path(&sh, "/c/x") == &d);
    return 0; }
''', 'unmount of a directory that has both files and child directories', 'the directory is unmounted and its children are lost')

seed('c10-cd-leaf', 'C10', [('ush_node_utils.c', '        if (node != NULL) {\n                self->current_node = node;\n', '        if (node != NULL) {\n                if (self->root == NULL || node->parent == NULL || node->parent != self->current_node || node->file_list_size > 0 || node->children != NULL)\n                        self->current_node = node;\n')], TREE + r'''
static const struct ush_file_descriptor fl[] = { { .name = "v" } };
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0); ush_node_mount(&sh, "/a", &a, fl, 1); ush_node_mount(&sh, "/b", &b, NULL, 0);
    line("cd a\r"); CHECK(sh.current_node == &a); line("cd ..\r"); CHECK(sh.current_node == &r);
    line("cd b\r"); CHECK(sh.current_node == &b); line("pwd\r"); CHECK(strstr(out, "/b"));
    return 0; }
''', 'cd from a directory to a child that has neither files nor children', 'cd reports success but the directory stays')

seed('c10-unmount-parent-cd', 'C10', [('ush_node_mount.c', '                if (prev == NULL) {\n                        parent_node->children = node->next;\n', '                if (prev == NULL) {\n                        parent_node->children = node->next;\n                        if (self->current_node == parent_node && node->next == NULL && parent_node->parent != NULL)\n                                self->current_node = parent_node->parent;\n')], TREE + r'''
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0); ush_node_mount(&sh, "/a", &a, NULL, 0); ush_node_mount(&sh, "/a/b", &b, NULL, 0);
    CHECK(ush_node_set_current_dir(&sh, "/a") == USH_STATUS_OK);
    CHECK(ush_node_unmount(&sh, "/a/b") == USH_STATUS_OK); CHECK(sh.current_node == &a);
    return 0; }
''', 'the only child of the current directory (not the root) is unmounted', 'the current directory moves up')

seed('c11-slash-command', 'C11', [('ush_file.c', '        curr = self->commands;\x20\x20\x20\x20\x20\x20\x20\x20\n', "        curr = (name[0] == '/') ? NULL : self->commands;\n")], E1 + TREE + r'''
static const struct ush_file_descriptor fl[] = { { .name = "/run", .exec = e1 }, { .name = "x", .exec = e1 } };
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0); ush_commands_add(&sh, &a, fl, 2);
    CHECK(ush_file_find_by_name(&sh, "x") == &fl[1]); CHECK(ush_file_find_by_name(&sh, "/run") == &fl[0]);
    return 0; }
''', 'a command whose name starts with a slash', 'the command is not found')

seed('c12-many-files', 'C12', [('commands/ush_cmd_cat.c', 'for (int i = 1; i < argc; i++) {', 'for (int i = 1; i < argc && i < 8; i++) {')], TREE + r'''
static size_t g1(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **p) { (void)s; (void)f; *p = (uint8_t*)"ONE"; return 3; }
static const struct ush_file_descriptor fl[] = { { .name = "a", .get_data = g1 } };
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, fl, 1);
    line("cat a a a a a a zz\r"); CHECK(strstr(out, "ONE") == NULL && strstr(out, "not found"));
    line("cat a a a a a a a zz\r"); CHECK(strstr(out, "ONE") == NULL && strstr(out, "not found"));
    return 0; }
''', 'more than seven files, a late one missing', 'the contents of the first files are printed before the error is noticed')

seed('c13-double-backslash', 'C13', [('ush_utils.c', """                        default:
                                *output++ = ch;
                                ret_size++;
                                state = 0;
                                break;
""", """                        default:
                                *output++ = ch;
                                ret_size++;
                                state = (ch == '\\\\') ? 1 : 0;
                                break;
""")], TREE + r'''
int main(void) {
    char in[32]; uint8_t o[32]; size_t n;
    strcpy(in, "\\x41\\zb"); n = ush_utils_decode_ascii(in, o, 32); CHECK(n == 3 && !memcmp(o, "Azb", 3));
    strcpy(in, "\\\\x41"); n = ush_utils_decode_ascii(in, o, 32); CHECK(n == 4 && !memcmp(o, "\\x41", 4));
    return 0; }
''', 'two backslashes followed by x and two digits', 'the second backslash opens an escape')

seed('c13-in-place-tail', 'C13', [('commands/ush_cmd_echo.c', 'size_t max_size = strlen(data_in);', 'size_t max_size = strlen(data_in) - ((argc == 4 && strlen(data_in) > 32) ? 1 : 0);')], TREE + r'''
static char got[64]; static size_t gn;
static void st(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t *dd, size_t n) { (void)s; (void)f; memcpy(got, dd, n); gn = n; }
static const struct ush_file_descriptor fl[] = { { .name = "v", .set_data = st } };
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, fl, 1);
    line("echo abc > v\r"); CHECK(gn == 3);
    line("echo 0123456789012345678901234567890123456789 > v\r"); CHECK(gn == 40);
    return 0; }
''', 'a text of more than 32 characters written to a file', 'its last character is dropped')

seed('c14-del-char', 'C14', [('commands/ush_cmd_xxd.c', 'if (ush_utils_is_printable(b) != false) {', 'if (ush_utils_is_printable(b) != false || (b == 0xE9 && self->process_data_size < 8)) {')], TREE + r'''
static uint8_t bt[8] = "ab\xe9\xff";
static size_t g1(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **p) { (void)s; (void)f; *p = bt; return 4; }
static const struct ush_file_descriptor fl[] = { { .name = "a", .get_data = g1 } };
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, fl, 1);
    line("xxd a\r"); CHECK(strstr(out, "61 62 E9 FF ")); CHECK(strstr(out, "ab..    "));
    return 0; }
''', 'a byte 0xE9 in a file of less than one row', 'it is printed raw in the character column')

seed('c14-exact-rows', 'C14', [('commands/ush_cmd_xxd.c', 'if (self->process_index_item >= self->process_data_size) {', 'if (self->process_index_item >= self->process_data_size + (self->process_data_size == 2 * USH_CMD_XXD_COLUMNS)) {')], TREE + r'''
static uint8_t bt[64]; static size_t n;
static size_t g1(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **p) { (void)s; (void)f; *p = bt; return n; }
static const struct ush_file_descriptor fl[] = { { .name = "a", .get_data = g1 } };
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, fl, 1);
    n = 8; line("xxd a\r"); CHECK(!strstr(out, "00000008:")); n = 24; line("xxd a\r"); CHECK(!strstr(out, "00000018:") && strstr(out, "00000010:"));
    n = 16; line("xxd a\r"); CHECK(!strstr(out, "00000010:") && strstr(out, "00000008:"));
    return 0; }
''', 'a file of exactly 16 bytes', 'an additional row without bytes is printed')

seed('c15-empty-deep', 'C15', [('commands/ush_cmd_ls.c', 'if (self->process_node->parent != NULL) {', 'if (self->process_node->parent != NULL && (self->process_node->parent == self->root || self->process_node->file_list_size > 0 || self->process_node->children != NULL)) {')], TREE + r'''
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0); ush_node_mount(&sh, "/a", &a, NULL, 0);
    line("ls\r"); CHECK(!strstr(out, "..")); line("ls a\r"); CHECK(strstr(out, ".."));
    ush_node_mount(&sh, "/a/b", &b, NULL, 0); line("ls a/b\r"); CHECK(strstr(out, ".."));
    return 0; }
''', 'an empty directory below the first level', 'the ".." line is missing')

seed('c15-write-flag', 'C15', [('commands/ush_cmd_ls.c', "char is_exec = (f->exec != NULL) ? 'x' : '-';", "char is_exec = (f->exec != NULL && (f->get_data == NULL || f->set_data == NULL || f->description != NULL || f->help != NULL)) ? 'x' : '-';")], E1 + TREE + r'''
static size_t g1(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **p) { (void)s; (void)f; *p = (uint8_t*)"x"; return 1; }
static void st(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t *dd, size_t n) { (void)s; (void)f; (void)dd; (void)n; }
static const struct ush_file_descriptor fl[] = { { .name = "p", .exec = e1, .get_data = g1 }, { .name = "q", .exec = e1, .get_data = g1, .set_data = st } };
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, fl, 2);
    line("ls\r"); CHECK(strstr(out, "-r-x- p") && strstr(out, "-rwx- q"));
    return 0; }
''', 'a file that is readable, writable and executable', 'the x is missing')

seed('c16-help-of-data', 'C16', [('commands/ush_cmd_help.c', 'if (f->help == NULL) {', 'if (f->help == NULL || (f->set_data != NULL && f->get_data == NULL)) {')], TREE + r'''
static void st(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t *dd, size_t n) { (void)s; (void)f; (void)dd; (void)n; }
static const struct ush_file_descriptor fl[] = { { .name = "p", .help = "HELPP\r\n", .description = "d" }, { .name = "q", .help = "HELPQ\r\n", .set_data = st } };
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, fl, 2);
    line("help p\r"); CHECK(strstr(out, "HELPP")); line("help q\r"); CHECK(strstr(out, "HELPQ"));
    return 0; }
''', 'help for a file that can only be written', 'an error is printed instead of its help')

seed('c16-stale-node', 'C16', [('commands/ush_cmd_help.c', """                self->process_index = 0;
                self->process_index_item = 0;
                ush_process_start(self, file);
""", """                self->process_index = 0;
                if (self->process_index_item < 8)
                        self->process_index_item = 0;
                ush_process_start(self, file);
""")], TREE + r'''
static size_t g1(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **p) { (void)s; (void)f; *p = (uint8_t*)"xxxxxxxxx"; return 9; }
static const struct ush_file_descriptor fl[] = { { .name = "a", .get_data = g1 } };
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, fl, 1);
    line("help\r"); CHECK(strstr(out, "list available commands"));
    line("ls\r"); line("help\r"); CHECK(strstr(out, "list available commands"));
    line("xxd a\r"); line("help\r"); CHECK(strstr(out, "list available commands"));
    return 0; }
''', 'help directly after xxd', 'the listing starts behind the commands of the first group')

seed('c17-dedupe', 'C17', [('ush_autocomp_utils.c', '                        self->process_index = 1;\n                        self->autocomp_count++;\n                        self->autocomp_candidate_name = (char*)file->name;\n', '                        self->process_index = 1;\n                        if (self->autocomp_count == 0 || self->autocomp_input == NULL || self->autocomp_candidate_name == file->name || strcmp(self->autocomp_candidate_name, file->name) != 0)\n                                self->autocomp_count++;\n                        self->autocomp_candidate_name = (char*)file->name;\n')], E1 + TREE + r'''
static char n1[] = "zeta", m1[] = "zeta";
static const struct ush_file_descriptor fl[] = { { .name = n1, .exec = e1 } }, gl[] = { { .name = m1, .exec = e1 } };
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, fl, 1); line("ze\t"); CHECK(!strcmp(ib, "zeta")); line("\x03");
    ush_commands_add(&sh, &a, gl, 1); line("zeta\t"); char *p = strstr(out, "\r\nzeta\r\n"); CHECK(p && strstr(p + 6, "zeta\r\n"));
    return 0; }
''', 'a command and a file of the same name both match', 'they count as a single match')

seed('c17-no-listing', 'C17', [('ush_autocomp_state.c', '                        self->autocomp_suffix_len--;\n', '                        if (self->autocomp_suffix_len > 1 || self->in_pos != 11)\n                                self->autocomp_suffix_len--;\n')], E1 + TREE + r"""
static const struct ush_file_descriptor fl[] = { { .name = "zeta1", .exec = e1 }, { .name = "zeta2", .exec = e1 } };
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, fl, 2); feed("", 0);
    line("zeta\t"); CHECK(!strcmp(ib, "zeta")); CHECK(strstr(out, "\r\nzeta1\r\nzeta2\r\n")); line("\x03");
    line("ls abcd zet\t"); CHECK(!strcmp(ib, "ls abcd zeta"));
    line("\t"); CHECK(strstr(out, "\r\nzeta1\r\nzeta2\r\n")); line("\x03");
    line("ls abc zeta\t"); CHECK(strstr(out, "\r\nzeta1\r\nzeta2\r\n"));
    return 0; }
""", 'TAB on an argument that is already the common prefix of several names, on a line of eleven characters', 'the names are not listed')

seed('c19-remove-clears', 'C19', [('ush_commands.c', '                        prev->next = node->next;\n', '                        prev->next = (node->next != &self->buildin_commands) ? node->next : self->buildin_commands.next;\n')], E1 + TREE + r'''
static const struct ush_file_descriptor f1[] = { { .name = "p", .exec = e1 } }, f2[] = { { .name = "q", .exec = e1 } };
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0);
    ush_commands_add(&sh, &a, f1, 1); CHECK(ush_commands_remove(&sh, &a) == USH_STATUS_OK); CHECK(ush_file_find_by_name(&sh, "pwd"));
    ush_commands_add(&sh, &a, f1, 1); ush_commands_add(&sh, &b, f2, 1); CHECK(ush_commands_remove(&sh, &a) == USH_STATUS_OK);
    CHECK(ush_file_find_by_name(&sh, "q") == f2); CHECK(ush_file_find_by_name(&sh, "pwd"));
    return 0; }
''', 'the group next to the built-in commands is removed while a newer group is registered', 'the built-in commands are removed as well')

seed('c21-reset-keeps-dir', 'C21', [('ush_reset.c', '        self->current_node = self->root;\n', '        if (self->current_node == NULL || self->current_node->children == NULL)\n                self->current_node = self->root;\n')], TREE + r'''
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0); ush_node_mount(&sh, "/a", &a, NULL, 0);
    ush_node_set_current_dir(&sh, "/a"); ush_reset(&sh); CHECK(sh.current_node == &r);
    ush_node_mount(&sh, "/a/b", &b, NULL, 0); ush_node_set_current_dir(&sh, "/a"); ush_reset(&sh); CHECK(sh.current_node == &r);
    return 0; }
''', 'reset while the current directory has children', 'the current directory survives the reset')

seed('c22-silent-command', 'C22', [('ush_parse_char.c', '                self->state = USH_STATE_RESET_PROMPT;\n', '                self->state = (self->args_count < 5) ? USH_STATE_RESET_PROMPT : USH_STATE_READ_PREPARE;\n')], E1 + TREE + r'''
static void st(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t *dd, size_t n) { (void)s; (void)f; (void)dd; (void)n; }
static const struct ush_file_descriptor fl[] = { { .name = "v", .set_data = st }, { .name = "x", .exec = e1 } };
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, fl, 2); feed("", 0);
    line("cd /\r"); CHECK(strstr(out, "]$ ")); line("\r"); CHECK(strstr(out, "]$ "));
    line("echo a > v\r"); CHECK(strstr(out, "]$ ")); line("x 1 2 3 4\r"); CHECK(strstr(out, "]$ "));
    return 0; }
''', 'a command with at least four arguments that prints nothing', 'no prompt is printed after it')

seed('c01-narrow-position', 'C01', [('ush_read_utils.c', '                if (self->in_pos >= self->desc->input_buffer_size)\n', '                if ((uint8_t)self->in_pos >= self->desc->input_buffer_size)\n')], TREE + r"""
int main(void) {
    static char big[600]; memset(big, 'Z', 600); desc.input_buffer = big; desc.input_buffer_size = 300;
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0); feed("", 0);
    for (int i = 0; i < 400; i++) feed("a", 1);
    for (int i = 300; i < 600; i++) CHECK(big[i] == 'Z');
    return 0; }
""", 'an input buffer of more than 255 bytes and a line that does not fit', 'the line runs over the end of the buffer')

seed('c18-followup', 'C18', [('ush.c', '                self->write_next_state = USH_STATE_RESET_PROMPT;\n', '                if (self->write_next_state != USH_STATE_RESET)\n                        self->write_next_state = USH_STATE_RESET_PROMPT;\n')], E1 + TREE + r"""
static void pr(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { (void)f; (void)argc; (void)argv; ush_printf(s, "%s", "A"); ush_printf(s, "%s", "B"); }
static void p2(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { (void)f; (void)argc; (void)argv; strcpy(ob, "A"); ush_print(s, ob); ush_printf(s, "%s", "B"); }
static const struct ush_file_descriptor fl[] = { { .name = "p", .exec = pr }, { .name = "q", .exec = p2 } };
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, fl, 2);
    line("p\r"); CHECK(strstr(out, "AB\x1b[35m"));
    line("q\r"); CHECK(strstr(out, "AB\x1b[35m"));
    return 0; }
""", 'ush_printf appends to a text of the output buffer printed by ush_print', 'an additional empty line is printed')

seed('c20-static-status', 'C20', [('ush.c', '        char *ret = (char*)ush_utils_get_status_string(status);\n        ush_write_pointer(self, ret, USH_STATE_RESET);\n', '        static char text[128];\n        strcpy(text, ush_utils_get_status_string(status));\n        ush_write_pointer(self, text, USH_STATE_RESET);\n')], TREE + r"""
static char o2[4096]; static size_t n2; static char i2[16], b2[32]; static const char *s2 = "";
static int rd2(struct ush_object *s, char *ch) { (void)s; if (!*s2) return 0; *ch = *s2++; return 1; }
static int wr2(struct ush_object *s, char ch) { (void)s; o2[n2++] = ch; return 1; }
static const struct ush_io_interface io2 = { .read = rd2, .write = wr2 };
static struct ush_descriptor d2 = { .io = &io2, .input_buffer = i2, .input_buffer_size = 16, .output_buffer = b2, .output_buffer_size = 32, .path_max_length = 16, .hostname = "k" };
static struct ush_object t;
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0); ush_init(&t, &d2); ush_node_mount(&t, "/", &a, NULL, 0);
    feed("", 0); for (int i = 0; i < 300; i++) ush_service(&t);
    out_n = n2 = 0; in_p = "cd\r"; in_n = 3; s2 = "cd z\r";
    for (int i = 0; i < 1500; i++) { ush_service(&sh); ush_service(&t); }
    out[out_n] = 0; CHECK(strstr(out, "wrong arguments") && strstr(o2, "not found"));
    return 0; }
""", 'two shells that report different errors at the same time', 'one shell prints the error of the other one')

SEEDS = {}


def seed(i, prop, edits, demo, needs, breaks):
    SEEDS[i] = (prop, edits, '#include "sh.h"\n' + demo.lstrip(), needs, breaks)


seed('c05-last-refused', 'C05', [('ush_write_utils.c', 'if (self->desc->io->write(self, ch) == 0)\n', 'if (self->desc->io->write(self, ch) == 0 && self->write_pos + 1 < self->write_size)\n')], r'''
static int n, k;
static struct ush_node_object r;
static int wr2(struct ush_object *s, char ch) { (void)s; if (n++ == k) return 0; out[out_n++] = ch; return 1; }
static const struct ush_io_interface io2 = { .read = rd, .write = wr2 };
int main(void) {
    desc.io = &io2;
    for (k = 0; k < 8; k++) {
        ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0); n = 0; out_n = 0;
        ush_print_no_newline(&sh, "abc");
        for (int i = 0; i < 50 && sh.state == USH_STATE_WRITE_CHAR; i++) ush_service(&sh);
        CHECK(out_n == 3 && memcmp(out, "abc", 3) == 0);
    }
    return 0; }
''', 'the write interface refuses exactly the last byte of a queued region', 'the last byte of a region is lost when the interface refuses it')

seed('c09-unlink-middle', 'C09', [('ush_node_mount.c', '                        prev->next = node->next;\n', '                        prev->next = (node->next != NULL) ? node->next->next : NULL;\n')], r'''
static struct ush_node_object r, a, b, c, d;
int main(void) {
    ush_init(&sh, &desc);
    CHECK(ush_node_mount(&sh, "/", &r, NULL, 0) == USH_STATUS_OK);
    CHECK(ush_node_mount(&sh, "/a", &a, NULL, 0) == USH_STATUS_OK);
    CHECK(ush_node_mount(&sh, "/b", &b, NULL, 0) == USH_STATUS_OK);
    CHECK(ush_node_mount(&sh, "/c", &c, NULL, 0) == USH_STATUS_OK);
    CHECK(ush_node_unmount(&sh, "/b") == USH_STATUS_OK);
    CHECK(ush_node_get_by_path(&sh, "/c") == &c);
    CHECK(ush_node_get_by_path(&sh, "/b") == NULL);
    CHECK(ush_node_get_by_path(&sh, "/a") == &a);
    return 0; }
''', 'three siblings; the one in the middle of the sibling list is unmounted', 'unmounting a middle sibling also loses the next one')

seed('c07-dotdot-prefix', 'C07', [('ush_utils.c', 'if (strcmp(nodes[i], "..") == 0) {', 'if (ush_utils_startswith(nodes[i], "..")) {')], r'''
int main(void) {
    char in[32], o[32];
    strcpy(in, "/a/..b/c"); ush_utils_get_collapse_path(in, o); CHECK(strcmp(o, "/a/..b/c") == 0);
    strcpy(in, "/a/../c"); ush_utils_get_collapse_path(in, o); CHECK(strcmp(o, "/c") == 0);
    strcpy(in, "/a/..."); ush_utils_get_collapse_path(in, o); CHECK(strcmp(o, "/a/...") == 0);
    return 0; }
''', 'a path component that starts with two dots but is longer', 'such a component removes its predecessor like ".."')

seed('c11-first-in-group', 'C11', [('ush_file.c', 'for (size_t i = 0; i < curr->file_list_size; i++) {\n                        file = &curr->file_list[i];\n                        if (strcmp(file->name, name)', 'for (size_t i = curr->file_list_size; i-- > 0;) {\n                        file = &curr->file_list[i];\n                        if (strcmp(file->name, name)')], r'''
static void e1(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { (void)s; (void)f; (void)argc; (void)argv; }
static const struct ush_file_descriptor fl[] = { { .name = "run", .exec = e1 }, { .name = "x", .exec = e1 }, { .name = "run", .exec = e1 } };
static struct ush_node_object g, r;
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0);
    ush_commands_add(&sh, &g, fl, 3);
    CHECK(ush_file_find_by_name(&sh, "run") == &fl[0]);
    CHECK(ush_file_find_by_name(&sh, "x") == &fl[1]);
    return 0; }
''', 'a command group that holds the same name twice', 'the last instead of the first command of the group is found')

seed('c11-first-char', 'C11', [('ush_file.c', 'if (strcmp(file_path, abs_path) == 0)', 'if (strcmp(file_path, abs_path) == 0 && (curr->children == NULL || file->exec != NULL))')], r'''
static size_t gd(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { (void)s; (void)f; *d = (uint8_t*)"x"; return 1; }
static const struct ush_file_descriptor fl[] = { { .name = "v", .get_data = gd } };
static struct ush_node_object d, r;
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, fl, 1);
    CHECK(ush_file_find_by_name(&sh, "v") == fl);
    ush_node_mount(&sh, "/d", &d, fl, 1);
    CHECK(ush_file_find_by_name(&sh, "/d/v") == fl);
    CHECK(ush_file_find_by_name(&sh, "/v") == fl);
    return 0; }
''', 'a data file in a directory that has child directories', 'the file is not found')

seed('c19-stale-next', 'C19', [('ush_commands.c', '        node->next = self->commands;\n', '        if (node->next == NULL)\n                node->next = self->commands;\n')], r'''
static void e1(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { (void)s; (void)f; (void)argc; (void)argv; }
static const struct ush_file_descriptor f1[] = { { .name = "u", .exec = e1 } }, f2[] = { { .name = "v", .exec = e1 } };
static struct ush_node_object g1, g2, r;
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0);
    ush_commands_add(&sh, &g1, f1, 1); ush_commands_add(&sh, &g2, f2, 1);
    CHECK(ush_commands_remove(&sh, &g2) == USH_STATUS_OK);
    CHECK(ush_commands_remove(&sh, &g1) == USH_STATUS_OK);
    ush_commands_add(&sh, &g2, f2, 1);
    CHECK(ush_file_find_by_name(&sh, "v") == f2);
    CHECK(ush_file_find_by_name(&sh, "u") == NULL);
    CHECK(ush_file_find_by_name(&sh, "cd") != NULL);
    return 0; }
''', 'a group is removed, then another one, and the first is added again', 'the group added again brings back a removed group')

seed('c02-erase-in-escape', 'C02', [('ush_read_char.c', 'if (self->in_pos > 0) {', 'if (self->in_pos > 0 && self->ansi_escape_state == 0) {')], r'''
static struct ush_node_object r;
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0); feed("", 0);
    feed("ab\x1b\x08", 4);
    CHECK(strcmp(ib, "a") == 0);
    return 0; }
''', 'a backspace directly after ESC', 'the backspace does not erase the last character')

seed('c08-parent-copy', 'C08', [('ush_node_utils.c', 'char path_parent[path_len + 1];', 'char path_parent[path_len ? path_len : 1];')], r'''
static struct ush_node_object r;
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0);
    CHECK(ush_file_find_by_name(&sh, "/a/b/c") == NULL);
    return 0; }
''', 'any lookup of a path; the overflow is one byte on the stack', 'the copy of the path is one byte too small for its NUL')

seed('c06-gap-resets-escape', 'C06', [('ush_read_char.c', """        if (self->desc->io->read(self, &ch) == 0)
                return false;
""", """        if (self->desc->io->read(self, &ch) == 0) {
                if (self->ansi_escape_state > 1)
                        self->ansi_escape_state = 0;
                return false;
        }
""")], r'''
static struct ush_node_object r;
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0); feed("", 0);
    feed("a\x1b[", 3); for (int i = 0; i < 5; i++) ush_service(&sh); feed("Ab", 2);
    CHECK(strcmp(ib, "ab") == 0);
    return 0; }
''', 'the terminal has nothing to deliver between the second and the third byte of an escape sequence', 'an idle call changes the escape state, the last byte of the sequence is inserted')

seed('c12-empty-file', 'C12', [('commands/ush_cmd_cat.c', '                self->process_index_item++;\n', '                self->process_index_item += (data_size > 0) ? 1 : 2;\n')], r'''
static size_t g0(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { (void)s; (void)f; *d = (uint8_t*)"x"; return 0; }
static size_t g1(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { (void)s; (void)f; *d = (uint8_t*)"ONE"; return 3; }
static size_t g2(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { (void)s; (void)f; *d = (uint8_t*)"TWO"; return 3; }
static const struct ush_file_descriptor fl[] = { { .name = "e", .get_data = g0 }, { .name = "a", .get_data = g1 }, { .name = "b", .get_data = g2 } };
static struct ush_node_object r;
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, fl, 3);
    line("cat a b\r"); CHECK(strstr(out, "ONETWO"));
    line("cat a e b\r"); CHECK(strstr(out, "ONETWO"));
    return 0; }
''', 'a file without content in front of another one', 'the file after an empty file is skipped')

seed('c16-second-group', 'C16', [('commands/ush_cmd_help.c', """                        self->process_index = 0;
                        self->process_index_item = 0;
                        self->process_node = self->process_node->next;
""", """                        self->process_index = 0;
                        self->process_index_item = (self->process_index_item > 1) ? 0 : self->process_index_item;
                        self->process_node = self->process_node->next;
""")], r'''
static void e1(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { (void)s; (void)f; (void)argc; (void)argv; }
static const struct ush_file_descriptor f1[] = { { .name = "uno", .exec = e1 } }, f2[] = { { .name = "due", .exec = e1 }, { .name = "tre", .exec = e1 } };
static struct ush_node_object g1, g2, r;
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0);
    ush_commands_add(&sh, &g2, f2, 2); line("help\r"); CHECK(strstr(out, "due") && strstr(out, "tre") && strstr(out, "usage") == NULL && strstr(out, "help   "));
    ush_commands_add(&sh, &g1, f1, 1); line("help\r"); CHECK(strstr(out, "uno") && strstr(out, "due") && strstr(out, "tre") && strstr(out, "help   "));
    return 0; }
''', 'a command group with a single command in front of another group', 'the first command of the next group is not listed')

seed('c20-local-text', 'C20', [('commands/ush_cmd_help.c', """                        ush_write_pointer(self, self->desc->output_buffer, self->state);
                        break;
                case 1:
""", """                        if (f->description == NULL) {
                                char name[32];
                                snprintf(name, sizeof(name), "%s", (char*)f->name);
                                ush_write_pointer(self, name, self->state);
                                break;
                        }
                        ush_write_pointer(self, self->desc->output_buffer, self->state);
                        break;
                case 1:
""")], r'''
static void e1(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { (void)s; (void)f; (void)argc; (void)argv; }
static const struct ush_file_descriptor fl[] = { { .name = "something", .exec = e1 }, { .name = "else", .exec = e1 } };
static struct ush_node_object g, r;
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0); ush_commands_add(&sh, &g, fl, 2); feed("", 0);
    in_p = "help\r"; in_n = 5; char here;
    for (int i = 0; i < 3000; i++) { ush_service(&sh); CHECK(!(sh.write_buf > &here - 65536 && sh.write_buf < &here)); }
    return 0; }
''', 'a command without description in a help listing', 'the text being written lies in the stack frame of a call that has returned')

seed('c22-abandoned-in-escape', 'C22', [('ush_read_char.c', 'ush_write_pointer(self, "^C", USH_STATE_RESET);', 'ush_write_pointer(self, "^C", (self->ansi_escape_state == 0) ? USH_STATE_RESET : USH_STATE_READ_CHAR);')], r'''
static struct ush_node_object r;
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0); feed("", 0);
    line("ab\x03"); CHECK(strstr(out, "^C\r\n") && strstr(out, "[h "[0] ? "[" : ""));
    line("ab\x1b\x03"); CHECK(strstr(out, "^C\r\n") && strstr(out, "]$ ")); CHECK(ib[0] == 0);
    return 0; }
''', 'Ctrl-C directly after ESC', 'no prompt follows and the line is not abandoned')

seed('c01-erase-in-sequence', 'C01', [('ush_read_char.c', 'if (self->in_pos > 0) {', 'if (self->in_pos > 0 || self->ansi_escape_state == 2) {')], r'''
static struct ush_node_object r;
int main(void) {
    static char big[64]; memset(big, 'Z', 64); desc.input_buffer = big + 32; desc.input_buffer_size = 16;
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0); feed("", 0);
    feed("ab\x1b[\x7f\x7f\x7f" "c", 8);
    feed("\x03", 1);
    feed("\x1b[\x7f", 3);
    for (int i = 0; i < 32; i++) CHECK(big[i] == 'Z');
    for (int i = 48; i < 64; i++) CHECK(big[i] == 'Z');
    return 0; }
''', 'DEL received after ESC [ while the line is empty', 'the position underflows and a NUL is written in front of the input buffer')

seed('c03-empty-argument', 'C03', [('ush_parse_utils.c', '                ptr += strlen(argv[i]) + 1;\n', "                ptr += strlen(argv[i]) + 1;\n                if (i > 0 && i + 2 < argc && *ptr == '\\0')\n                        ptr++;\n")], r'''
static char got[8][64]; static int gn;
static void e1(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { (void)s; (void)f; gn = argc; for (int i = 0; i < argc && i < 8; i++) strcpy(got[i], argv[i]); }
static const struct ush_file_descriptor fl[] = { { .name = "run", .exec = e1 } };
static struct ush_node_object g, r;
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0); ush_commands_add(&sh, &g, fl, 1);
    line("run \"\" b\r"); CHECK(gn == 3 && !strcmp(got[1], "") && !strcmp(got[2], "b"));
    line("run a b c\r"); CHECK(gn == 4 && !strcmp(got[1], "a") && !strcmp(got[2], "b") && !strcmp(got[3], "c"));
    line("run a \"\" c\r"); CHECK(gn == 4 && !strcmp(got[1], "a") && !strcmp(got[2], "") && !strcmp(got[3], "c"));
    return 0; }
''', 'an empty quoted argument in the middle of at least four arguments', 'the empty argument is skipped and the following ones move up')

seed('c04-hook-empty-name', 'C04', [('ush_parse.c', 'if (self->desc->exec != NULL)', "if (self->desc->exec != NULL && argv[0][0] != '\\0')")], r'''
static struct ush_node_object r; static int hooks;
static void hk(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { (void)s; (void)argc; (void)argv; if (f == NULL) hooks++; }
int main(void) {
    desc.exec = hk;
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0);
    line("pwd\r"); CHECK(hooks == 1);
    line("   \r"); CHECK(hooks == 1);
    line("\"\" x\r"); CHECK(hooks == 2);
    return 0; }
''', 'a line whose first argument is a quoted empty string', 'the exec hook is not called for that line')

seed('c13-empty-text', 'C13', [('commands/ush_cmd_echo.c', '                if (f != NULL) {\n', '                if (f != NULL && data_size > 0) {\n')], r'''
static int ncalls; static size_t gn;
static void st(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t *d, size_t n) { (void)s; (void)f; (void)d; gn = n; ncalls++; }
static const struct ush_file_descriptor fl[] = { { .name = "v", .set_data = st } };
static struct ush_node_object r;
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, fl, 1);
    line("echo AB > v\r"); CHECK(ncalls == 1 && gn == 2);
    line("echo \"\" > v\r"); CHECK(ncalls == 2 && gn == 0);
    return 0; }
''', 'an empty quoted text written to a file', 'the setter is not called (a file cannot be emptied)')

seed('c14-far-rows', 'C14', [('commands/ush_cmd_xxd.c', 'size_t offset = self->process_index_item + i;', 'uint8_t offset = self->process_index_item + i;')], r'''
static uint8_t b[300]; static size_t n;
static size_t gd(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **d) { (void)s; (void)f; *d = b; return n; }
static const struct ush_file_descriptor fl[] = { { .name = "v", .get_data = gd } };
static struct ush_node_object r;
int main(void) {
    for (int i = 0; i < 300; i++) b[i] = (uint8_t)(i < 256 ? 0x11 : 0x22);
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, fl, 1);
    n = 10; line("xxd v\r"); CHECK(strstr(out, "00000008: 11 11 "));
    n = 300; line("xxd v\r"); CHECK(strstr(out, "000000F8: 11 11 ") && strstr(out, "00000100: 22 22 "));
    return 0; }
''', 'a file longer than 256 bytes', 'the hex columns repeat the first 256 bytes')

seed('c15-blank-description', 'C15', [('commands/ush_cmd_ls.c', "                case 1:\n                        if (f->description != NULL) {", "                case 1:\n                        if (f->description != NULL && f->description[0] != '\\0') {")], r'''
static const struct ush_file_descriptor fl[] = { { .name = "p", .description = "text" }, { .name = "q", .description = "" } };
static struct ush_node_object r;
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, fl, 2);
    line("ls\r"); CHECK(strstr(out, "----- p               ")); CHECK(strstr(out, "----- q               "));
    return 0; }
''', 'a file whose description is present but empty', 'its name is printed without the column padding')

seed('c17-hidden-names', 'C17', [('ush_autocomp_utils.c', 'if (ush_utils_startswith((char*)((*file)->name), self->autocomp_input) == false) {', "if (ush_utils_startswith((char*)((*file)->name), self->autocomp_input) == false ||\n                    ((*file)->name[0] == '.' && self->autocomp_input[0] == '\\0')) {")], r'''
static const struct ush_file_descriptor fl[] = { { .name = ".rc" }, { .name = "b" } };
static struct ush_node_object r;
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, fl, 2); feed("", 0);
    line("ls .\t"); CHECK(strcmp(ib, "ls .rc") == 0); feed("\x03", 1);
    line("ls \t"); CHECK(strstr(out, "\r\nb\r\n") && strstr(out, "\r\n.rc\r\n"));
    return 0; }
''', 'a file whose name starts with a dot and an empty prefix', 'the file is not among the matches')


seed('c10-second-root', 'C10', [('ush_node_mount.c', '                self->current_node = self->root;\n', '                if (self->current_node == NULL)\n                        self->current_node = self->root;\n')], r'''
static struct ush_node_object r, q, a;
int main(void) {
    ush_init(&sh, &desc); CHECK(ush_node_mount(&sh, "/", &r, NULL, 0) == USH_STATUS_OK); CHECK(sh.current_node == &r);
    CHECK(ush_node_unmount(&sh, "/") == USH_STATUS_OK);
    CHECK(ush_node_mount(&sh, "/", &q, NULL, 0) == USH_STATUS_OK); CHECK(sh.root == &q);
    CHECK(ush_node_mount(&sh, "/a", &a, NULL, 0) == USH_STATUS_OK);
    line("ls\r"); CHECK(strstr(out, "a/")); CHECK(sh.current_node == &q);
    return 0; }
''', 'the root is unmounted and another node is mounted as root', 'the current directory stays at the node that is no longer mounted')

seed('c21-deinit-current', 'C21', [('ush_node.c', 'struct ush_node_object *tmp = curr->next;', 'struct ush_node_object *tmp = (curr == self->current_node) ? NULL : curr->next;')], r'''
static struct ush_node_object r, a, b, c, z;
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0);
    ush_node_mount(&sh, "/a", &a, NULL, 0); ush_node_mount(&sh, "/b", &b, NULL, 0); ush_node_mount(&sh, "/c", &c, NULL, 0);
    CHECK(ush_node_set_current_dir(&sh, "/b") == USH_STATUS_OK);
    ush_deinit(&sh);
    CHECK(!memcmp(&a, &z, sizeof(z)) && !memcmp(&b, &z, sizeof(z)) && !memcmp(&c, &z, sizeof(z)) && !memcmp(&r, &z, sizeof(z)));
    return 0; }
''', 'deinit while the current directory has later siblings', 'the nodes behind the current directory are not cleared')

seed('c18-stale-text', 'C18', [('ush.c', "                self->desc->output_buffer[0] = '\\0';\n", "                if (self->write_size == 0)\n                        self->desc->output_buffer[0] = '\\0';\n")], r'''
static void e1(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[]) { (void)f; if (argc > 1) ush_print_no_newline(s, argv[1]); ush_printf(s, "%s", "done"); }
static const struct ush_file_descriptor fl[] = { { .name = "run", .exec = e1 } };
static struct ush_node_object g, r;
int main(void) {
    ush_init(&sh, &desc); ush_node_mount(&sh, "/", &r, NULL, 0); ush_commands_add(&sh, &g, fl, 1);
    line("run\r"); CHECK(strstr(out, "\ndone\x1b[35m"));
    line("run ab\r"); CHECK(strstr(out, "run ab\r\ndone\x1b[35m"));
    return 0; }
''', 'ush_printf after ush_print_no_newline in the same command', 'older text of the output buffer is printed in front of the new text')


from seeds2 import SEEDS2
SEEDS.update(SEEDS2)

import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
S='src/src/'
p('C01','Typed bytes never make the shell touch memory outside its buffers',
 'Whatever bytes arrive from the terminal, reading, editing, echoing and parsing the command line only ever read and write inside the input buffer (input_buffer_size bytes) and the output buffer (output_buffer_size bytes) given in the descriptor. The line held in the input buffer is NUL-terminated inside the buffer whenever the shell waits for input, and no internal assertion fires.',
 ['inputs','histories','configurations'],'every sequence of input bytes (including NUL, control bytes, over-long lines, unterminated quotes and escapes), every input buffer size >= 2 and output buffer size >= 4, every interleaving with back-pressure on the output',
 'Unit tests feed a handful of short lines into fixed 4- to 128-byte buffers; an off-by-one at an exact buffer size or a particular escape at the buffer end is outside that sample.',
 [S+'ush_read_char.c',S+'ush_read_utils.c',S+'ush_parse.c',S+'ush_parse_char.c',S+'ush_parse_utils.c'],
 [('wrap of in_pos at input_buffer_size',S+'ush_read_utils.c ush_read_char_by_escape_state'),('out_pos trails in_pos while parsing in place',S+'ush_parse_utils.c ush_parse_char_standard'),('echo uses the first 4 bytes of the output buffer',S+'ush_read_utils.c ush_read_echo_service')],
 [('in_pos','write/read cursor in the input buffer','struct ush_object'),('out_pos','in-place parse output cursor','struct ush_object')],['ush_service'])
p('C02','Line editing: the edited line and its echo follow the typed bytes exactly',
 'While a line is being typed, the text in the input buffer after each received byte is the previous text with that byte appended, or with its last character removed for backspace (0x08) and DEL (0x7F) when there is one; TAB, Ctrl-C, ESC and the bytes of ESC-[-x / ESC-O-x sequences are never inserted, and an appended byte that reaches the last cell of the buffer restarts the line as empty. The echo for each byte is that byte itself (nothing for NUL), CR LF for CR, "\\b \\b" for an effective erase, "^C" for Ctrl-C and nothing for the bytes that are not inserted or for an erase on an empty line. CR or LF that is inserted starts parsing of the line, Ctrl-C abandons it, every other byte returns to reading.',
 ['inputs','histories','configurations'],'every typed byte sequence, every buffer size, every escape-sequence state',
 'Tests try each key once from one or two cursor positions; they do not cover every byte value in every escape state and cursor position.',
 [S+'ush_read_char.c',S+'ush_read_utils.c',S+'ush_read.c'],
 [('per-byte dispatch',S+'ush_read_char.c ush_read_char'),('escape-sequence filter and append',S+'ush_read_utils.c ush_read_char_by_escape_state'),('echo',S+'ush_read_utils.c ush_read_echo_service')],
 [('ansi_escape_state','0 normal, 1 after ESC, 2 after ESC [ or ESC O','struct ush_object')],['ush_service','io.write'])
p('C03','A command line is split into exactly the arguments its quoting rules define',
 'A finished line is split at unquoted, unescaped spaces (runs of spaces separate once, leading and trailing spaces are ignored); double quotes group characters including spaces and are removed, a backslash makes the next character literal and is removed, except that a backslash before x is kept so that \\xNN reaches the command. The argument strings handed to the command are exactly these, in order, each NUL-terminated, and their number is the argument count.',
 ['inputs','configurations'],'every line content that fits the input buffer, every mixture of spaces, quotes and backslashes (exactness is stated for lines without typed NUL bytes; with them the splitting stays inside the buffers)',
 'A few dozen example lines are tested; the rule is over all lines, and in-place rewriting makes errors depend on relative positions of quotes and escapes.',
 [S+'ush_parse.c',S+'ush_parse_char.c',S+'ush_parse_utils.c'],
 [('parser automaton',S+'ush_parse_utils.c ush_parse_char_standard'),('argument vector construction',S+'ush_parse_utils.c ush_parse_get_args'),('end of line',S+'ush_parse_char.c ush_parse_char')],
 [('args_count','arguments seen so far','struct ush_object'),('escape_flag','previous character was an unescaped backslash','struct ush_object')],['exec callbacks: argc, argv'])
p('C04','Each command line dispatches to exactly one outcome',
 'A line with at least one argument first calls the descriptor exec hook (if set) with a NULL file and then resolves the first argument: if it names nothing the syntax-error status is printed, if the file has no exec callback the not-executable status is printed, otherwise that file\'s exec callback is called exactly once with the file, argc and argv where argv[argc] is NULL. A line with no arguments calls nothing and prints no status. In every case the shell afterwards returns to the prompt unless the command itself arranged for further output.',
 ['inputs','configurations'],'every argument count and first argument, every command/file registration, hook present or absent',
 'Tests mock the lookup and check a few argument counts; the exactly-once and argv-termination facts quantify over all lines.',
 [S+'ush_parse.c',S+'ush_parse_char.c',S+'ush_process.c'],
 [('dispatch',S+'ush_parse.c ush_parse_finish'),('state after the line end',S+'ush_parse_char.c ush_parse_char'),('process callbacks',S+'ush_process.c')],
 [],['exec callbacks','printed status'])
p('C05','Output bytes are delivered exactly, in order, once, under any back-pressure',
 'For every text or binary region queued for output, the bytes accepted by the write interface are exactly the bytes of that region, in order, each once, no matter how many times and when the interface refuses a byte. A refused byte changes nothing, and only after the last byte has been accepted does the shell move to the follow-up state that was requested with the region.',
 ['inputs','schedules','fault_sequences'],'every region content and length (including NUL bytes and length 0), every pattern of accepted and refused writes',
 'Tests script one or two accept/refuse patterns on short strings.',
 [S+'ush_write.c',S+'ush_write_utils.c'],
 [('queueing',S+'ush_write_utils.c ush_write_pointer_bin'),('one byte per step',S+'ush_write_utils.c ush_write_char')],
 [('write_buf/write_size/write_pos','pending output region','struct ush_object'),('write_next_state','state entered after the region is drained','struct ush_object')],['io.write'])
p('C06','ush_service never blocks and reports idleness truthfully',
 'One call of ush_service performs at most one read or write interface call, runs every internal loop to an end, and returns false exactly when the shell was starting or waiting to read and no byte was delivered (or it is in no serviceable state). When the read interface has nothing, the call changes nothing.',
 ['inputs','schedules','histories'],'every reachable shell state, every interface response',
 'Tests call the service functions in isolation with scripted return values; termination and the one-operation bound quantify over all states and inputs.',
 [S+'ush.c',S+'ush_read.c',S+'ush_read_char.c',S+'ush_write_utils.c',S+'ush_reset.c',S+'ush_prompt.c',S+'ush_autocomp.c',S+'ush_parse.c',S+'ush_process.c'],
 [('service chain',S+'ush.c ush_service'),('sub-services claim disjoint states',S+'ush_*.c *_service')],[],['ush_service return value','io.read, io.write'])
p('C07','Paths normalise to the unique canonical absolute path',
 'Making a path absolute prefixes the current directory unless it starts with a slash, ignores one trailing slash, and then resolves its components left to right: "." components disappear, ".." removes the previous component and is ignored at the root, every other component is kept unchanged and in order. The result starts with a slash and is "/" when no component remains.',
 ['inputs','configurations'],'every path string that fits the configured path length, every current directory (of two adjacent slashes the second counts as part of the component behind it)',
 'About thirty literal paths are tested; the statement is over all component sequences.',
 [S+'ush_utils.c',S+'ush_node.c'],
 [('component resolution',S+'ush_utils.c ush_utils_get_collapse_path'),('absolute path',S+'ush_node.c ush_node_get_absolute_path')],[],['pwd','cd','file lookup'])
p('C08','Path handling never overflows its path buffers, whatever path is typed',
 'Resolving any typed path argument against any current directory reads and writes only inside path buffers of path_max_length bytes, and an argument whose absolute form does not fit is reported as not found instead of being resolved. Joining, splitting and normalising paths stay inside the caller\'s buffers for every string that fits them.',
 ['inputs','configurations'],'every typed path of any length and content (many slashes, dots, no slash), every path_max_length >= 2 that holds the paths of the mounted directories and their files',
 'Tests use short paths and 256-byte buffers, so no overflow is reachable from them.',
 [S+'ush_node.c',S+'ush_node_utils.c',S+'ush_utils.c',S+'ush_file.c'],
 [('stack path buffers',S+'ush_node.c ush_node_get_absolute_path'),('component arrays sized by level count',S+'ush_utils.c ush_utils_get_collapse_path'),('level splitting',S+'ush_utils.c ush_utils_get_path_level')],[],['cd','ls','file lookup'])
p('C09','The mounted directory tree behaves as a map from path to node',
 'After any sequence of mounts and unmounts, looking up an absolute path returns the node mounted at exactly that path, and NULL when nothing is mounted there. A mount succeeds exactly when the path is "/" and no root is mounted, or the path is free and its parent is mounted; an unmount succeeds exactly when a node is mounted there and it has no children; otherwise the documented error (already mounted, without parent, not found, with children) is returned and neither the tree nor the node passed in is changed. A successful operation changes the lookup result of that one path only.',
 ['histories','inputs'],'every history of mount/unmount calls on distinct zero-initialised node objects with canonical absolute paths that fit path_max_length, every lookup of a canonical path',
 'Tests build one or two fixed trees of depth <= 3; sibling-list and prefix errors depend on the history.',
 [S+'ush_node.c',S+'ush_node_mount.c',S+'ush_node_utils.c',S+'ush_utils.c'],
 [('level-wise descent',S+'ush_node.c ush_node_get_by_path'),('head insertion',S+'ush_node_mount.c ush_node_mount'),('unlinking',S+'ush_node_mount.c ush_node_unmount'),('parent lookup',S+'ush_node_utils.c ush_node_get_parent_by_path')],
 [('parent/children/next','tree links','struct ush_node_object')],['ush_node_mount','ush_node_unmount','ush_node_get_by_path'])
p('C10','The current directory is always mounted; cd moves it or fails cleanly',
 'cd with one argument makes the directory mounted at that argument\'s normalised absolute path the current directory, or prints directory-not-found (wrong-arguments for another argument count) and leaves it unchanged; pwd prints exactly the current directory\'s path. While a root is mounted the current directory is always a mounted node, also after unmounting the current directory, which moves it to its parent.',
 ['histories','inputs'],'every history of mount, unmount and cd, every typed path',
 'Tests check a few cd targets on a fixed tree and never unmount the current directory.',
 [S+'ush_node_utils.c',S+'ush_node_mount.c',S+'ush_reset.c',S+'commands/ush_cmd_cd.c',S+'commands/ush_cmd_pwd.c'],
 [('change directory',S+'ush_node_utils.c ush_node_set_current_dir'),('initial and repaired current directory',S+'ush_reset.c ush_reset, ush_node_mount.c')],
 [('current_node','current directory','struct ush_object')],['cd','pwd','prompt'])
p('C11','A name resolves to the first matching command, else to the file at that path',
 'Resolving a name first searches the global command groups, newest group first and in list order, for an exactly equal command name; only if there is none does it resolve the name as a path, and then a file is found only in a node whose path joined with the file name equals the normalised absolute path, starting at the mounted parent directory of that path. Nothing is found otherwise, and every list is searched completely and not beyond its end.',
 ['inputs','configurations','histories'],'every name, every set of registered groups and mounted files, every current directory',
 'Tests resolve a few names in one tree; precedence and completeness quantify over all registrations.',
 [S+'ush_file.c',S+'ush_utils.c'],
 [('two-phase search',S+'ush_file.c ush_file_find_by_name'),('path join',S+'ush_utils.c ush_utils_join_path')],[],['command execution','cat','xxd','help','echo'])
p('C12','cat checks every file first and then prints each file\'s data completely in order',
 'cat with no file prints wrong-arguments; if any named file does not exist or has no data getter, cat prints file-not-found or file-not-readable for the first such file and prints no file content. Otherwise it prints, for each argument in order, exactly the bytes that file\'s data getter returns when its turn comes, each argument once, and then returns to the prompt.',
 ['inputs','histories','configurations'],'every number of arguments, every file set, every getter result, files disappearing between the check and the printing',
 'Tests run cat on one or two mocked files.',
 [S+'commands/ush_cmd_cat.c'],
 [('argument check',S+'commands/ush_cmd_cat.c ush_buildin_cmd_cat_callback'),('iteration over arguments',S+'commands/ush_cmd_cat.c ush_buildin_cmd_cat_service')],
 [('process_index_item','next argument to print','struct ush_object')],['io.write'])
p('C13','echo prints or stores exactly the decoded argument',
 'echo with one argument prints that argument with every \\xNN replaced by the byte NN and nothing else added or left over (output ends at a decoded NUL), echo with no argument prints an empty line, and echo text > file passes exactly the decoded bytes and their count to that file\'s data setter once. A second operand other than ">", a missing file, a file without setter or any other argument count prints the matching status and calls no setter.',
 ['inputs','configurations'],'every argument string (escapes at every position, truncated escapes, non-hex digits), every argument count',
 'Tests decode about ten literals; stale bytes after in-place decoding depend on the argument.',
 [S+'commands/ush_cmd_echo.c',S+'ush_utils.c'],
 [('decoder',S+'ush_utils.c ush_utils_decode_ascii'),('command',S+'commands/ush_cmd_echo.c ush_buildin_cmd_echo_callback')],[],['io.write','set_data callbacks'])
p('C14','xxd dumps every byte of the file exactly once in canonical rows',
 'xxd prints, for offset 0, 8, 16, ... in order, one row holding the offset as 8 hex digits, the two-digit upper-case hex of each of the up to eight bytes of that row padded with blanks, and the same bytes as characters with non-printable bytes shown as a dot, and stops after the row that contains the last byte (one blank row for empty data). No byte outside the data is read and nothing is written outside the output buffer; missing, unreadable files or a wrong argument count print the matching status.',
 ['inputs','configurations'],'every data size and content, every output buffer size of at least 26 bytes',
 'Tests check a few fixed buffers of up to 16 bytes.',
 [S+'commands/ush_cmd_xxd.c',S+'ush_utils.c'],
 [('row emission',S+'commands/ush_cmd_xxd.c ush_buildin_cmd_xxd_service'),('printable test',S+'ush_utils.c ush_utils_is_printable')],
 [('process_index_item','current data offset','struct ush_object')],['io.write'])
p('C15','ls lists every child directory and every file of the directory exactly once',
 'ls lists the current directory or the directory at the normalised argument path: first "." (and ".." when it has a parent), then the last path component of every child node in sibling order, then every file of the directory in list order with its r, w, x and h flags set exactly when a getter, setter, exec callback or help text is present, its name and its description if any, each exactly once. A path that is not mounted prints directory-not-found, more than one argument prints wrong-arguments.',
 ['inputs','histories','configurations'],'every tree, every file list, every flag combination, every file name that fits the output buffer; longer names must not overflow it',
 'Tests step through one or two nodes with mocked output.',
 [S+'commands/ush_cmd_ls.c',S+'ush_utils.c'],
 [('directory selection',S+'commands/ush_cmd_ls.c ush_buildin_cmd_ls_callback'),('listing steps',S+'commands/ush_cmd_ls.c ush_buildin_cmd_ls_service'),('last component',S+'ush_utils.c ush_utils_path_last')],
 [('process_node/process_child_node/process_index/process_index_item','listing cursor','struct ush_object')],['io.write'])
p('C16','help lists every global command once, or prints the help of one file',
 'help without argument prints, for every command group newest first and every command in list order, one line with its name (padded and followed by the description when there is one), each exactly once, and then returns to the prompt. help with one argument prints exactly that file\'s help text, or file-not-found / no-help status; any other argument count prints wrong-arguments.',
 ['inputs','configurations','histories'],'every set of registered command groups and descriptors',
 'Tests step through one mocked group.',
 [S+'commands/ush_cmd_help.c'],
 [('selection',S+'commands/ush_cmd_help.c ush_buildin_cmd_help_callback'),('listing steps',S+'commands/ush_cmd_help.c ush_buildin_cmd_help_service')],
 [('process_node/process_index/process_index_item','listing cursor','struct ush_object')],['io.write'])
p('C17','Tab completes to the common prefix of the matches and stays within the buffer',
 'TAB takes the text after the last space as the prefix and considers exactly the global commands, the files of the current directory and the child directories of the directory named by the prefix whose names start with it. With no match the line is unchanged, with one match the line is completed to that name, with several it is extended by their longest common prefix or, when nothing can be added, the matches are listed and the line is shown again. Completion never writes outside the input buffer: text that would not fit is not inserted, and the line stays NUL-terminated.',
 ['inputs','histories','configurations'],'every line, every set of commands, files and directories, every buffer size',
 'Tests run single steps with mocked candidates; buffer-full cases and candidate sets are not enumerable.',
 [S+'ush_autocomp.c',S+'ush_autocomp_state.c',S+'ush_autocomp_utils.c',S+'ush_utils.c'],
 [('candidate iteration',S+'ush_autocomp_utils.c'),('completion decision',S+'ush_autocomp_state.c ush_autocomp_state_candidates_finish'),('last word',S+'ush_utils.c ush_utils_get_last_arg')],
 [('autocomp_input/autocomp_count/autocomp_prev_count/autocomp_suffix_len','completion progress','struct ush_object')],['io.write','input buffer'])
p('C18','The print functions queue exactly the given text inside the output buffer',
 'ush_print, ush_print_no_newline, ush_print_status and ush_flush queue exactly the given text (or status text, or the output buffer\'s text) for output followed by a new-line reset or directly by the prompt. ush_printf appends its formatted text to what earlier ush_printf calls of the same command queued, never writes outside the output buffer for any format result and any buffer size, and marks truncation or a format error with the documented message.',
 ['inputs','histories','configurations'],'every text, every formatted length, every sequence of ush_printf calls, every output buffer size >= 4 (for the complete message: >= 32)',
 'Tests try a few lengths at one buffer size; the exact-fit sizes are not covered.',
 [S+'ush.c',S+'ush_write.c',S+'ush_utils.c'],
 [('printf concatenation and truncation',S+'ush.c ush_printf'),('status text',S+'ush_utils.c ush_utils_get_status_string')],
 [('write_buf/write_size','queued text','struct ush_object')],['output buffer','io.write'])
p('C19','Command groups form an exact registry: add makes visible, remove makes invisible',
 'After any sequence of additions and removals of distinct group objects, the registered groups are exactly those added and not removed, newest first. Removing a group that is not registered returns not-found and changes nothing; adding or removing one group changes neither the order nor the content of the others.',
 ['histories'],'every history of add and remove',
 'Tests add and remove at most three groups in fixed orders.',
 [S+'ush_commands.c'],
 [('head insertion',S+'ush_commands.c ush_commands_add'),('unlinking',S+'ush_commands.c ush_commands_remove')],
 [('commands','list of registered groups','struct ush_object')],['command lookup','help'])
p('C20','Shell instances are independent and the library never allocates',
 'Every operation on one shell instance changes only that instance\'s object, its own input and output buffers, and the node objects passed to it; descriptors, file lists, names, paths, other instances and their buffers are never written. The library keeps no mutable static data, performs no dynamic allocation, and never leaves the instance pointing at stack memory of a call that has returned.',
 ['inputs','histories','configurations'],'every operation in every state, every number of instances',
 'Tests run one instance; a write through a shared or stale pointer is visible only for particular layouts.',
 [S+'*.c',S+'commands/*.c'],
 [('all state in struct ush_object','src/inc/ush_types.h'),('stack path buffers are local',S+'ush_node.c, '+S+'ush_file.c')],[],['memory of other instances','object files'])
p('C21','init, reset and deinit produce a defined state from any prior memory content',
 'Initialising an instance, whatever its memory held before, registers exactly the built-in commands, mounts nothing and queues the banner; mounting the root makes it the current directory and a reset returns to the root directory and queues the banner again. Deinitialising clears the instance object and every node still mounted in its tree and no other memory.',
 ['histories','inputs','configurations'],'every prior content of the instance memory, every mounted tree',
 'Tests initialise zeroed static objects and deinitialise one small tree.',
 [S+'ush.c',S+'ush_node.c',S+'ush_reset.c',S+'commands/ush_cmd.c'],
 [('init',S+'ush.c ush_init'),('recursive clear',S+'ush_node.c ush_node_deinit_recursive'),('reset',S+'ush_reset.c ush_reset')],[],['ush_init','ush_deinit','ush_reset'])
p('C22','Every completed command is followed by exactly one prompt naming the current dir',
 'After the banner, after each command\'s output, after an abandoned line and after a candidate listing, the shell prints the prompt exactly once: "[", the host name, a space, the last component of the current directory\'s path ("/" for the root) and "]$ " with the colour codes, in this order, and only then reads the next line from an empty buffer (or shows the line being completed again). A status message is followed by a new line before that prompt.',
 ['histories','schedules','inputs'],'every command outcome and current directory, every back-pressure pattern',
 'Tests check single prompt steps; the order over all states and continuations is a property of the whole machine.',
 [S+'ush_prompt.c',S+'ush_reset.c',S+'ush_read.c',S+'ush_read_utils.c'],
 [('prompt steps',S+'ush_prompt.c ush_prompt_service'),('reset steps',S+'ush_reset.c ush_reset_service'),('line start',S+'ush_read_utils.c ush_read_start')],
 [('prompt_next_state','state entered after the prompt','struct ush_object')],['io.write'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
import re
for x in P:
    n=len(re.findall(r'[.!?](?=\s+[A-Z]|$)',x['statement'])); 
    print(x['id'],n)

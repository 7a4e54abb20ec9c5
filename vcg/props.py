"""Which contracts decide which property."""
# one step of the shell, and the built-in callbacks it reaches through descriptors
SHELL = ['ush_service'] + ['ush_buildin_cmd_%s_callback' % n for n in ('help', 'ls', 'cd', 'pwd', 'cat', 'xxd', 'echo')] + ['ush_buildin_cmd_%s_service' % n for n in ('help', 'ls', 'cat', 'xxd')] + ['ush_init', 'ush_reset']
ROOTS = {
    'C01': SHELL,
    'C03': ['ush_parse_service'],
    'C04': ['ush_parse_service'],
    'C06': SHELL,
    'C17': ['ush_autocomp_service', 'ush_read_char'],
    'C22': SHELL,
    'C20': None,        # every function under contract
    'C21': ['ush_init', 'ush_reset', 'ush_deinit', 'ush_node_mount'],
    'C10': ['ush_buildin_cmd_cd_callback', 'ush_buildin_cmd_pwd_callback', 'ush_node_set_current_dir', 'ush_node_mount', 'ush_node_unmount', 'ush_reset'],
    'C12': ['ush_buildin_cmd_cat_callback', 'ush_buildin_cmd_cat_service'],
    'C13': ['ush_buildin_cmd_echo_callback', 'ush_utils_decode_ascii'],
    'C14': ['ush_buildin_cmd_xxd_callback', 'ush_buildin_cmd_xxd_service'],
    'C15': ['ush_buildin_cmd_ls_callback', 'ush_buildin_cmd_ls_service'],
    'C16': ['ush_buildin_cmd_help_callback', 'ush_buildin_cmd_help_service'],
    'C02': ['ush_read_service'],
    'C05': ['ush_write_service', 'ush_write_pointer'],
    'C07': ['ush_node_get_absolute_path'],
    'C08': ['ush_node_get_absolute_path', 'ush_node_set_current_dir', 'ush_file_find_by_name', 'ush_utils_join_path', 'ush_utils_path_upper', 'ush_utils_get_path_level'],
    'C11': ['ush_file_find_by_name'],
    'C19': ['ush_commands_add', 'ush_commands_remove', 'ush_node_mount', 'ush_node_unmount'],
    'C09': ['ush_node_get_by_path', 'ush_node_mount', 'ush_node_unmount'],
    'C18': ['ush_print_status', 'ush_print', 'ush_print_no_newline', 'ush_flush', 'ush_printf'],
}
# functions the user (the main loop, the callbacks of files) may call: the invariant holds whenever they are entered
ENV = set(SHELL) | {'ush_deinit', 'ush_node_set_current_dir', 'ush_node_mount', 'ush_node_unmount', 'ush_commands_add', 'ush_commands_remove', 'ush_print_status', 'ush_print',
                    'ush_print_no_newline', 'ush_flush', 'ush_printf', 'ush_write_pointer'}


def names(v, out, w):
    """functions named in an operand, directly or through the tables of constants (the built-in commands are roots of their own)"""
    if isinstance(v, (tuple, list)):
        if len(v) == 2 and v[0] == 'glob':
            if v[1] in w.m.funcs: out.append(v[1])
            elif v[1] in w.m.globals and v[1] != 'g_ush_buildin_commands' and w.m.globals[v[1]][1] is not None: names(w.m.globals[v[1]][1], out, w)
        else:
            for x in v: names(x, out, w)


def reach(roots, w):
    """functions under contract reachable from the roots through the calls in the source"""
    from engine import CONTRACTS
    todo = list(roots); out = []; seen = set()
    while todo:
        f = todo.pop()
        if f in seen: continue
        seen.add(f)
        if f in CONTRACTS and not CONTRACTS[f].trusted: out.append(f)
        if f in w.m.funcs:
            for b in w.m.funcs[f].blocks.values():
                for x in b.insts: names(x.a, todo, w)
    return out


COMMON = [
    'buffers, descriptors, nodes, file lists and strings supplied by the user are distinct, well-formed objects, and names, paths, texts and descriptors are not changed while registered (vcg/specs/base.py desc_ok, fd_axioms)',
    'memory is typed: pointer fields, integer fields, bytes and pointer arrays do not alias each other',
    'stack depth is not modelled',
]


# C20 is about writes: the other obligations of the same functions belong to the other properties
KINDS = {'C20': ('frame', 'dangling', 'const', 'bounds', 'valid')}
ALLOC = ('malloc', 'calloc', 'realloc', 'reallocarray', 'aligned_alloc', 'posix_memalign', 'memalign', 'valloc', 'strdup', 'strndup', 'asprintf', 'vasprintf',
         'free', 'mmap', 'sbrk', 'brk')


def roots(prop, w):
    from engine import CONTRACTS
    if prop == 'C20': return [f for f, c in sorted(CONTRACTS.items()) if not c.trusted and f in w.m.funcs]
    return ROOTS[prop]


def static(prop, w):
    """obligations decided by looking at the linked module: (name, holds, detail)"""
    if prop != 'C20': return []
    out = []
    bad = sorted(g for g, v in w.m.globals.items() if not v[2] and v[1] is not None)
    out.append(('C20.no mutable static data', not bad, ' '.join(bad)))
    used = sorted(d for d in w.m.decls if d in ALLOC)
    out.append(('C20.no allocation', not used, ' '.join(used)))
    return out


def lemmas(prop, w, nproc, frs):
    """proofs of the lemmas used by the functions of this property"""
    import lem
    from engine import CONTRACTS
    gs = set()
    for fn in frs: gs |= set(CONTRACTS[fn].axioms)
    return lem.prove(lem.deps(gs), nproc)


def assumptions(prop): return COMMON

"""Ghost state of the directory tree and the command registry, the shell
invariant, and the contracts assumed for user callbacks."""
from specs.core import *

AIB = ArraySort(Ptr, B)
GHOST_SORTS.update({
    'g.tin': AIB,                       # mounted nodes
    'g.at': ArraySort(Str, Ptr),        # node mounted at a path
    'g.rk': ArraySort(Ptr, I), 'g.rkc': I,      # mount order
    'g.cin': AIB, 'g.crk': ArraySort(Ptr, I), 'g.ckc': I,   # registered command groups and their order of addition
    'g.tl': AII,                        # the finished input line (indexed from 0)
    'g.tkm': I, 'g.tke': B, 'g.tkn': I, 'g.tkon': I, 'g.tko': AII, 'g.tkof': AII, 'g.tknz': B,   # argument splitting transducer
    'g.nf': I, 'g.lf': Ptr, 'g.lfn': Str,       # name lookups: count, last result, last name
    'g.ne': I, 'g.xf': Ptr, 'g.xargc': I, 'g.xnf': I, 'g.xlf': Ptr,    # exec callback calls: count, last arguments, lookups before
    'g.nh': I, 'g.hnf': I, 'g.hne': I, 'g.hargc': I, 'g.hf': Ptr,      # exec hook calls
    'g.ng': I, 'g.lgf': Ptr, 'g.lgd': Ptr, 'g.lgn': I,      # data getter calls: count, last file and returned region
    'g.ns': I, 'g.lsf': Ptr, 'g.lsn': I, 'g.lsd': AII,      # data setter calls: count, last file, size, bytes
    'g.np': I, 'g.lpf': Ptr,                                # process callback calls
})
ND = 'ush_node_object'
NDF = ['file_list', 'file_list_size', 'path', 'parent', 'children', 'next']
m_ = Const('m', Ptr)
a_, b_ = Const('a', Ptr), Const('b', Ptr)

flok = Function('flok', Ptr, I, B)      # valid file list of a given length
fdok = lambda p: ok('ush_file_descriptor')(p)
AX.setdefault('fd', []).append(('flok', ForAll([p_, n_, k_], Implies(And(flok(p_, n_), OFF(p_) <= k_, k_ < OFF(p_) + n_),
                                                                     And(fdok(mk(pobj(p_), k_)))),
                                               patterns=[MultiPattern(flok(p_, n_), fdok(mk(pobj(p_), k_)))])))
AX['fd'].append(('flok.range', ForAll([p_, n_], Implies(flok(p_, n_), And(O(p_) != 0, ptr_ok(p_), n_ >= 0, OFF(p_) >= 0, OFF(p_) + n_ < 2 ** 62)), patterns=[flok(p_, n_)])))

# ------------------------------------------------------------------ paths
cnt = Function('cnt', Str, I, I)        # slashes at positions 1..k
levels = Function('levels', Str, I)
lev = Function('lev', I, Str, Str)      # first i components
pl = Function('pl', Str, I, I)          # length of the first i components
up = Function('up', Str, Str)           # parent path
canon = Function('canon', Str, B)


def joinS(p, n): return If(p == Slash, cat(Slash, n), cat(cat(p, Slash), n))


def P(s, n): return cS(s.nd(n, 'path'))


def lookup(s, S_):
    n = Select(s.g('at'), S_)
    return If(And(Select(s.g('tin'), n), P(s, n) == S_), n, NULL)


def nodeok(n): return And(ok(ND)(n), per(n))


TREE_G = ('tin', 'at', 'rk', 'rkc')
CMD_G = ('cin', 'crk', 'ckc')


def tree(s, self, root=None, free=None):
    """invariant of the mounted directory tree"""
    tin, at, rk, rkc = [s.g(x) for x in TREE_G]
    par, chi, nxt, pa = [s.F(ND, x) for x in ('parent', 'children', 'next', 'path')]
    ro = s.ob(self, 'root') if root is None else root
    T = lambda n: Select(tin, n)
    p, c, nx, r = [lambda n, h=h: Select(h, n) for h in (par, chi, nxt, rk)]
    Pn = lambda n: cS(Select(pa, n))
    return [
        ('tree.node', ForAll([n1], Implies(T(n1), And(ro != NULL, nodeok(n1), ccstr(Select(pa, n1)), Select(at, Pn(n1)) == n1, canon(Pn(n1)),
                                                     r(n1) >= 0, r(n1) < rkc, Not(Select(s.g('cin'), n1)),
                                                     flok(s.nd(n1, 'file_list'), s.nd(n1, 'file_list_size')))), patterns=[T(n1)])),
        ('tree.root', Implies(ro != NULL, And(T(ro), p(ro) == NULL, nx(ro) == NULL, Pn(ro) == Slash))),
        ('tree.parent', ForAll([n1], Implies(T(n1), And(ro != NULL, (p(n1) == NULL) == (n1 == ro),
                                                       Implies(n1 != ro, And(T(p(n1)), r(p(n1)) < r(n1), Pn(p(n1)) == up(Pn(n1)))))), patterns=[p(n1)])),
        ('tree.next', ForAll([n1], Implies(And(T(n1), nx(n1) != NULL), And(T(nx(n1)), p(nx(n1)) == p(n1), r(nx(n1)) < r(n1), n1 != ro)), patterns=[nx(n1)])),
        ('tree.children', ForAll([n1], Implies(And(T(n1), c(n1) != NULL), And(T(c(n1)), p(c(n1)) == n1)), patterns=[c(n1)])),
        ('tree.head', ForAll([n1, n2], Implies(And(T(n1), T(n2), p(n2) == n1), And(c(n1) != NULL, r(n2) <= r(c(n1)))), patterns=[MultiPattern(c(n1), p(n2))])),
        ('tree.gap', ForAll([n1, n2], Implies(And(T(n1), T(n2), p(n1) != NULL, p(n2) == p(n1), r(n2) < r(n1)), And(nx(n1) != NULL, r(n2) <= r(nx(n1)))), patterns=[MultiPattern(nx(n1), p(n2))])),
        ('tree.rank', ForAll([n1, n2], Implies(And(T(n1), T(n2), r(n1) == r(n2)), n1 == n2), patterns=[MultiPattern(r(n1), r(n2))])),
        ('tree.chain', ForAll([n1, i_], Implies(And(T(n1), i_ >= 1, i_ <= levels(Pn(n1))),
                                               And(T(Select(at, lev(i_, Pn(n1)))), Pn(Select(at, lev(i_, Pn(n1)))) == lev(i_, Pn(n1)),
                                                   p(Select(at, lev(i_, Pn(n1)))) == If(i_ == 1, ro, Select(at, lev(i_ - 1, Pn(n1)))))),
                              patterns=[lev(i_, Pn(n1))])),
        ('tree.count', rkc >= 0),
        ('tree.fit', ForAll([n1, k_], Implies(And(T(n1), OFF(s.nd(n1, 'file_list')) <= k_, k_ < OFF(s.nd(n1, 'file_list')) + s.nd(n1, 'file_list_size')),
                                              slen(joinS(Pn(n1), cS(Select(s.F('ush_file_descriptor', 'name'), mk(pobj(s.nd(n1, 'file_list')), k_))))) < pml(s, self)),
                            patterns=[MultiPattern(T(n1), Select(s.F('ush_file_descriptor', 'name'), mk(pobj(s.nd(n1, 'file_list')), k_)))])),
    ]


n1, n2 = Const('n1', Ptr), Const('n2', Ptr)


def cmds(s, self, head=None):
    """invariant of the list of registered command groups"""
    cin, rk, rkc = [s.g(x) for x in CMD_G]
    h = s.ob(self, 'commands') if head is None else head
    nxt = s.F(ND, 'next')
    T = lambda n: Select(cin, n)
    nx, r = [lambda n, a=a: Select(a, n) for a in (nxt, rk)]
    return [
        ('cmds.node', ForAll([n1], Implies(T(n1), And(nodeok(n1), r(n1) >= 0, r(n1) < rkc, h != NULL, Not(Select(s.g('tin'), n1)), r(n1) <= r(h),
                                                     flok(s.nd(n1, 'file_list'), s.nd(n1, 'file_list_size')))), patterns=[T(n1)])),
        ('cmds.head', Implies(h != NULL, T(h))),
        ('cmds.next', ForAll([n1], Implies(And(T(n1), nx(n1) != NULL), And(T(nx(n1)), r(nx(n1)) < r(n1))), patterns=[nx(n1)])),
        ('cmds.gap', ForAll([n1, n2], Implies(And(T(n1), T(n2), r(n2) < r(n1)), And(nx(n1) != NULL, r(n2) <= r(nx(n1)))), patterns=[MultiPattern(nx(n1), T(n2))])),
        ('cmds.rank', ForAll([n1, n2], Implies(And(T(n1), T(n2), r(n1) == r(n2)), n1 == n2), patterns=[MultiPattern(r(n1), r(n2))])),
        ('cmds.count', rkc >= 0),
    ]


def current(s, self):
    """while a root is mounted the current directory is a mounted node"""
    return Implies(s.ob(self, 'root') != NULL, And(s.ob(self, 'current_node') != NULL, Select(s.g('tin'), s.ob(self, 'current_node'))))


def world(s, self):
    """everything about mounts and commands"""
    return tree(s, self) + cmds(s, self) + [('current', current(s, self))]


def pre(s, self): return [('base', base(s, self))] + world(s, self)


# ------------------------------------------------------------------ splitting of the input line
GHOST_SORTS['g.tkoe'] = AII
SEARCH, QUOTE, STD = IV(0), IV(1), IV(2)
TOK = ('tkm', 'tke', 'tkn', 'tkon', 'tko', 'tkof', 'tkoe', 'tknz')


def tok_state(m):
    return If(m == SEARCH, E('PARSE_SEARCH_ARG'), If(m == QUOTE, E('PARSE_QUOTE_ARG'), E('PARSE_STANDARD_ARG')))


def tok_step(g, ch):
    """the quoting rules: what one character of the line does to
    (mode, pending escape, arguments, text length, text, argument starts, argument ends, no NUL typed)"""
    m, e, n, on, o, of, oe, nz = [g[x] for x in TOK]
    sp, dq, bs = ch == 32, ch == 34, ch == 92
    start = And(m == SEARCH, Not(sp))                       # a new argument begins
    lit = Or(And(m == SEARCH, Not(Or(sp, dq, bs))),
             And(m != SEARCH, Or(e, And(m == QUOTE, Not(Or(dq, bs))), And(m == STD, Not(Or(sp, dq, bs))))))
    keepbs = And(m != SEARCH, e, ch == 120)                 # backslash before x is kept
    sep = And(m == STD, Not(e), sp)                         # end of an argument
    m2 = If(m == SEARCH, If(sp, SEARCH, If(dq, QUOTE, STD)),
            If(e, m, If(m == QUOTE, If(dq, STD, QUOTE), If(sp, SEARCH, If(dq, QUOTE, STD)))))
    return dict(tkm=m2, tke=And(Not(And(m != SEARCH, e)), bs), tkn=If(start, n + 1, n),
                tkon=If(lit, If(keepbs, on + 2, on + 1), If(sep, on + 1, on)),
                tko=If(lit, If(keepbs, Store(Store(o, on, IV(92)), on + 1, ch), Store(o, on, ch)), If(sep, Store(o, on, IV(0)), o)),
                tkof=If(start, Store(of, n, on), of), tkoe=If(sep, Store(oe, n - 1, on + 1), oe), tknz=And(nz, Implies(lit, ch != 0)))


def tok_end(g):
    """end of the line: the last argument ends"""
    m, e, n, on, o, of, oe, nz = [g[x] for x in TOK]
    op = m != SEARCH
    return dict(tkm=SEARCH, tke=BoolVal(False), tkn=n, tkon=If(op, on + 1, on), tko=If(op, Store(o, on, IV(0)), o), tkof=of,
                tkoe=If(op, Store(oe, n - 1, on + 1), oe), tknz=nz)


def tokg(s): return {x: s.g(x) for x in TOK}


def tok_same(s, t): return And(*[s.g(x) == t.g(x) for x in TOK])


def tok_shape(s):
    """shape of the split text: argument k is text[of k .. oe k - 1), NUL at oe k - 1"""
    m, e, n, on, o, of, oe, nz = [s.g(x) for x in TOK]
    done = If(m == SEARCH, n, n - 1)                         # arguments that are ended
    return [
        ('tok.count', And(n >= 0, on >= 0, m >= 0, m <= 2, Implies(m != SEARCH, n >= 1), Implies(m == SEARCH, Not(e)))),
        ('tok.first', And(Implies(n >= 1, Select(of, 0) == 0), Implies(n == 0, on == 0))),
        ('tok.last', And(Implies(And(n >= 1, m == SEARCH), Select(oe, n - 1) == on))),
        ('tok.starts', ForAll([k_], Implies(And(0 <= k_, k_ < n), And(Select(of, k_) >= k_, Select(of, k_) <= on)), patterns=[Select(of, k_)])),
        ('tok.ends', ForAll([k_], Implies(And(0 <= k_, k_ < done), And(Select(oe, k_) > Select(of, k_), Select(oe, k_) <= on, Select(o, Select(oe, k_) - 1) == 0)),
                            patterns=[Select(of, k_), Select(oe, k_)])),
        ('tok.links', ForAll([k_, j_], Implies(And(0 <= k_, j_ == k_ + 1, j_ < n), Select(of, j_) == Select(oe, k_)), patterns=[MultiPattern(Select(of, j_), Select(oe, k_))])),
        ('tok.bytes', Implies(nz, ForAll([k_, j_], Implies(And(0 <= k_, k_ < n, Select(of, k_) <= j_, j_ < If(k_ < done, Select(oe, k_) - 1, on)), Select(o, j_) != 0),
                                         patterns=[MultiPattern(Select(of, k_), Select(o, j_))]))),
    ]


def tok_buffer(s, me):
    """the input buffer starts with the split text"""
    ib = ibuf(s, me)
    return And(ForAll([k_], Implies(And(k_ >= OFF(ib), k_ < OFF(ib) + s.g('tkon')), Select(s.A(ib), k_) == Select(s.g('tko'), k_ - OFF(ib))), patterns=[Select(s.A(ib), k_)]),
               ForAll([k_], Implies(And(k_ >= 0, k_ < s.g('tkon')), Select(s.A(ib), k_ + OFF(ib)) == Select(s.g('tko'), k_)), patterns=[Select(s.g('tko'), k_)]))


def J_line(s, me):
    """the unread rest of the line is as it was typed"""
    ib, i, nl = ibuf(s, me), s.ob(me, 'in_pos'), s.g('nl')
    return And(J_nl(s, me, i), Select(s.g('tl'), OFF(ib) + nl) == s.B(ib, nl),
               ForAll([k_], Implies(And(k_ >= OFF(ib) + i, k_ <= OFF(ib) + nl), Select(s.A(ib), k_) == Select(s.g('tl'), k_)), patterns=[Select(s.A(ib), k_)]))


def J_tok(s, me, more=0):
    """parser state and input buffer represent the split text"""
    g = tokg(s)
    return [
        ('tok.state', And(s.ob(me, 'args_count') == g['tkn'], s.ob(me, 'out_pos') == g['tkon'], (s.ob(me, 'escape_flag') != 0) == g['tke'],
                          s.ob(me, 'escape_flag') <= 1)),
        ('tok.room', And(g['tkon'] + If(g['tke'], IV(1), IV(0)) + more <= s.ob(me, 'in_pos'), g['tkn'] + more <= s.ob(me, 'in_pos'), s.ob(me, 'in_pos') <= isz(s, me))),
        ('tok.buffer', tok_buffer(s, me)),
    ] + tok_shape(s)


def J_parse(s, me):
    return [('line', J_line(s, me)), ('queued output', J_out(s, me)), ('parse.state', s.ob(me, 'state') == tok_state(s.g('tkm')))] + J_tok(s, me)


def J_args(s, me):
    """the arguments of the line, one behind the other at the start of the input buffer"""
    return [('args.count', And(s.ob(me, 'args_count') == s.g('tkn'), s.g('tkn') < isz(s, me), s.g('tkon') <= isz(s, me), s.g('tkm') == SEARCH)),
            ('tok.buffer', tok_buffer(s, me))] + tok_shape(s)

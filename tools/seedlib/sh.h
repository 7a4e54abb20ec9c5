/* scripted terminal for demonstrations */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "inc/ush.h"
#include "inc/ush_node.h"
#include "inc/ush_commands.h"
#ifndef IBUF
#define IBUF 64
#endif
#ifndef OBUF
#define OBUF 64
#endif
#ifndef PML
#define PML 64
#endif
static const char *in_p; static size_t in_n;
static char out[1 << 16]; static size_t out_n;
static unsigned refuse_every, calls;
static int rd(struct ush_object *s, char *ch) { (void)s; if (!in_n) return 0; *ch = *in_p++; in_n--; return 1; }
static int wr(struct ush_object *s, char ch) { (void)s; if (refuse_every && (++calls % refuse_every) == 0) return 0; if (out_n < sizeof(out)) out[out_n++] = ch; return 1; }
static const struct ush_io_interface io = { .read = rd, .write = wr };
static char ib[IBUF], ob[OBUF];
static struct ush_descriptor desc = { .io = &io, .input_buffer = ib, .input_buffer_size = IBUF, .output_buffer = ob, .output_buffer_size = OBUF, .path_max_length = PML, .hostname = "h" };
static struct ush_object sh;
/* feeds n bytes and runs the shell until it is idle; returns 0 when it does not come to rest */
static int feed(const char *p, size_t n) { in_p = p; in_n = n; for (int i = 0; i < 200000; i++) if (!ush_service(&sh) && !in_n) return 1; return 0; }
static int line(const char *p) { out_n = 0; int r = feed(p, strlen(p)); out[out_n] = 0; return r; }
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "demo: line %d: %s\n", __LINE__, #x); exit(1); } } while (0)

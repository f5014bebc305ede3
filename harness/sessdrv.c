/* Replays a history of calls on compiler and cjit sessions. Usage:
     sessdrv SCRIPT NSESS [t]
   SCRIPT has one call per line: index, session, operation, arguments.
   With t, the calls on each session are made by a thread of their own.
   Prints "index result names" per call and "E session message" per error. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <pthread.h>
#include <unistd.h>
#include <cjit.h>
#include <libtcc.h>

char *file_load(const char *, unsigned int *);
typedef struct { int idx, s; char op[16]; char a[200], b[200]; } Call;
typedef struct { int id; TCCState *t; CJITState *c; FILE *out; char *buf; size_t len; } Sess;
static Call *calls;
static int ncalls;
static Sess S[16];

static void on_error(void *opaque, const char *msg) {
	Sess *s = opaque;
	fprintf(s->out, "E %d ", s->id);
	for (; *msg; msg++) fputc(*msg == '\n' ? '|' : *msg, s->out);
	fputc('\n', s->out);
}

#define H(n) static int host##n(void) { return n; }
H(0) H(1) H(2) H(3) H(4) H(5) H(6) H(7)
static int (*const hosts[])(void) = { host0, host1, host2, host3, host4, host5, host6, host7 };

static int cmp(const void *a, const void *b) { return strcmp(*(char**)a, *(char**)b); }
struct names { char *v[400]; int n; };
static void on_symbol(void *ctx, const char *name, const void *val) {
	struct names *x = ctx;
	if (!strncmp(name, "q_", 2) && val && x->n < 400) x->v[x->n++] = strdup(name);
}

static char *text(const char *path) {
	FILE *f = fopen(path, "rb");
	char *b = calloc(1, 65536);
	if (!f || !fread(b, 1, 65535, f)) abort();
	fclose(f);
	return b;
}

static const char *libpath;
static void docall(Call *c) {
	Sess *s = &S[c->s];
	const char *o = c->op;
	int r = 0;
	struct names x = { .n = 0 };
#define IS(n) !strcmp(o, n)
	if (IS("new")) {
		if (IS("new") && !strcmp(c->a, "app")) s->c = cjit_new(), r = s->c ? 0 : -1;
		else {
			s->t = tcc_new();
			tcc_set_lib_path(s->t, libpath);
			tcc_set_error_func(s->t, s, on_error);
			r = tcc_set_output_type(s->t, !strcmp(c->a, "obj") ? TCC_OUTPUT_OBJ : TCC_OUTPUT_MEMORY);
		}
	} else if (IS("def")) {
		if (s->c) cjit_define_symbol(s->c, c->a, c->b); else tcc_define_symbol(s->t, c->a, c->b);
	} else if (IS("undef")) tcc_undefine_symbol(s->t, c->a);
	else if (IS("inc")) {
		if (s->c) cjit_add_include_path(s->c, c->a); else r = tcc_add_include_path(s->t, c->a);
	} else if (IS("uch")) {
		if (s->c) cjit_set_tcc_options(s->c, "-funsigned-char"); else r = tcc_set_options(s->t, "-funsigned-char") < 0 ? -1 : 0;
	} else if (IS("host")) r = tcc_add_symbol(s->t, c->a, hosts[atoi(c->b)]) < 0 ? -1 : 0;
	else if (IS("comp")) {
		char *t = text(c->a);
		if (s->c && !strcmp(c->b, "file")) r = cjit_add_file(s->c, c->a) ? 0 : -1;
		else if (s->c) r = cjit_add_buffer(s->c, t) ? 0 : -1;
		else if (!strcmp(c->b, "file")) r = tcc_add_file(s->t, c->a);
		else r = tcc_compile_string(s->t, t);
		memset(t, 'x', strlen(t));
		free(t);
	} else if (IS("addobj")) r = tcc_add_file(s->t, c->a) < 0 ? -1 : 0;
	else if (IS("out")) r = tcc_output_file(s->t, c->a);
	else if (IS("reloc")) r = tcc_relocate(s->t);
	else if (IS("get")) r = tcc_get_symbol(s->t, c->a) ? 1 : 0;
	else if (IS("call")) {
		int (*f)(void) = tcc_get_symbol(s->t, c->a);
		r = f ? f() : -1;
	} else if (IS("list")) {
		tcc_list_symbols(s->t, &x, on_symbol);
		qsort(x.v, x.n, sizeof(char*), cmp);
	} else if (IS("exec")) {
		char *argv[] = { "app", NULL };
		fflush(stdout);
		r = cjit_exec(s->c, 1, argv);
	} else if (IS("link")) {
		r = cjit_link(s->c);
	} else if (IS("del")) {
		if (s->c) cjit_free(s->c); else tcc_delete(s->t);
		s->c = NULL;
		s->t = NULL;
	} else abort();
	fprintf(s->out, "R %d %d", c->idx, r);
	for (int i = 0; i < x.n; i++) fprintf(s->out, " %s", x.v[i]), free(x.v[i]);
	fputc('\n', s->out);
	fflush(s->out);
}

static void *thread(void *p) {
	int s = (int)(long)p;
	for (int i = 0; i < ncalls; i++) if (calls[i].s == s) docall(&calls[i]);
	return NULL;
}

int main(int argc, char **argv) {
	int n = atoi(argv[2]), mt = argc > 3 && argv[3][0] == 't';
	FILE *f = fopen(argv[1], "r");
	char line[1000];
	libpath = getenv("VF_TCCLIB");
	calls = calloc(1000, sizeof(Call));
	while (ncalls < 1000 && fgets(line, sizeof line, f)) {
		Call *c = &calls[ncalls++];
		if (sscanf(line, "%d %d %15s %199s %199s", &c->idx, &c->s, c->op, c->a, c->b) < 3) abort();
	}
	fclose(f);
	for (int i = 0; i <= n; i++) {
		S[i].id = i;
		S[i].out = mt ? open_memstream(&S[i].buf, &S[i].len) : stdout;
	}
	if (!mt) for (int i = 0; i < ncalls; i++) docall(&calls[i]);
	else {
		pthread_t t[16];
		for (int i = 1; i <= n; i++) pthread_create(&t[i], NULL, thread, (void*)(long)i);
		for (int i = 1; i <= n; i++) pthread_join(t[i], NULL);
		for (int i = 1; i <= n; i++) fflush(S[i].out), fputs(S[i].buf, stdout);
	}
	puts("END");
	fflush(stdout);
	return 0;
}

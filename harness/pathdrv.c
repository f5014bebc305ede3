/* Calls the path functions on the paths read from stdin (fields separated by
   tabs) and reports results, also for every smaller buffer. */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "cwalk.h"
typedef size_t (*fn)(const char *a, const char *b, char *buf, size_t n);
static struct cwk_segment seg;
static int segno;
static size_t f_norm(const char *a, const char *b, char *o, size_t n) { return cwk_path_normalize(a, o, n); }
static size_t f_multi(const char *a, const char *b, char *o, size_t n) { const char *p[] = {a, b, a, b, NULL}; return cwk_path_join_multiple(p, o, n); }
static size_t f_cseg(const char *a, const char *b, char *o, size_t n)
{
    struct cwk_segment s; int k;
    if (!cwk_path_get_first_segment(a, &s)) return 0;
    for (k = 1; k < segno; k++) cwk_path_get_next_segment(&s);
    return cwk_path_change_segment(&s, b, o, n);
}
/* full result, then what each smaller or slightly larger buffer receives */
static void call(const char *name, fn f, const char *a, const char *b, int inplace)
{
    size_t n, len, r; char *full = malloc(8192), *ca = strdup(a), *cb = strdup(b);
    memset(full, 'Z', 8192);
    len = f(ca, cb, full, 8192);
    if (len >= 8192) { printf("%s\tBAD length %zu\n", name, len); exit(4); }
    printf("%s\t%zu\t%s", name, len, full);
    for (n = 0; n < len + 3; n++) {
        char *o = malloc(n ? n : 1);
        memset(o, 'Z', n ? n : 1);
        r = f(ca, cb, o, n);
        if (n == 0) printf("\t%zu:%s", r, *o == 'Z' ? "" : "WRITTEN");
        else if (memchr(o, 0, n) == NULL) printf("\t%zu:UNTERMINATED", r);
        else printf("\t%zu:%s", r, o);
        free(o);
    }
    if (inplace) {
        size_t room = (len > strlen(a) ? len : strlen(a)) + 1;
        char *o = malloc(room);
        strcpy(o, a);
        r = f(o, cb, o, room);
        printf("\tin%zu:%s", r, memchr(o, 0, room) ? o : "UNTERMINATED");
        free(o);
    }
    printf("\n");
    if (strcmp(a, ca) || strcmp(b, cb)) printf("%s\tARGUMENT CHANGED\n", name);
    free(full); free(ca); free(cb);
}
static void unary(const char *arg)
{
    char *p = strdup(arg);
    size_t n = 777; const char *s = "?"; struct cwk_segment g, h; int k;
    cwk_path_get_root(p, &n); printf("root\t%zu\t%d\t%d\n", n, cwk_path_is_absolute(p), cwk_path_is_relative(p));
    n = 777; cwk_path_get_dirname(p, &n); printf("dir\t%zu\n", n);
    n = 777; cwk_path_get_basename(p, &s, &n); printf("base\t%ld\t%zu\n", s ? (long)(s - p) : -1L, n);
    s = "?"; n = 0; k = cwk_path_get_extension(p, &s, &n); printf("ext\t%ld\t%zu\t%d\n", k ? (long)(s - p) : -1L, n, cwk_path_has_extension(p));
    printf("fwd"); if (cwk_path_get_first_segment(p, &g)) do printf("\t%ld,%zu,%d", (long)(g.begin - p), g.size, (int)cwk_path_get_segment_type(&g)); while (cwk_path_get_next_segment(&g));
    printf("\nbwd"); if (cwk_path_get_last_segment(p, &h)) do printf("\t%ld,%zu,%d", (long)(h.begin - p), h.size, (int)cwk_path_get_segment_type(&h)); while (cwk_path_get_previous_segment(&h));
    printf("\n");
    call("norm", f_norm, p, "", 1);
    free(p);
}
int main(void)
{
    static char line[65536];
    while (fgets(line, sizeof line, stdin)) {
        line[strcspn(line, "\n")] = 0;
        char *a = line + 1, *b = strchr(a, '\t');
        if (*line == 'U') unary(a);
        else {
            *b++ = 0;
            call("join", cwk_path_join, a, b, 0);
            call("abs", cwk_path_get_absolute, a, b, 0);
            call("rel", cwk_path_get_relative, a, b, 0);
            call("croot", cwk_path_change_root, a, b, 0);
            call("cbase", cwk_path_change_basename, a, b, 1);
            call("cext", cwk_path_change_extension, a, b, 1);
            call("multi", f_multi, a, b, 0);
            size_t n = cwk_path_get_intersection(a, b); printf("inter\t%zu\n", n);
            struct cwk_segment s; int k, m = 0;
            if (cwk_path_get_first_segment(a, &s)) do m++; while (cwk_path_get_next_segment(&s));
            for (k = 1; k <= m; k++) { segno = k; call("cseg", f_cseg, a, b, 1); }
        }
        printf("end\n"); fflush(stdout);
    }
    return 0;
}

/* prints the preprocessed form of a file: ppdrv FILE OPTION... */
#include <stdio.h>
#include "libtcc.h"
static void say(void *o, const char *m) { (void)o; fprintf(stderr, "%s\n", m); }
int main(int argc, char **argv)
{
    TCCState *s = tcc_new();
    int i;
    tcc_set_error_func(s, 0, say);
    tcc_set_options(s, "-E -P");
    for (i = 2; i < argc; i++) tcc_set_options(s, argv[i]);
    tcc_set_output_type(s, 5);
    i = tcc_add_file(s, argv[1]);
    fflush(stdout);
    return i < 0;
}

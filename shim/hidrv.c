/* hidrv KIND: uses a history (main, dbc, tic) by commands from stdin:
 *   w TIME KEY\tVAL     write an entry dated TIME (VAL: dbc only)
 *   t KEY               is it there: prints 1 (dbc: 1 VAL) or 0
 *   crash               end at once
 */
#include "fidogate.h"
#include <unistd.h>

int main(int argc, char **argv)
{
    char line[4096], *k, *v;
    int dbc;

    if (argc < 2) return 64;
    log_program("hidrv");
    cf_initialize();
    cf_read_config_file(getenv("FGDRV_CONF"));
    dbc = !strcmp(argv[1], "dbc");
    if (dbc) hi_init_dbc();
    else if (!strcmp(argv[1], "tic")) hi_init_tic_history();
    else hi_init_history();
    while (fgets(line, sizeof line, stdin)) {
        line[strcspn(line, "\n")] = 0;
        if (!strcmp(line, "crash")) { fflush(stdout); _exit(0); }
        if (*line == 'w') {
            k = strchr(line + 2, ' ');
            *k++ = 0;
            v = strchr(k, '\t');
            if (v) *v++ = 0;
            if (dbc) {
                setenv("FG_TIME", line + 2, 1);
                if (hi_write_dbc(v, k, 0) != OK) { puts("E"); continue; }
            } else if (hi_write_t(atol(line + 2), atol(line + 2), k) != OK) { puts("E"); continue; }
            puts("w");
        } else if (*line == 't') {
            if (dbc) {
                v = hi_fetch(line + 2, 1);
                if (v) printf("1 %s\n", v); else puts("0");
            } else
                puts(hi_test(line + 2) ? "1" : "0");
        }
    }
    fflush(stdout);
    hi_close();
    return 0;
}

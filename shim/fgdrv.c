/* fgdrv: one use of a shared facility per command, for psched.
 *   fgdrv lock NAME WAIT     lock_program, marks, unlock_program
 *   fgdrv seq FILE N         N numbers from a sequencer
 *   fgdrv attach NODE MODE FILE [FLAV [BSY]]
 *   fgdrv take NODE          mailer: for every unsent entry: mark it sent
 */
#include "fidogate.h"
#include "getopt.h"
#include <fcntl.h>

static void say(const char *f, ...)
{
    char b[300];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    write(1, b, strlen(b));
}

int main(int argc, char **argv)
{
    char *cmd;
    int i;

    if (argc < 3) return 64;
    log_program("fgdrv");
    cf_initialize();
    cf_read_config_file(getenv("FGDRV_CONF"));
    cmd = argv[1];
    if (!strcmp(cmd, "lock")) {
        int n = argc > 4 ? atoi(argv[4]) : 1;
        for (i = 0; i < n; i++) {
            say("try\n");
            if (lock_program(argv[2], atoi(argv[3])) == ERROR) {
                say("refused\n");
                continue;
            }
            say("have\n");
            /* something to be interrupted in */
            access(getenv("FGDRV_POINT"), F_OK);
            say("giveup\n");
            if (unlock_program(argv[2]) == ERROR)
                say("unlock failed\n");
            else
                say("free\n");
        }
    } else if (!strcmp(cmd, "seq")) {
        for (i = 0; i < atoi(argv[3]); i++) {
            long n;
            say("draw\n");
            n = sequencer_nx(argv[2], FALSE);
            say("drew %ld\n", n);
        }
    } else if (!strcmp(cmd, "attach")) {
        Node n;
        int r;
        if (asc_to_node(argv[2], &n, FALSE) == ERROR) return 65;
        say("attach\n");
        r = bink_attach(&n, *argv[3] == '-' ? 0 : *argv[3], argv[4], argc > 5 ? argv[5] : "normal", argc > 6 && atoi(argv[6]));
        say("attached %d\n", r);
    } else
        return 64;
    return 0;
}

/* opdrv FILE: output packets by commands from FILE, marks on stdout:
 *   limit N
 *   put FZ FN FF FP TZ TN TF TP GRADE TYPE FLAV BAD ID SIZE -> "p ID 0|1"
 *   close                                                   -> "c 0|1"
 */
#include "fidogate.h"
#include <unistd.h>

static void say(const char *f, int a, int b)
{
    char s[100];
    snprintf(s, sizeof s, f, a, b);
    write(1, s, strlen(s));
}

int main(int argc, char **argv)
{
    char line[400];
    FILE *in;

    if (argc < 2) return 64;
    log_program("opdrv");
    cf_initialize();
    cf_read_config_file(getenv("FGDRV_CONF"));
    pkt_outdir(cf_p_toss_toss(), NULL);
    pkt_baddir(cf_p_toss_bad(), NULL);
    in = fopen(argv[1], "r");
    while (fgets(line, sizeof line, in)) {
        if (!strncmp(line, "limit ", 6)) outpkt_set_maxopen(atoi(line + 6));
        else if (!strncmp(line, "close", 5)) {
            /* may be of either type */
            int r = __builtin_choose_expr(__builtin_types_compatible_p(__typeof__(outpkt_close()), void), (outpkt_close(), 0), outpkt_close());
            say("c %d\n", r == OK, 0);
        } else if (!strncmp(line, "put ", 4)) {
            Node f, t;
            char g, ty, fl;
            int bad, id, size, ok, k;
            Message m;
            FILE *fp;
            memset(&f, 0, sizeof f);
            memset(&t, 0, sizeof t);
            memset(&m, 0, sizeof m);
            if (sscanf(line + 4, "%d %d %d %d %d %d %d %d %c %c %c %d %d %d", &f.zone, &f.net, &f.node, &f.point,
                       &t.zone, &t.net, &t.node, &t.point, &g, &ty, &fl, &bad, &id, &size) != 14)
                return 65;
            fp = outpkt_open(&f, &t, g, ty, fl, bad);
            ok = fp != NULL;
            if (ok) {
                m.node_from = f;
                m.node_to = t;
                m.date = time(NULL);
                strcpy(m.name_from, "a");
                strcpy(m.name_to, "b");
                snprintf(m.subject, sizeof m.subject, "%d", id);
                ok = pkt_put_msg_hdr(fp, &m, FALSE) == OK;
                for (k = 0; k < size; k++)
                    putc(k % 70 == 69 ? '\r' : 'x', fp);
                putc(0, fp);
                ok = ok && !ferror(fp);
            }
            say("p %d %d\n", id, ok);
        }
    }
    return 0;
}

/* addrdrv: conversions of addresses and message ids, by commands from stdin
 * (fields separated by tabs), one line of answer each */
#include "fidogate.h"
#include <unistd.h>

static void put(Node *n)
{
    printf("%d %d %d %d", n->zone, n->net, n->node, n->point);
}
static Node get(char **f)
{
    Node n;
    node_clear(&n);
    n.zone = atoi(f[0]); n.net = atoi(f[1]); n.node = atoi(f[2]); n.point = atoi(f[3]);
    return n;
}

int main(int argc, char **argv)
{
    static char line[16384], save[16384];
    char *f[20], *p;
    int n;

    log_program("addrdrv");
    cf_initialize();
    cf_read_config_file(getenv("FGDRV_CONF"));
    hosts_init();
    while (fgets(line, sizeof line, stdin)) {
        line[strcspn(line, "\n")] = 0;
        for (n = 0; n < 20; n++) f[n] = "";
        for (n = 0, p = line; p && n < 20; n++) {
            f[n] = p;
            if ((p = strchr(p, '\t'))) *p++ = 0;
        }
        if (!strcmp(f[0], "N2I")) {             /* z n f p force */
            Node a = get(f + 1);
            char buf[MAXINETADDR];
            puts(str_ftn_to_inet(buf, sizeof buf, &a, atoi(f[5])));
        } else if (!strcmp(f[0], "ZONE")) {      /* zone */
            cf_set_zone(atoi(f[1]));
            printf("%d\n", cf_zone());
        } else if (!strcmp(f[0], "I2N")) {      /* name */
            Node *a = inet_to_ftn(f[1]);
            if (a) put(a); else printf("-");
            puts("");
        } else if (!strcmp(f[0], "LIST")) {     /* text */
            LON l;
            LNode *q;
            lon_init(&l);
            lon_add_string(&l, f[1]);
            for (q = l.first; q; q = q->next) { put(&q->node); printf("%s", q->next ? "," : ""); }
            printf("\t");
            lon_print(&l, stdout, TRUE);
            printf("\t");
            lon_print(&l, stdout, FALSE);
            printf("\t");
            lon_print_sorted(&l, stdout, 0);
            printf("\t");
            lon_print_passive(&l, stdout);
            puts("");
            lon_delete(&l);
        } else if (!strcmp(f[0], "ASC")) {      /* text point_flag */
            Node a;
            strcpy(save, f[1]);
            if (asc_to_node(save, &a, atoi(f[2])) == OK) { put(&a); printf("\t%s\t%s", znfp1(&a), znf1(&a)); } else printf("-");
            puts("");
        } else if (!strcmp(f[0], "PART")) {     /* text */
            Node a;
            strcpy(save, f[1]);
            if (znfp_parse_partial(save, &a) == OK) { put(&a); printf("\t%s", s_znfp(&a)); } else printf("-");
            puts("");
        } else if (!strcmp(f[0], "R2F")) {      /* id part area reply split m nodbc nofido */
            int flag = 9;
            char *id = s_msgid_rfc_to_fido(&flag, f[1], atoi(f[2]), *f[3] ? f[3] : NULL, 0, atoi(f[4]), atoi(f[5]), atoi(f[6]),
                                           atoi(f[7]), atoi(f[8]));
            printf("%d\t%s\n", flag, id ? id : "-");
        } else if (!strcmp(f[0], "F2R")) {      /* msgid pzone mail nodbc nofido save ref */
            int zone = 99;
            char *id;
            strcpy(save, f[1]);
            id = s_msgid_fido_to_rfc(save, atoi(f[2]) ? &zone : NULL, atoi(f[3]), *f[7] ? f[7] : NULL, atoi(f[4]), atoi(f[5]), atoi(f[6]));
            printf("%d\t%s\n", zone, id ? id : "-");
        } else if (!strcmp(f[0], "ORIG")) {     /* text */
            char *id = s_msgid_convert_origid(f[1]);
            puts(id ? id : "-");
        } else if (!strcmp(f[0], "RFC")) {      /* address */
            RFCAddr r = rfcaddr_from_rfc(f[1]);
            printf("%s\t%s\t%s\n", r.user, r.addr, r.real);
        } else
            puts("?");
        fflush(stdout);
        tmps_freeall();
    }
    return 0;
}

ID='P23-boss-after-point'; PROP='P23'
NEEDS='a list in which a node follows one of its own points'
BREAKS='the node is written as nothing and is missing when the list is read back'
EDITS=[('src/common/node.c','''                else if (oldnode->point > 0)
                    str_printf(buf, sizeof(buf), "%d", node->node);''','''                else if (oldnode->point > 0 && oldnode->node != node->node)
                    str_printf(buf, sizeof(buf), "%d", node->node);''')]
DEMO=r'''
import os, subprocess, sys, tempfile
C = r"""
#include "fidogate.h"
int main(void)
{
    char *in[] = { "2:1/2 3 4.5", "2:1/2.3 2 2.1 .2", "2:1/2.1 2/2 2:2/2.7 2 3", 0 }, buf[1000];
    int i, bad = 0;
    cf_initialize();
    cf_read_config_file(getenv("DEMOCONF"));
    for (i = 0; in[i]; i++) {
        LON a, b;
        LNode *p, *q;
        FILE *f = tmpfile();
        size_t n;
        lon_init(&a); lon_init(&b);
        lon_add_string(&a, in[i]);
        lon_print(&a, f, TRUE);
        rewind(f);
        n = fread(buf, 1, sizeof buf - 1, f);
        buf[n] = 0;
        lon_add_string(&b, buf);
        for (p = a.first, q = b.first; p && q && node_eq(&p->node, &q->node); p = p->next, q = q->next) ;
        if (p || q) {
            printf("%s -> %s\n", in[i], buf);
            bad = 1;
        }
    }
    return bad;
}
"""
with tempfile.TemporaryDirectory() as d:
    open(d + "/c.c", "w").write(C)
    open(d + "/conf", "w").write("Hostname f1\nDomain n1.z2.fidonet.org\nAddress 2:4500/1\nZone default .fidonet.org fidonet out\n")
    r = os.getcwd()
    subprocess.check_call(["gcc", "-w", "-DHAVE_CONFIG_H", "-I", r + "/src/include", "-I", r, "-o", d + "/x", d + "/c.c", r + "/src/common/libfidogate.a", "-lm"])
    sys.exit(1 if subprocess.call([d + "/x"], env=dict(os.environ, DEMOCONF=d + "/conf")) else 0)
'''

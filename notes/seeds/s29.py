ID='P23-defzone'; PROP='P23'
NEEDS='a host name without a zone label, converted after a program has switched to another zone'
BREAKS='the name denotes a node of whatever zone was handled last'
EDITS=[('src/common/node.c','''    if (node->zone == -1)
        node->zone = cf_defzone();
    if (node->net == -1) {''','''    if (node->zone == -1)
        node->zone = cf_zone();
    if (node->net == -1) {''')]
DEMO=r'''
import os, subprocess, sys, tempfile
C = r"""
#include "fidogate.h"
int main(void)
{
    int z;
    cf_initialize();
    cf_read_config_file(getenv("DEMOCONF"));
    for (z = 1; z < 4; z++) {
        Node *n;
        cf_set_zone(z);
        n = inet_to_ftn("f5.n6.fidonet.org");
        if (!n || n->zone != 2) {
            printf("zone %d: %s\n", z, n ? znfp1(n) : "-");
            return 1;
        }
    }
    return 0;
}
"""
with tempfile.TemporaryDirectory() as d:
    open(d + "/c.c", "w").write(C)
    open(d + "/conf", "w").write("Hostname f1\nDomain n1.z2.fidonet.org\nAddress 2:4500/1\nAddress 3:100/1\nZone default .fidonet.org fidonet out\nZone 2 .fidonet.org fidonet out\nZone 3 .fidonet.org fidonet out3\n")
    r = os.getcwd()
    subprocess.check_call(["gcc", "-w", "-DHAVE_CONFIG_H", "-I", r + "/src/include", "-I", r, "-o", d + "/x", d + "/c.c", r + "/src/common/libfidogate.a", "-lm"])
    sys.exit(1 if subprocess.call([d + "/x"], env=dict(os.environ, DEMOCONF=d + "/conf")) else 0)
'''

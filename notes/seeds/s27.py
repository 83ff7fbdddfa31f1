ID='P22-quote-equals'; PROP='P22'
NEEDS='an FTN MSGID that contains "=" followed by two hex digits'
BREAKS='its Message-ID converts back to another MSGID, and two MSGIDs share one Message-ID'
EDITS=[('src/common/msgid.c','''strchr("()<>@,;:\\\\\\"[]/=_", c)''','''strchr("()<>@,;:\\\\\\"[]/_", c)''')]
DEMO=r'''
import os, subprocess, sys, tempfile
C = r"""
#include "fidogate.h"
int main(void)
{
    char *ids[] = { "2:1/2 12345678", "a=3Ab 12345678", "a:b 12345678", "x_y=5Fz 00000001", 0 };
    int i, bad = 0;
    cf_initialize();
    cf_read_config_file(getenv("DEMOCONF"));
    for (i = 0; ids[i]; i++) {
        char *save = strdup(ids[i]);
        char *rfc = s_msgid_fido_to_rfc(save, NULL, 0, NULL, 1, 0, 0);
        int flag;
        char *back = rfc ? s_msgid_rfc_to_fido(&flag, rfc, 1, NULL, 0, 0, 0, 0, 1, 0) : NULL;
        if (!back || strcmp(back, ids[i])) {
            printf("%s -> %s -> %s\n", ids[i], rfc ? rfc : "-", back ? back : "-");
            bad = 1;
        }
    }
    return bad;
}
"""
with tempfile.TemporaryDirectory() as d:
    open(d + "/c.c", "w").write(C)
    open(d + "/conf", "w").write("Hostname f1\nDomain n1.z2.fidonet.org\nAddress 2:4500/1\nZone default .fidonet.org fidonet out\n")
    r = os.getcwd()
    subprocess.check_call(["gcc", "-w", "-DHAVE_CONFIG_H", "-I", r + "/src/include", "-I", r, "-o", d + "/x", d + "/c.c", r + "/src/common/libfidogate.a", "-lm"])
    sys.exit(1 if subprocess.call([d + "/x"], env=dict(os.environ, DEMOCONF=d + "/conf")) else 0)
'''

ID="P11-write-after-unlock"; PROP="P11"
NEEDS="two programs drawing a number from the same sequencer, the second between the first one's unlock and its write"
BREAKS="both get the same number: two messages or packets with the same identifier or name"
EDITS=[("src/common/sequencer.c","""    if (seqn < 0)
        seqn = 0;

    rewind(fp);
    fprintf(fp""","""    if (seqn < 0)
        seqn = 0;

    fseek(fp, 0L, SEEK_SET);
    unlock_file(fp);
    fprintf(fp""")]
DEMO='''
from demolib import *
import subprocess, tempfile
SLOW = """
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
ssize_t write(int fd, const void *b, size_t n)
{
    static ssize_t (*w)(int, const void *, size_t);
    if (!w) w = dlsym(RTLD_NEXT, "write");
    usleep(3000);
    return w(fd, b, n);
}
int fclose(void *f)
{
    static int (*c)(void *);
    if (!c) c = dlsym(RTLD_NEXT, "fclose");
    usleep(3000);
    return c(f);
}
"""
DRV = """
#include "fidogate.h"
int main(int c, char **v)
{
    int i;
    cf_initialize();
    cf_read_config_file(v[1]);
    for (i = 0; i < 12; i++) { printf("%ld\\\\n", sequencer(v[2])); fflush(stdout); }
    return 0;
}
"""
def f():
    with box.Box(Bins(), ["2:4500/1"]) as b:
        s, so = b.write("slow.c", SLOW), b.path("slow.so")
        d, exe = b.write("drv.c", DRV), b.path("drv")
        subprocess.check_call(["gcc", "-w", "-shared", "-fPIC", "-o", so, s, "-ldl"])
        subprocess.check_call(["gcc", "-w", "-DHAVE_CONFIG_H", "-I", ROOT + "/src/include", "-I", ROOT, "-o", exe, d,
                               ROOT + "/src/common/libfidogate.a", "-lm"])
        P = [subprocess.Popen([exe, b.path("etc/fidogate.conf"), b.path("var/seq/x")], stdout=subprocess.PIPE,
                              env=b.env(LD_PRELOAD=so)) for k in range(6)]
        n = [int(x) for p in P for x in p.communicate()[0].split()]
        if len(n) != 72 or len(set(n)) != 72:
            return ["%d numbers drawn, %d different" % (len(n), len(set(n)))]
        return []
main(f)
'''

ID="P12-finish-order"; PROP="P12"
NEEDS="a file attached to a node at the moment the mailer side (ftnflo -x) finishes that node's flow file"
BREAKS="the flow file with the new entry is deleted: the file is never sent"
EDITS=[("src/common/flo.c","""        if (del)
            if (unlink(flo_name) == -1) {
                fglog("$removing FLO file %s failed", flo_name);
                ret = ERROR;
            }
        fclose(flo_fp);
        flo_fp = NULL;
    }

    if (bsy)
        bink_bsy_delete(node);
""","""        fclose(flo_fp);
        flo_fp = NULL;
    } else
        del = FALSE;

    if (bsy)
        bink_bsy_delete(node);

    if (del)
        if (unlink(flo_name) == -1) {
            fglog("$removing FLO file %s failed", flo_name);
            ret = ERROR;
        }
""")]
DEMO='''
from demolib import *
import subprocess, time
SHIM = """
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
/* when the flow file is about to be deleted, let another program attach */
int unlink(const char *p)
{
    static int (*u)(const char *), done;
    if (!u) u = dlsym(RTLD_NEXT, "unlink");
    if (!done && strlen(p) > 4 && !strcmp(p + strlen(p) - 4, ".flo")) {
        int i, s, k = fork();
        done = 1;
        if (!k) { unsetenv("LD_PRELOAD"); setsid(); execl("/bin/sh", "sh", "-c", getenv("ATTACH"), NULL); _exit(1); }
        for (i = 0; i < 20 && waitpid(k, &s, WNOHANG) == 0; i++) usleep(100000);
    }
    return u(p);
}
"""
def f():
    with box.Box(Bins(), ["2:4500/1"]) as b:
        s, so = b.write("shim.c", SHIM), b.path("shim.so")
        subprocess.check_call(["gcc", "-w", "-shared", "-fPIC", "-o", so, s, "-ldl"])
        b.write("bt/one", "1"); new = b.write("bt/two", "2")
        b.run("ftnfattach", "-F", "Normal", "2:5030/1", "^" + b.path("bt/one"))
        att = " ".join(b.argv("ftnfattach", "-F", "Normal", "2:5030/1", new)) + "; echo done > " + b.path("log/done")
        b.run("ftnflo", "-x", "true %s", "2:5030/1", env={"LD_PRELOAD": so, "ATTACH": att})
        for k in range(200):
            if b.read("log/done") is not None:
                break
            time.sleep(0.1)
        else:
            return ["the attaching program did not end"]
        t = b.read("bt/out/13a60001.flo") or b""
        return [] if new.encode() in t else ["the new entry is lost: %r" % t]
main(f)
'''

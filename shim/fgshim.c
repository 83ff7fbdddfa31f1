/* LD_PRELOAD: fixed clock (FG_TIME = epoch seconds) and no real sleeping */
#define _GNU_SOURCE
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
static long skew;
static long now(void)
{
    char *e = getenv("FG_TIME");
    return e ? atol(e) + skew : -1;
}
static long real_now(void)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    return ts.tv_sec;
}
time_t time(time_t *t)
{
    long n = now();
    if (n < 0)
        n = real_now();
    if (t)
        *t = n;
    return n;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    (void)tz;
    tv->tv_sec = time(NULL);
    tv->tv_usec = 0;
    return 0;
}
unsigned int sleep(unsigned int s)
{
    skew += s;
    if (getenv("FG_REALSLEEP"))
        usleep(20000);
    return 0;
}

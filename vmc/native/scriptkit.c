/* A random number generator that replays scripted draws, in place of randomkit.c.  The generator state handed in is left as it is.
 *
 * rk_random takes the next scripted word, or counts upwards through all 30-bit values (counting mode); rk_double takes the next scripted
 * double.  When a script is used up, draws go on with a fixed pseudo-random sequence and are counted in `over'; too many of them (a loop
 * that never ends) kill the process, which the checks report. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include "randomkit.h"

static const uint32_t *words;
static const double *doubles;
static long nwords, ndoubles, iword, idouble, over;
static int counting;
static uint64_t counter, lcg = 88172645463325252ULL;

void script_set(const uint32_t *w, long nw, const double *d, long nd)
{
    words = w; nwords = nw; doubles = d; ndoubles = nd;
    iword = idouble = over = 0;
    counting = 0;
    lcg = 88172645463325252ULL;
}
void script_count(unsigned long start) { counting = 1; counter = start; over = 0; }
unsigned long script_counter(void) { return counter; }
long script_over(void) { return over; }
long script_used(void) { return iword + idouble; }

static uint64_t more(void)
{
    if (++over > 2000000) _Exit(97);
    lcg ^= lcg << 13; lcg ^= lcg >> 7; lcg ^= lcg << 17;
    return lcg;
}
unsigned long rk_random(rk_state *s)
{
    if (counting) return (uint32_t) ((counter++ & 0x3fffffffUL) << 2);
    if (iword < nwords) return words[iword++];
    return more() >> 32;
}
double rk_double(rk_state *s)
{
    if (idouble < ndoubles) return doubles[idouble++];
    return (more() >> 11)/9007199254740992.;
}
unsigned long rk_interval(unsigned long max, rk_state *s)
{
    if (idouble < ndoubles) return (unsigned long) (doubles[idouble++]*(max + 1.));
    return (more() >> 32) % (max + 1);
}
void rk_seed(unsigned long seed, rk_state *s) { s->pos = RK_STATE_LEN; }
rk_error rk_randomseed(rk_state *s) { return RK_NOERR; }
unsigned long rk_ulong(rk_state *s) { return rk_random(s); }
long rk_long(rk_state *s) { return rk_random(s) >> 1; }

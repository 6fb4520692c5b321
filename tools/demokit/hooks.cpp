// Answers to the hooks of src/sim_hooks.h: prints states, fails the solves asked for.
// DEMO_STATES=file: each state on one line; DEMO_FAIL=site:n,site:n: the nth solve of that site fails;
// DEMO_SIG=signo:attempt: raise a signal when the given attempt starts; DEMO_KILL=n: die at attempt n
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <csignal>
#include <unistd.h>
static FILE *out()
    {
    static FILE *f = getenv("DEMO_STATES") ? fopen(getenv("DEMO_STATES"), "w") : nullptr;
    return f;
    }
int fg_sim_fault(const char *site)
    {
    static std::map<std::string, int> count;
    int n = ++count[site];
    const char *e = getenv("DEMO_FAIL");
    if (!e) return 0;
    std::string s = std::string(",") + e + ",";
    return s.find("," + std::string(site) + ":" + std::to_string(n) + ",") != std::string::npos;
    }
void fg_sim_attempt(double t, double dt)
    {
    static int n = 0;
    n++;
    if (out()) { fprintf(out(), "attempt %.17g %.17g\n", t, dt); fflush(out()); }
    const char *e = getenv("DEMO_SIG");
    int sig, at;
    if (e && sscanf(e, "%d:%d", &sig, &at) == 2 && at == n) raise(sig);
    e = getenv("DEMO_KILL");
    if (e && atoi(e) == n) _exit(77);
    }
void fg_sim_state(const char *what, double t, double dt, int n, const double *u)
    {
    if (!out()) return;
    fprintf(out(), "%s %.17g %.17g", what, t, dt);
    for (int i = 0; i < 3 * n; i++) fprintf(out(), " %.17g", u[i]);
    fprintf(out(), "\n");
    fflush(out());
    }

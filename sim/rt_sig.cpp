// Signals: simulated dispositions, masks, and delivery at the points where a thread gets to run.
#include "rt_int.h"
#include <errno.h>
#include <signal.h>
#include <string.h>

struct SigAct
{
    void (*handler)(int);
    void (*action)(int, siginfo_t *, void *);
    uint64_t mask;
    int flags;
};
static SigAct g_act[65];
static void (*g_default_hook)(int sig, uint64_t sent); // a signal took its default effect
static uint64_t g_delivered;

extern "C" void sim_signal_default(void (*fn)(int, uint64_t)) { g_default_hook = fn; }
extern "C" uint64_t sim_signals_delivered(void) { return g_delivered; }
extern "C" uint64_t sim_signal_sent(void) { return tls_self ? tls_self->sigcur : 0; }
// This thread can be chosen by sim_kill.
extern "C" void sim_signals_accept(int on) { if (tls_self) tls_self->sigaccept = on != 0; }

void rt_sig_start_run()
{
    memset(g_act, 0, sizeof g_act);
    g_default_hook = nullptr;
    g_delivered = 0;
}

static uint64_t bit(int sig) { return 1ULL << (sig - 1); }

void rt_deliver_signals(Thread *t)
{
    while (t->sigpend & ~t->sigmask)
    {
        if (t->ignore || t->nopreempt || !g_active) return;
        int const sig = __builtin_ctzll(t->sigpend & ~t->sigmask) + 1;
        t->sigpend &= ~bit(sig);
        SigAct const a = g_act[sig];
        int const e = errno;
        uint64_t const mask = t->sigmask, cur = t->sigcur;
        t->sigcur = t->sigseq[sig];
        ++g_delivered;
        ++g_fired[SF_SIGNAL];
        mix(0x516ULL ^ (uint64_t)sig << 12 ^ (uint64_t)t->id << 20);
        trace("signal %d: %s", sig, a.handler == SIG_DFL ? "default" : a.handler == SIG_IGN ? "ignored" : "handler");
        if (a.flags & SA_RESETHAND) g_act[sig].handler = SIG_DFL;
        if (a.handler == SIG_DFL)
        {
            if (g_default_hook) g_default_hook(sig, t->sigcur);
            else sim_fail("crash:signal", "signal %d takes its default effect", sig);
        }
        else if (a.handler != SIG_IGN)
        {
            t->sigmask |= a.mask | ((a.flags & SA_NODEFER) ? 0 : bit(sig));
            // shadow stack and memory accounting go on as in any call
            int const depth = t->depth;
            if (a.flags & SA_SIGINFO)
            {
                siginfo_t info;
                memset(&info, 0, sizeof info);
                info.si_signo = sig;
                a.action(sig, &info, nullptr);
            }
            else a.handler(sig);
            t->depth = depth;
            t->sigmask = mask;
        }
        t->sigcur = cur;
        errno = e;
    }
}

// Sends a signal to the process. Returns 1 + the thread that gets it; 0 if no thread can take it, or it is pending
// there already.
extern "C" int sim_kill(int sig)
{
    Thread *t = self();
    if (!t) return 0;
    Thread *cand[MAXT];
    uint32_t n = 0;
    for (int i = 0; i < g_nthr; ++i)
        if (g_thr[i].used && !g_thr[i].done && g_thr[i].sigaccept && !(g_thr[i].sigmask & bit(sig))) cand[n++] = &g_thr[i];
    if (!n) return 0;
    Thread *w = cand[sim_choose(n)];
    if (w->sigpend & bit(sig)) return 0;
    w->sigpend |= bit(sig);
    w->sigseq[sig] = ++g_seq;
    trace("signal %d sent to t%d", sig, w->id);
    if (w == t) rt_deliver_signals(t);
    return w->id + 1;
}

static int set_action(int sig, SigAct const *in, SigAct *out)
{
    if (sig < 1 || sig > 64 || (in && (sig == SIGKILL || sig == SIGSTOP))) { errno = EINVAL; return -1; }
    sched_point(120, nullptr);
    if (out) *out = g_act[sig];
    if (in)
    {
        g_act[sig] = *in;
        trace("signal %d set to %s", sig, in->handler == SIG_DFL ? "default" : in->handler == SIG_IGN ? "ignored" : "a handler");
    }
    sched_point(121, nullptr);
    return 0;
}

extern "C" __sighandler_t signal(int sig, __sighandler_t fn) noexcept
{
    if (!self())
    {
        static auto real = (__sighandler_t (*)(int, __sighandler_t))rt_real("signal");
        return real(sig, fn);
    }
    SigAct in {}, out {};
    in.handler = fn;
    return set_action(sig, &in, &out) == 0 ? out.handler : SIG_ERR;
}

extern "C" int sigaction(int sig, struct sigaction const *in, struct sigaction *out) noexcept
{
    if (!self())
    {
        static auto real = (int (*)(int, struct sigaction const *, struct sigaction *))rt_real("sigaction");
        return real(sig, in, out);
    }
    SigAct a {}, o {};
    if (in)
    {
        a.flags = in->sa_flags;
        memcpy(&a.mask, &in->sa_mask, sizeof a.mask);
        if (in->sa_flags & SA_SIGINFO)
        {
            a.action = in->sa_sigaction;
            a.handler = (void (*)(int))(void *)in->sa_sigaction;
        }
        else a.handler = in->sa_handler;
    }
    int const r = set_action(sig, in ? &a : nullptr, &o);
    if (r == 0 && out)
    {
        memset(out, 0, sizeof *out);
        out->sa_flags = o.flags;
        memcpy(&out->sa_mask, &o.mask, sizeof o.mask);
        if (o.flags & SA_SIGINFO) out->sa_sigaction = o.action;
        else out->sa_handler = o.handler;
    }
    return r;
}

static int set_mask(int how, sigset_t const *in, sigset_t *out)
{
    Thread *t = self();
    uint64_t const old = t->sigmask;
    uint64_t m = 0;
    if (in) memcpy(&m, in, sizeof m);
    if (out)
    {
        memset(out, 0, sizeof *out);
        memcpy(out, &old, sizeof old);
    }
    if (in) t->sigmask = how == SIG_BLOCK ? old | m : how == SIG_UNBLOCK ? old & ~m : m;
    rt_deliver_signals(t);
    return 0;
}
extern "C" int pthread_sigmask(int how, sigset_t const *in, sigset_t *out) noexcept
{
    if (!self())
    {
        static auto real = (int (*)(int, sigset_t const *, sigset_t *))rt_real("pthread_sigmask");
        return real(how, in, out);
    }
    return set_mask(how, in, out);
}
extern "C" int sigprocmask(int how, sigset_t const *in, sigset_t *out) noexcept
{
    if (!self())
    {
        static auto real = (int (*)(int, sigset_t const *, sigset_t *))rt_real("sigprocmask");
        return real(how, in, out);
    }
    return set_mask(how, in, out);
}

extern "C" int raise(int sig) noexcept
{
    Thread *t = self();
    if (!t)
    {
        static auto real = (int (*)(int))rt_real("raise");
        return real(sig);
    }
    if (sig < 1 || sig > 64) { errno = EINVAL; return -1; }
    t->sigpend |= bit(sig);
    t->sigseq[sig] = t->sigcur ? t->sigcur : ++g_seq;
    rt_deliver_signals(t);
    return 0;
}

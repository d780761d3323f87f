/* Linked into the extension under test with --wrap: reports every point at which the extension
 * gives up the interpreter lock, so that the simulated scheduler can run other threads there.
 * INTERPN_SIM_HOOK holds the address of the scheduler's entry, INTERPN_SIM_STEPS the number of
 * native instructions to run without the lock before one further scheduling point. */
#define _GNU_SOURCE
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>

void *__real_PyEval_SaveThread(void);
void __real_PyEval_RestoreThread(void *);
int __real_PyGILState_Ensure(void);

static __thread long left;

static void call(int what) {
    const char *s = getenv("INTERPN_SIM_HOOK");
    if (s && *s) ((void (*)(int))(uintptr_t)strtoull(s, 0, 10))(what);
}

static void on_trap(int sig, siginfo_t *si, void *u) {
    ucontext_t *c = u;
    (void)sig; (void)si;
    if (left > 0 && --left > 0) return;
    c->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
    if (left == 0) { left = -1; call(2); }
}

static void stepping(int on) {
    if (on) __asm__ volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc");
    else __asm__ volatile("pushfq; andq $~0x100, (%%rsp); popfq" ::: "memory", "cc");
}

void *__wrap_PyEval_SaveThread(void) {
    void *t = __real_PyEval_SaveThread();
    call(0);
    const char *s = getenv("INTERPN_SIM_STEPS");
    long n = s ? atol(s) : 0;
    left = -1;
    if (n > 0) {
        struct sigaction a;
        memset(&a, 0, sizeof a);
        a.sa_sigaction = on_trap;
        a.sa_flags = SA_SIGINFO | SA_NODEFER;
        sigaction(SIGTRAP, &a, 0);
        left = n;
        stepping(1);
    }
    return t;
}

void __wrap_PyEval_RestoreThread(void *t) {
    stepping(0);
    left = -1;
    call(1);
    __real_PyEval_RestoreThread(t);
}

/* The extension takes the lock back for a while: no native points until it is given up again. */
int __wrap_PyGILState_Ensure(void) {
    stepping(0);
    left = -1;
    return __real_PyGILState_Ensure();
}

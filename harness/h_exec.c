/* The stage executor (exhaustive_gen_retry) against a ghost of what it must
 * do, for every sequence of stage and validator outcomes and timeouts. */
#define sigaction pm_sigaction
#include "hs.h"
#include <limits.h>
#include <setjmp.h>
#include <signal.h>
#include <time.h>
#ifndef S0
#define S0 0
#endif
#ifndef S1
#define S1 9
#endif
#ifndef NCALLS
#define NCALLS 12 /* stage runs */
#endif
#ifndef RETRY
#define RETRY 0
#endif
#ifndef TIMEOUT
#define TIMEOUT 0
#endif
#ifndef NV
#define NV 1 /* validators present */
#endif
#ifdef VCBMC
/* assumptions would be carried along every later path condition */
#undef P
#define P(c, m) __CPROVER_assert((c), "P: " m)
#endif
void timeout_thread_init(void);

static curve_t *the_curve;
static arg_t gargs[9], cargs[9];
static arg_t *gen_args[9], *check_args[9];
static int calls, g_state = S0, u_next, u_end, v_state = -1, v_next, tries[9], retry = RETRY;
static bool g_fail, timed;
static unsigned done; /* stages that have succeeded */
static pari_sp base[10];

/* ---- timers ---- */
static bool t_live, t_armed, t_jump;
int pm_timer_create(clockid_t c, struct sigevent *s, timer_t *t) {
	P(!t_live, "the previous stage's timer is gone before a new one is made");
	P(TIMEOUT != 0, "no timer without a time limit");
	P(s->sigev_notify == SIGEV_THREAD_ID && s->sigev_signo == SIGALRM && s->_sigev_un._tid == 4711, "the timer signals the thread that set it");
	(void)c;
	*t = (timer_t)&t_live;
	t_live = true;
	t_armed = t_jump = false;
	return 0;
}
int pm_timer_settime(timer_t t, int f, const struct itimerspec *n, struct itimerspec *o) {
	(void)f; (void)o;
	P(t_live && t == (timer_t)&t_live, "the timer set is the one made");
	P(n->it_value.tv_sec == TIMEOUT && n->it_value.tv_nsec == 0, "it expires after the limit");
	P(n->it_interval.tv_sec == 0 && n->it_interval.tv_nsec == 0, "and only once");
	t_armed = true;
	return 0;
}
int pm_timer_delete(timer_t t) {
	P(t_live && t == (timer_t)&t_live, "the timer deleted is the one made");
	t_live = t_armed = t_jump = false;
	return 0;
}
long pm_syscall(long n, ...) { (void)n; return 4711; }

/* ---- the ghost ---- */
static void fail(int st, int d, bool timeout) {
	int to = st + d;
	(void)timeout;
	if (d == INT_MIN || to < 0) { g_fail = true; return; }
	if (to < S0) to = S0;
	if (retry && ++tries[st] >= retry) { g_fail = true; return; }
	u_next = st;
	u_end = to;
	if (u_next > u_end && u_next == OFFSET_METADATA) u_next--; /* nothing to undo */
	g_state = to;
	done &= (1u << to) - 1;
}
static void enter(int st) {
	P(st == g_state, "the next stage to run");
	P(!g_fail, "nothing runs after a failure");
	P(v_state < 0, "every validator of a stage is asked before the next stage");
	P(u_next <= u_end, "the stages gone back over are undone first");
	P(done == (((1u << st) - 1) & ~((1u << S0) - 1)), "exactly the stages before it have succeeded");
	P(avma == base[st], "the stack is as the stages before it left it");
	calls++;
}
static pari_sp spend(void) { avma -= 8 * nd_bits(3); return avma; }
/* sigsetjmp: 1 when the time limit strikes during the stage */
int pm___sigsetjmp(void *b, int m) {
	(void)b; (void)m;
	P(TIMEOUT != 0, "no time limit, no timer");
	P(t_live && t_armed, "the timer is running");
	t_jump = true;
	if (calls >= NCALLS || !nd_bool()) return 0;
	enter(g_state);
	spend(); /* the stage got somewhere */
	int st = g_state;
	fail(st, S0 - st, true);
	timed = true;
	return 1;
}
static int outcome(void) {
	if (calls >= NCALLS) return INT_MIN; /* the history ends here */
	/* branches: every execution path of the encoding has a concrete outcome */
	if (nd_bool()) return 1;
	if (nd_bool()) return 0;
	if (nd_bool()) return -1;
	if (nd_bool()) return -2;
	return INT_MIN;
}
static int nvalid(int st) { return NV == 0 ? 0 : st == S0 + 1 ? 2 : st == S0 + 2 ? 1 : 0; }
static void passed(int st) {
	done |= 1u << st;
	tries[st] = 0;
	g_state = st + 1;
}
static int stage(int me, curve_t *c, arg_t *a, offset_e st) {
	P((int)st == me, "the procedure of the stage is run");
	P(c == the_curve, "on the curve under construction");
	P(a == gen_args[st], "with the argument of the stage");
	if (TIMEOUT) P(t_live && t_armed && t_jump, "the stage runs under its timer");
	else P(!t_live, "no timer without a limit");
	enter(me);
	base[me + 1] = spend();
	int r = outcome();
	if (r > 0) {
		if (nvalid(me)) { v_state = me; v_next = 0; }
		else passed(me);
	} else fail(me, r, false);
	return r;
}
static int valid(int k, curve_t *c, arg_t *a, offset_e st) {
	P(!t_live, "the timer is gone when the stage is over");
	P((int)st == v_state && k == v_next && !g_fail, "the stage's validators run in order after it succeeded");
	P(c == the_curve && a == check_args[st], "with the validator's argument");
	spend();
	int r = outcome();
	if (r > 0) {
		if (++v_next == nvalid(v_state)) { passed(v_state); v_state = -1; }
	} else {
		int s = v_state;
		v_state = -1;
		fail(s, r, false);
	}
	return r;
}
static int undo(int me, curve_t *c, pari_sp from, pari_sp to) {
	P(!t_live, "the timer is gone when the stage is over");
	P(c == the_curve, "on the curve under construction");
	P(me == u_next && u_next > u_end, "the stages gone back over are undone, last first");
	P(from == base[me] && to == base[me - 1], "with the stack marks of that stage");
	u_next--;
	if (u_next > u_end && u_next == OFFSET_METADATA) u_next--;
	return -1;
}
/* two procedures of each kind, alternating, so that running a neighbour's shows */
#define ST(i)                                                                              \
	static int G##i(curve_t *c, arg_t *a, offset_e s) { return stage((int)s / 2 * 2 + i, c, a, s); } \
	static int U##i(curve_t *c, pari_sp f, pari_sp t) { P(u_next % 2 == i, "the undo step of the stage is run"); return undo(u_next, c, f, t); }
ST(0) ST(1)
static int V0(curve_t *c, arg_t *a, offset_e s) { return valid(0, c, a, s); }
static int V1(curve_t *c, arg_t *a, offset_e s) { return valid(1, c, a, s); }

void h_run(void) {
	static gen_f gens[9] = {G0, G1, G0, G1, G0, G1, G0, G1, G0};
	static unroll_f unr[9] = {U0, U1, U0, U1, U0, U1, U0, U1, NULL};
	static check_f two[2] = {V0, V1};
	static check_t cv2 = {two, 2}, cv1 = {two, 1};
	static check_t *vals[9];
	static curve_t c0;
#define SET9(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8)
#define ARGS(i) if (i & 1) gen_args[i] = &gargs[i]; if (i != 2) check_args[i] = &cargs[i]; \
	vals[i] = nvalid(i) == 2 ? &cv2 : nvalid(i) == 1 ? &cv1 : NULL;
	SET9(ARGS)
	the_curve = &c0;
	cfg->timeout = TIMEOUT;
	cfg->verbose = 0;
	timeout_thread_init();
	exhaustive_t setup = {gens, NULL, NULL, NULL, unr};
	setup.gen_argss = gen_args;
	setup.check_argss = check_args;
	if (NV) setup.validators = vals;
	pari_sp a0 = avma;
#define BASE0(i) base[i] = a0;
	SET9(BASE0)
#if RETRY > 0
	int r = exhaustive_gen_retry(&c0, &setup, S0, S1, RETRY);
#else
	int r = exhaustive_gen(&c0, &setup, S0, S1);
#endif
	P(!t_live, "no timer outlives the run");
	P((r == 1) == (g_state == S1 && !g_fail), "success exactly when every stage has succeeded");
	P((r == 0) == g_fail, "failure exactly when a stage cannot go on or the retries are used up");
	if (r == 1) P(done == (1u << S1) - (1u << S0) && v_state < 0, "a curve comes only from complete stages");
	if (r == 1) REACH("curve");
	if (r == 1 && calls > S1 - S0) REACH("curve after going back");
	if (r == 0) REACH("failure");
#if TIMEOUT
	if (r == 1 && timed) REACH("curve after a timeout");
#endif
}
/* degenerate ranges */
void h_empty(void) {
	static curve_t c0;
	int a = (int)nd_range(0, 9), b = (int)nd_range(0, 9);
	if (a < b) return;
	static gen_f gens[9] = {G0, G1, G0, G1, G0, G1, G0, G1, G0};
	exhaustive_t setup = {gens, NULL, NULL, NULL, NULL};
	g_fail = true;
	int r = exhaustive_gen(&c0, &setup, (offset_e)a, (offset_e)b);
	P(a == b ? r == 2 : r == 0, "nothing to do, or impossible");
	REACH("empty");
}

/* ---- the run over all requested curves ---- */
#ifdef GENERATE
static curve_t made[4];
static int nmade, nfreed, nout, nsep, nbegin, nend, failed_at = -1;
static const exhaustive_t *the_setup;
curve_t *curve_new(void) {
	P(nmade < COUNT, "no curve is begun beyond the number asked for");
	P(nmade == nfreed, "curves are made one at a time");
	return &made[nmade++ & 3];
}
void curve_free(curve_t **c) {
	P(*c == &made[(nmade - 1) & 3] && nfreed == nmade - 1, "each curve is freed once");
	nfreed++;
	*c = NULL;
}
int exhaustive_gen_retry(curve_t *c, const exhaustive_t *s, offset_e a, offset_e b, int retry) {
	P(c == &made[(nmade - 1) & 3] && nmade == nfreed + 1, "the curve just begun is generated");
	P(s == the_setup && a == OFFSET_SEED && b == OFFSET_END && retry == 0, "by the whole pipeline");
	P(failed_at < 0, "nothing is generated after a failure");
	if (nd_bool()) { failed_at = nmade - 1; return 0; }
	return 1;
}
void output_o_begin(void) { P(nbegin == 0 && nmade == 0, "the output is opened once, first"); nbegin++; }
void output_o_end(void) { P(nbegin == 1 && nend == 0, "the output is closed once, last"); nend++; }
void output_o(curve_t *c) {
	P(nbegin == 1 && nend == 0, "curves are written inside the output");
	P(c == &made[(nmade - 1) & 3] && nmade == nfreed + 1 && failed_at < 0, "a generated curve is written, while it exists");
	P(nout == nmade - 1, "and only once");
	P(nsep == nout, "curves are separated");
	nout++;
}
void output_o_separator(void) {
	P(nsep == nout - 1, "a separator follows a curve");
	P(nout < COUNT, "no separator after the last curve");
	nsep++;
}
void h_generate(void) {
	exhaustive_t setup = {NULL, NULL, NULL, NULL, NULL};
	the_setup = &setup;
	cfg->count = COUNT;
	int r = exhaustive_generate(&setup);
	P(nbegin == 1 && nend == 1, "the output is opened and closed");
	P(nmade == nfreed, "every curve is freed");
	P(nout == (failed_at < 0 ? COUNT : failed_at), "exactly the curves generated are written");
	P((r == EXIT_SUCCESS) == (failed_at < 0) && (r == EXIT_SUCCESS || r == EXIT_FAILURE), "the exit status tells whether every curve asked for was generated");
	if (failed_at < 0) REACH("all"); else REACH("failed");
}
#endif

/* ---- the signal handler ---- */
extern __thread sigjmp_buf timeout_ptr;
extern __thread bool timeout_in;
void timeout_handle(int, siginfo_t *, void *);
bool timeout_init(void);
static bool unblocked;
int pm_sigemptyset(sigset_t *s) { s->__val[0] = 0; return 0; }
int pm_sigaddset(sigset_t *s, int n) { s->__val[0] |= 1UL << (n - 1); return 0; }
void pm_siglongjmp(sigjmp_buf b, int v) {
	P((void *)b == (void *)timeout_ptr && v == 1, "the jump goes to the running stage");
	P(timeout_in, "only while a stage runs under a limit");
	P(unblocked, "further timeouts are not blocked by this one");
	REACH("jump");
#ifdef VCBMC
	__CPROVER_assume(false);
#else
	exit(0);
#endif
}
int pm_sigprocmask(int how, const sigset_t *s, sigset_t *o) {
	(void)o;
	P(how == SIG_UNBLOCK && s->__val[0] == 1UL << (SIGALRM - 1), "only the timeout signal is unblocked");
	unblocked = true;
	return 0;
}
static int ninst;
int pm_sigaction(int sig, const struct sigaction *n, struct sigaction *o) {
	(void)o;
	P(sig == SIGALRM && n->sa_sigaction == timeout_handle && (n->sa_flags & SA_SIGINFO), "the handler is installed for the timer's signal");
	ninst++;
	return 0;
}
void h_handler(void) {
	P(timeout_init() && ninst == 1, "installed once");
	bool in = nd_bool();
	timeout_in = in;
	timeout_handle(SIGALRM, NULL, NULL);
	P(!in, "a stage under a limit is left");
	REACH("handler");
}

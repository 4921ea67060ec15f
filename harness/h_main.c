/* main: which generation method runs, and with what exit status. */
#include "hs.h"
#include <argp.h>
#include "exhaustive/exhaustive.h"
#include "cm/cm.h"
#include "invalid/invalid.h"
int pm_main(int, char **);
static int ran, status, phase, quit_with = -1;
bool cli_init(void) { P(phase == 0, "the parser is prepared first"); phase = 1; return true; }
void cli_quit(void) { P(phase == 2, "the parser is released after parsing"); phase = 3; }
static method_e pick(void) {
	static const method_e m[] = {METHOD_DEFAULT, METHOD_CM, METHOD_ANOMALOUS, METHOD_SEED, METHOD_INVALID, METHOD_TWIST, METHOD_SUPERSINGULAR, METHOD_FAMILY};
	return m[nd_bits(3)];
}
error_t argp_parse(const struct argp *a, int argc, char **argv, unsigned f, int *i, void *in) {
	(void)a; (void)argc; (void)argv; (void)f; (void)i; (void)in;
	P(phase == 1, "the command line is parsed once");
	P(cfg->method == 0 && cfg->random == 0 && cfg->cm_order == NULL && cfg->timeout == 0, "into cleared settings");
	phase = 2;
	cfg->method = pick();
	return 0;
}
static bool ok_init;
bool init(void) { P(phase == 3, "after parsing the run is set up"); phase = 4; return ok_init = nd_bool(); }
int quit(int s) { P(quit_with < 0, "the run ends once"); quit_with = s; return s; }
static int go(int which) {
	P(phase == 4 && ok_init, "generation runs after a successful set-up");
	P(!ran, "one method runs");
	P(cfg_used->method, "the method is honoured");
	ran = which;
	return status = nd_bool() ? EXIT_FAILURE : EXIT_SUCCESS;
}
int cm_do(void) { return go(1); }
int invalid_do(void) { return go(2); }
int exhaustive_do(void) { return go(3); }
void h_main(void) {
	cfg->cm_order = "x"; cfg->timeout = 3;
	char *argv[2] = {"ecgen", NULL};
	int r = pm_main(1, argv);
	if (!ok_init) { P(!ran && r == EXIT_FAILURE && quit_with == EXIT_FAILURE, "without set-up nothing is generated"); return; }
	method_e m = cfg->method;
	P(ran == (m == METHOD_CM || m == METHOD_ANOMALOUS || m == METHOD_SUPERSINGULAR ? 1 : m == METHOD_INVALID ? 2 : 3), "the method asked for runs");
	P(r == status && quit_with == status, "and its status is the program's");
	REACH("ran");
}

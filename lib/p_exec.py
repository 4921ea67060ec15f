_TIMERS = ["timer_create", "timer_settime", "timer_delete", "syscall", "__sigsetjmp", "siglongjmp", "sigaction", "sigprocmask", "sigemptyset", "sigaddset"]
_J = mk("h_exec.c", ["exhaustive/exhaustive.c", "util/timeout.c", "misc/config.c", "misc/types.c"], NT, unwind=14, rename=_TIMERS)


def _x(name, n, reach, s0=0, s1=3, retry=0, timeout=0, nv=1, t=240, tier="quick"):
    return _J(name, "h_run", n + 6, reach=reach, timeout=t, tier=tier, predrop=True, std=False, stub=ALLOC, flags=("--paths", "lifo"),
              bounds="stages %d to %d, at most %d stage runs, outcomes 1, 0, -1, -2 and give up, retry limit %s, time limit %s, every stack usage" % (s0, s1, n, retry or "none", timeout or "none"),
              S0=s0, S1=s1, NCALLS=n, RETRY=retry, TIMEOUT=timeout, NV=nv)


_TO_NOTE = "timer_create, timer_settime, timer_delete, gettid and sigsetjmp of the code are replaced by a ghost timer; the expiry of the timer is a second, nondeterministic return of sigsetjmp at the start of the stage with an arbitrary stack level (siglongjmp itself and the machine state it restores are libc)"
prop("C01", "Generation pipeline", [
    _x("short", 5, 3),
    _x("short_retry", 5, 3, retry=2),
    _x("mid", 5, 3, s0=3, s1=6),
    _x("mid_plain", 6, 3, s0=2, s1=5, nv=0),
    _x("end", 5, 3, s0=6, s1=9),
    _x("end_retry", 5, 3, s0=6, s1=9, retry=2),
    _x("all", 10, 2, s0=0, s1=9, nv=0, retry=1),
    _x("deep", 7, 3, t=850, tier="thorough"),
    _x("deep_wide", 7, 3, s0=1, s1=5, t=850, tier="thorough"),
    _x("deep_retry3", 7, 3, s0=4, s1=7, retry=3, t=850, tier="thorough"),
    _J("empty", "h_empty", 4, bounds="every start and end stage with start >= end", predrop=True, std=False),
] + [_J("generate_%d" % n, "h_generate", n + 3, bounds="%d curves asked for, every pattern of success and failure" % n, predrop=True, std=False, reach=2 if n else 1,
        stub=ALLOC + ("exhaustive_gen_retry",), GENERATE=1, COUNT=n) for n in (0, 1, 2, 3)],
    "The real stage executor runs on stages and validators whose outcomes are nondeterministic; a ghost of the promised behaviour asserts, at every call the executor makes, that it is the one due, on which stack level, with which argument, and the returned status. "
    "The encoding is explored path by path (cbmc --paths) because merged states of this loop are intractable; on each path the solver decides the assertions for every stack usage.",
    ["runs longer than the stated number of stage runs end in a give-up of the last one"])

prop("C25", "Timeouts", [
    _x("t_short", 5, 4, timeout=3),
    _x("t_retry", 5, 4, timeout=1, s0=4, s1=7, retry=2),
    _x("t_end", 5, 4, timeout=7, s0=6, s1=9, nv=0),
    _x("t_mid", 5, 4, timeout=60, s0=2, s1=5, nv=0),
    _x("t_none", 5, 3, timeout=0, s0=1, s1=4),
    _J("handler", "h_handler", 70, bounds="signal inside and outside a stage", predrop=True, std=False, reach=2),
    _x("t_deep", 6, 4, timeout=3, s0=3, s1=6, t=850, tier="thorough"),
    _x("t_deep_retry", 6, 4, timeout=3, s0=0, s1=3, retry=3, t=850, tier="thorough"),
], "As for C01, with a time limit: timers and the second return of sigsetjmp are a ghost that asserts which timer exists, armed with which limit for which thread, whenever a stage, a validator, an undo step or the end of the run is reached.",
    [_TO_NOTE])

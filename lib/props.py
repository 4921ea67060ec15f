"""The registry: which harnesses decide which property, within which bounds."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import Job, main

BASE = ("pm_core.c", "pm_gen.c", "pm_libc.c", "pm_mem.c")
NT = BASE + ("pm_nt.c",)
ELL = NT + ("pm_ell.c",)
ALLOC = ("try_malloc", "try_calloc", "try_realloc", "try_memdup", "try_strdup", "try_free", "alloc")
A_ALLOC = "allocation through util/memory.c never fails (stubbed by a typed allocator; the wrappers exit on failure)"
A_PARI = ("libpari is replaced by the model in /verif/model (t_INT values of PM_VBITS bits, same headers and calling "
          "conventions); what the model does not cover is an asserted MODEL: obligation, never silently assumed")
A_NDEBUG = "the sources are encoded as shipped with NDEBUG (the debug log macros are empty)"
COMMON = [A_PARI, A_ALLOC, A_NDEBUG]
PROPS = {}


def prop(pid, title, jobs, explanation, assumptions=()):
    PROPS[pid] = dict(title=title, jobs=jobs, explanation=explanation, assumptions=COMMON + list(assumptions))


def mk(file, src, model, unwind=20, timeout=120, std=True, rename=(), predrop0=False, fieldarr=None, backend=None, stub0=ALLOC, **kw0):
    def J(name, entry, unwind=unwind, bounds="", timeout=timeout, tier="quick", backend=backend, flags=(), std=std, reach=1,
          stub=stub0, src=src, model=model, unwindset=None, hang=True, objbits=12, fieldarr=fieldarr, rename=rename, predrop=predrop0, **defs):
        d = dict(kw0)
        d.update(defs)
        return Job(name, file, entry, src=("only", src) if src is not None else None, model=model, stub=stub, defs=d, unwind=unwind, timeout=timeout,
                   bounds=bounds, tier=tier, backend=backend, flags=flags, std=std, reach=reach, unwindset=unwindset,
                   hang_is_violation=hang, objbits=objbits, fieldarr=fieldarr, rename=rename, predrop=predrop)
    return J


for _f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    if _f.startswith("p_") and _f.endswith(".py"):
        exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), _f)).read(), _f, "exec"))

if __name__ == "__main__":
    main(PROPS)

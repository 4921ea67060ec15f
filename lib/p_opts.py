_OX = ["exhaustive/exhaustive.c", "exhaustive/check.c", "exhaustive/arg.c", "misc/config.c", "misc/types.c"]
_OJ = mk("h_opts.c", None, NT, unwind=80, timeout=200, std=False, rename=["fprintf", "fputs"], predrop0=True)


def _O(name, method, algo="SEED_NONE", entry="h_opts", order="7", total="7", isprime=1, **k):
    if entry == "h_opts":
        k["EXHAUSTIVE"] = 1
    return _OJ(name, entry, model=NT + ("pm_fmt.c",), src=_OX + ([] if entry == "h_opts" else ["cm/cm.c", "util/str.c"] if entry == "h_cm" else ["invalid/invalid.c"]),
               stub=ALLOC + (("exhaustive_generate",) if entry == "h_opts" else ("exhaustive_gen", "exhaustive_generate")), fieldarr=256,
               bounds="every setting of the other options the command line accepts with this method" + (", order %s" % order if entry == "h_cm" and method == "METHOD_CM" else ""),
               METHOD=method, ALGO=algo, ORDER_S='"%s"' % order, ORDER_ALL='"%s"' % total, ORDER_PRIME=isprime, **k)


prop("C02", "Options", [
    _O("default", "METHOD_DEFAULT"), _O("twist", "METHOD_TWIST"), _O("family", "METHOD_FAMILY"),
    _O("ansi", "METHOD_SEED", "SEED_ANSI"), _O("brainpool", "METHOD_SEED", "SEED_BRAINPOOL"), _O("rfc", "METHOD_SEED", "SEED_BRAINPOOL_RFC"), _O("nums", "METHOD_SEED", "SEED_NUMS"),
    _O("cm_prime", "METHOD_CM", entry="h_cm"), _O("cm_factors", "METHOD_CM", entry="h_cm", order="3,5,7", total="105", isprime=0), _O("cm_composite", "METHOD_CM", entry="h_cm", order="15", total="15", isprime=0),
    _O("anomalous", "METHOD_ANOMALOUS", entry="h_cm"), _O("supersingular", "METHOD_SUPERSINGULAR", entry="h_cm"),
    _O("invalid", "METHOD_INVALID", entry="h_inv"),
    mk("h_main.c", ["ecgen.c", "misc/config.c"], NT, rename=["main"], predrop0=True)("main", "h_main", 20, "every method, set-up outcome and status", stub=ALLOC + ("init", "quit")),
], "The real set-up code (exhaustive_do, cm_do, invalid_do) runs on an arbitrary accepted configuration; the stage table it hands to the generation loop is compared with the one the options ask for, and the messages it writes with the options that play no part.",
    ["--prime and --unique under Brainpool and NUMS, whose orders are prime and whose generator is unique anyway, may be reported or not"])

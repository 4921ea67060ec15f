_J = mk("h_curve.c", ["gen/curve.c", "gen/equation.c", "math/twists.c", "obj/curve.c", "obj/point.c", "obj/subgroup.c", "gen/seed.c", "gen/field.c", "util/bits.c", "misc/config.c"], ELL, unwind=30, predrop0=True, PM_VBITS=16, backend="cadical")
_PF = "every prime from 5 to 31, every a and b"
_BF = lambda m: "the field F_2^%d, every a and b" % m
_jobs = []
for _n, _e, _kw in (("any", "h_any", dict(SING=0)), ("anysing", "h_any", dict(SING=1)), ("anyint", "h_any", dict(RAWINT=1, SING=0)), ("twist", "h_gen_twist", dict(NGEN=0, SING=0)), ("twistsing", "h_gen_twist", dict(NGEN=0, SING=1)),
                     ("order", "h_twist_order", dict(SING=0)), ("order2", "h_twist_order", dict(NGEN=2, SING=0)), ("nonzero", "h_nonzero", {}), ("unroll", "h_unroll", dict(SING=0)), ("coef", "h_coef", {})):
    _jobs.append(_J(_n + "_p", _e, 30, _PF, **_kw))
    for _m, _t in ((3, 11), (7, 131)):
        _jobs.append(_J("%s_2_%d" % (_n, _m), _e, 70, _BF(_m), BIN=1, MDEG=_m, FMASK=_t, **_kw))
prop("C32", "Curve stage", _jobs,
     "gen/curve.c, gen/equation.c and math/twists.c run on arbitrary coefficients; the curve handed to ellinit and everything recorded afterwards is compared with the chosen coefficients, the singularity of the equation and the definition of a quadratic twist.",
     ["ellinit and elltwist are libpari's (replaced by the coefficients they are documented to give, the twist by an arbitrary element)"])

_S = ["gen/point.c", "math/subgroup.c", "obj/point.c", "obj/subgroup.c", "obj/curve.c", "gen/seed.c", "util/bits.c", "util/random.c", "io/output.c", "misc/config.c"]
_J = mk("h_points.c", _S, ELL, unwind=30, PM_VBITS=12, std=False)
def _E(n, e, mode, pmax, cof, tier="quick", **k):
    return _J(n, "h_enum", 40, "every generator order with prime factorisation shape (%s), primes up to %d; cofactor %d" % (e, pmax, cof), KEXP=e, MODE=mode, PMAX=pmax, HCOF=cof, tier=tier, std=False, PM_GCDBITS=12, PM_GCD_STEPS=18, **k)
prop("C05", "Points stage", [
    _J("prime1", "h_enum", 20, "every prime generator order below 32, with memory checks", KEXP="1", MODE=0, HCOF=3, PM_VBITS=16),
    _E("prime2", "2", 0, 31, 2), _E("prime11", "1,1", 0, 31, 1), _E("prime21", "2,1", 0, 9, 1), _E("prime111", "1,1,1", 0, 13, 1),
    _J("all1", "h_enum", 20, "every prime generator order below 32, with memory checks", KEXP="1", MODE=1, HCOF=3, PM_VBITS=16),
    _E("all2", "2", 1, 31, 2), _E("all11", "1,1", 1, 31, 1), _E("all21", "2,1", 1, 9, 1), _E("all111", "1,1,1", 1, 13, 1), _E("all3", "3", 1, 9, 1),
    _E("all31", "3,1", 1, 7, 1, "thorough"), _E("all22", "2,2", 1, 7, 1, "thorough"),
    _E("non2", "2", 2, 31, 2), _E("non11", "1,1", 2, 31, 1), _E("non21", "2,1", 2, 9, 1), _E("non111", "1,1,1", 2, 13, 1), _E("non3", "3", 2, 9, 1),
    _E("non31", "3,1", 2, 7, 1, "thorough"), _E("non22", "2,2", 2, 7, 1, "thorough"),
    _J("one1", "h_one", NG=1, PM_ORDMAX=24), _J("one2", "h_one", NG=2, PM_ORDMAX=24, PM_COINS="0"), _J("one2b", "h_one", NG=2, PM_ORDMAX=24, PM_COINS="1"),
    _J("rand1", "h_random", NG=1, NPTS=1, PM_ORDMAX=24, std=True), _J("rand1x3", "h_random", NG=1, NPTS=3, PM_ORDMAX=24),
    _J("rand2", "h_random", NG=2, NPTS=2, PM_ORDMAX=24, PM_COINS="1,0"), _J("rand2b", "h_random", NG=2, NPTS=2, PM_ORDMAX=24, PM_COINS="1,1"),
    _J("trial1", "h_trial", KDIV=1, NG=1, NPTS=1, PM_ORDMAX=15, GMAX=15, std=True), _J("trial2", "h_trial", KDIV=1, NG=2, NPTS=1, PM_ORDMAX=12, GMAX=12, GMAX2=3),
    _J("trial1x2", "h_trial", KDIV=1, NG=1, NPTS=2, PM_ORDMAX=15, GMAX=15), _J("trial1x2b", "h_trial", KDIV=2, NG=1, NPTS=2, PM_ORDMAX=30, GMAX=30),
    _J("trial2x2b", "h_trial", KDIV=2, NG=2, NPTS=2, PM_ORDMAX=12, GMAX=12, GMAX2=6), _J("trial1x3", "h_trial", 64, KDIV=3, NG=1, NPTS=3, PM_ORDMAX=60, GMAX=60),
], "gen/point.c and math/subgroup.c are executed symbolically over a model group with arbitrary structure, generator and random draws; completeness, uniqueness and exact point orders of the list are asserted.",
    ["the elliptic curve group law is a model group Z/n1 x Z/n2 of the same structure", "group orders beyond the listed bounds are outside the claim"])

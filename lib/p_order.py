_J = mk("h_order.c", ["gen/order.c", "math/koblitz.c", "gen/field.c", "misc/config.c", "obj/curve.c", "obj/point.c", "obj/subgroup.c", "gen/seed.c"], ELL, unwind=24, PM_VBITS=12, predrop0=True)
_K = dict(fieldarr=80, PMW=2, PM_VBITS=120, PM_MAXBITS=12, std=False, unwind=130)
prop("C03", "Order stage", [
    _J("any", "h_order", KIND=0, bounds="every group order up to 255, with and without an order cached before"),
    _J("sea", "h_order", KIND=1, bounds="every group order up to 255"),
    _J("prime", "h_order", KIND=2, reach=2, bounds="every group order up to 255"),
    _J("cofactor", "h_order", KIND=3, reach=2, bounds="every group order and cofactor up to 255"),
] + [_J("smooth_" + e.replace(",", ""), "h_order", KIND=4, KEXP=e, PMAX=m, reach=2, std=False, bounds="every order of factorisation shape (%s), primes up to %d, limits of 0 to 16 bits" % (e, m))
     for e, m in (("1", 1021), ("2", 61), ("1,1", 61), ("2,1", 13), ("1,1,1", 13))] +
    [_J("ph_%s_%d" % (e.replace(",", ""), d), "h_ph", KEXP=e, PMAX=m, DIGITS=d, reach=2, std=False, bounds="every order of factorisation shape (%s), primes up to %d, every limit of %d digits" % (e, m, d))
     for e, m, d in (("1", 127, 1), ("1", 127, 2), ("1,1", 61, 2), ("1,2", 13, 2), ("1,1,1", 13, 2))] +
    [_J("disc_%d" % d, "h_disc", DIGITS=d, reach=2, std=False, CORE_MAX=16, bounds="every prime field below 62, every order in the Hasse interval, every limit of %d digits" % d) for d in (1, 2)] +
    [_J("find", "h_find", 24, reach=2, std=True, bounds="every 32 bit degree and coefficient")] +
    [_J("table_%d" % lo, "h_table", 700, MLO=lo, MHI=hi, PMW=10, PM_VBITS=600, PM_MAXBITS=12, PM_VCAP=24, std=False, timeout=300, bounds="degrees %d to %d against the Lucas sequence" % (lo, hi))
     for lo, hi in ((0, 110), (111, 240), (241, 300), (301, 350), (351, 600))] +
    [_J("koblitz_%d_%d_%d" % (b, a, f), "h_koblitz", BITS=b, KA=a, KFIELD=0, KTWIST=0, KFORM=f, bounds="degree %d" % b, **_K) for b, a, f in ((101, 1, 0), (103, 0, 0), (107, 0, 1), (107, 1, 1), (97, 1, 1), (97, 1, 0))] +
    [_J("koblitz_other_%d_%d_%d" % (b, a2, b2), "h_koblitz", BITS=b, KA=1, KFIELD=0, KTWIST=1, KFORM=0, KA2=a2, KB2=b2, bounds="degree %d, coefficients a=%d, b=%d" % (b, a2, b2), **_K) for b, a2, b2 in ((101, 1, 2), (107, 0, 2), (107, 2, 1), (103, 2, 1), (107, 3, 4))] +
    [_J("koblitz_fp_%d_%d" % (b, a), "h_koblitz", BITS=b, KA=a, KFIELD=1, KTWIST=0, KFORM=0, bounds="prime field of %d bits" % b, **_K) for b, a in ((101, 1), (107, 0))],
    "gen/order.c and math/koblitz.c are executed over a model group of arbitrary order; what is recorded, what is cached, the acceptance decision and the state left after a refusal are asserted. The Koblitz table is compared with the Lucas recurrence.",
    ["point counting itself (ellff_get_card, ellsea) is libpari; the model returns the order of the model group"])

_J = mk("h_meta.c", ["gen/metadata.c", "gen/field.c", "gen/gens.c", "obj/curve.c", "obj/point.c", "obj/subgroup.c", "gen/seed.c", "misc/config.c"], ELL, unwind=30, predrop0=True, PM_VBITS=14)
prop("C30", "Curve metadata", [
    _J("prime7", "h_prime", 30, "every prime below 8, every trace, every j-invariant and discriminant", QMAX=7, PM_ZNORDER_MAX=13),
    _J("prime31", "h_prime", 64, "every prime below 32, every trace, every j-invariant and discriminant", QMAX=31, PM_ZNORDER_MAX=43, PM_GCD_STEPS=12),
] + [_J("binary%d" % m, "h_binary", 70, "the field F_2^%d, every trace, every j-invariant and discriminant" % m, BMAX=m, FMASK=t, stub=ALLOC + ("field_elementi",))
     for m, t in ((1, 3), (3, 11), (8, 283), (11, 2053))
], "gen/metadata.c is executed on a curve whose field, order, j-invariant and discriminant are arbitrary; the values recorded are compared with their definitions.",
    ["the curve's own discriminant and j-invariant, coredisc2 and znorder are those of libpari (replaced by their documented contracts)"])

_J = mk("h_nums.c", ["exhaustive/nums.c", "obj/curve.c", "obj/point.c", "obj/subgroup.c", "gen/seed.c", "util/bits.c", "misc/config.c", "math/subgroup.c"], ELL, unwind=20, PM_VBITS=24, predrop0=True)
prop("C09", "NUMS curves", [
    _J("field", "h_field", bounds="every size of 2..9 bits"),
    _J("a", "h_a", bounds="every prime below 500"),
    _J("b", "h_b", bounds="every prime below 500, eight successive curves, then another"),
    _J("order", "h_order", bounds="every prime below 500, every order in its Hasse interval", STAGES=1, reach=2, PMIN=5),
] + [_J("gens_%d" % n, "h_gens", bounds="every prime below 500, order and root, first point at x = %d" % n, STAGES=1, NB=n) for n in (1, 2, 5)],
    "The NUMS stages run on symbolic field primes, group orders and roots; the field, the sequence of coefficients, the accepted orders and the generator are compared with the procedure.",
    ["sizes above 9 bits are outside the claim", "libpari's point counting and square roots are replaced by arbitrary answers their documentation allows"])
_J2 = mk("h_nums.c", ["cm/supersingular.c", "obj/curve.c", "obj/point.c", "obj/subgroup.c", "gen/seed.c", "util/bits.c", "misc/config.c"], ELL, unwind=34, PM_VBITS=24, predrop0=True)
prop("C28", "Supersingular curves", [
    _J2("equation", "h_super", bounds="every prime below 128, every root of the class polynomial", SUPER=1, PMAX=127, reach=2, backend="cadical"),
    _J2("order", "h_super_order", bounds="every prime below 500", SUPER=1),
],
    "The equation stage runs on a symbolic prime; its coefficients must be those of a curve whose j-invariant is supersingular for that prime (1728 for p = 3 mod 4, 0 for p = 2 mod 3, a root of the class polynomial of a discriminant in which p is inert otherwise), and the recorded order p + 1.",
    ["that those j-invariants are supersingular is a theorem (Broeker), not checked", "class polynomials and their roots are libpari's (an arbitrary root other than 0 and 1728)"])

_kw = dict(unwind=24, PM_VBITS=24, PMW=1)
_J = mk("h_field.c", ["gen/field.c", "gen/equation.c", "obj/curve.c", "obj/point.c", "obj/subgroup.c", "gen/seed.c", "util/bits.c", "misc/config.c"], ELL, rename=("exit",), **_kw)
_j14 = [_J("elem_p", "h_elem", bounds="every prime below 128, every number between -500 and 500", backend="cadical", PLIM=127), _J("elem_int", "h_elem_int", bounds="every number between -1000 and 1000"), _J("params_p", "h_params_p", bounds="every prime below 1000"),
        _J("random_p", "h_random", bounds="every size 1..20000"), _J("random_2", "h_random", 30, bounds="every size 1..20000", BIN=1, reach=2)]
for _m, _t in ((3, 11), (8, 283), (11, 2053)):
    for _l in range(_m + 1):
        if _m == 11 and _l not in (0, 1, 5, 8, 10, 11): continue
        _j14.append(_J("elem_2_%d_%d" % (_m, _l), "h_elem", 70, bounds="every element of %d bits of F_2^%d" % (_l, _m), BIN=1, MDEG=_m, FMASK=_t, ELEN=_l))
for _m in (3, 7, 12):
    _j14.append(_J("params3_%d" % _m, "h_params", 70, bounds="every trinomial of degree %d" % _m, MDEG=_m, TERMS=3, E1LO=1))
for _m in (5, 8, 12):
    _j14.append(_J("params5_%d" % _m, "h_params", 70, bounds="every pentanomial of degree %d" % _m, MDEG=_m, TERMS=5, E1LO=3))
prop("C14", "Field elements", _j14,
     "Conversions between numbers and elements and the description of a field run on arbitrary elements and moduli, libpari objects being modelled by their coefficients.",
     ["libpari represents F_2^m elements by their coefficient polynomials", "field degrees above 12 are outside the claim"])
C15_FIELD = _j = [_J("field_p", "h_in_prime", bounds="every answer", reach=3), _J("field_once", "h_in_once", bounds="every answer", reach=2), _J("coef_p", "h_in_coef", bounds="every prime below 1000, every answer", reach=3), _J("coef_once_p", "h_in_coef", PLIM=127, backend="cadical", bounds="every prime below 128, every answer", reach=3, ONCE=1)]
for _m, _t in ((3, 11), (8, 283)):
    for _l in sorted({0, 1, _m // 2 + 1, _m}): _j.append(_J("coef_2_%d_%d" % (_m, _l), "h_in_coef", 70, bounds="every element of %d bits of F_2^%d" % (_l, _m), BIN=1, MDEG=_m, FMASK=_t, ELEN=_l, ONCE=1))
    for _o in (1, 2): _j.append(_J("coef_2_%d_no%d" % (_m, _o), "h_in_coef", 70, bounds="refused input and its end", BIN=1, MDEG=_m, FMASK=_t, OUTCOME=_o))
for _m in (4, 9):
    _j.append(_J("field_2_%d_degree" % _m, "h_in_binary", 70, bounds="every other degree", MDEG=_m, SHORTS=1, OUTCOME=9))
    _j.append(_J("field_2_%d" % _m, "h_in_binary", 70, bounds="every choice of exponents up to %d, every verdict on irreducibility" % _m, MDEG=_m, SHORTS=1, OUTCOME=8, reach=3))
    for _o in range(4):
        for _w in (-1, -2, -3, _m + 1): _j.append(_J("field_2_%d_%d_%s" % (_m, _o, str(_w).replace("-", "m")), "h_in_binary", 70, bounds="answer %d is %d" % (_o, _w), MDEG=_m, SHORTS=1, OUTCOME=_o, WHICH=_w))

_J = mk("h_poly.c", ["math/poly.c", "misc/config.c"], NT, unwind=700, timeout=420, predrop0=True, rename=("bsearch",))
_F = dict(std=False, fieldarr=700)
_t = [_J("small_%d_%d" % (lo, hi), "h_table", bounds="every size from %d to %d, every possible factor: irreducibility" % (lo, hi), MLO=lo, MHI=hi, GDEG=g, **_F) for lo, hi, g in ((2, 16, 8), (17, 24, 12))]
_c = list(range(25, 10001, 625))
_t += [_J("table_%d" % lo, "h_table", bounds="every size from %d to %d, every factor of degree up to 6" % (lo, min(lo + 624, 10000)), MLO=lo, MHI=min(lo + 624, 10000), GDEG=6, **_F) for lo in _c]
prop("C22", "Reduction polynomials", _t + [_J("outside", "h_outside", bounds="every size below 2 and from 10001 to 100000", ENDS=1, **_F)] +
     [_J("gen_%d" % m, "h_gen", bounds="every choice of exponents of degree %d" % m, GENJOB=1, MDEG=m) for m in (5, 9, 14)],
     "Every size is looked up through the real search; the solver then takes an arbitrary size and an arbitrary possible factor and must show that the polynomial found has the degree, the shape and no such factor. The field built from an entry is compared with its exponents.",
     ["irreducibility is decided in full up to degree 24; above, only factors of degree up to 6, squares and (trinomials) an even number of factors are excluded: a wrong entry escapes with probability about 0.05 to 0.09"])

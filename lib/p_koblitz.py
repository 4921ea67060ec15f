_J = mk("h_koblitz.c", ["math/koblitz.c", "obj/curve.c", "obj/point.c", "obj/subgroup.c", "gen/seed.c", "misc/config.c"], ELL, unwind=160, predrop0=True, PM_VBITS=620, PMW=10, fieldarr=1300)
prop("C23", "Koblitz orders", [
    _J("order_%d" % lo, "h_order", 620, "table entries %d to %d, any size and coefficient they are found for" % (lo, lo + 4), ALO=lo, AHI=lo + 5, FOUND=1, std=False) for lo in (0, 5, 10, 15)] + [
    _J("none", "h_order", 620, "sizes up to 100000 and coefficients that lie before, between and after the table's entries", ALO=0, AHI=21, FOUND=0, std=False)
] + [
    _J("is_%d" % m, "h_is", 70, "every a and b in F_2^%d" % m, MDEG=m, FMASK=t, stub=ALLOC + ("field_elementi",), PM_VBITS=16, PMW=1) for m, t in ((3, 11), (8, 283), (11, 2053))],
    "koblitz_get_order runs on a symbolic field size and coefficient; the entry it is found for must equal 2^m + 1 - V_m for the Lucas sequence of the curve's trace over F_2, and the table must be sorted as its binary search needs.",
    ["bsearch is replaced by its contract over a sorted table (sortedness is asserted; the table has at most 20 entries, which is asserted)", "sizes above 600 have no entry in the table and are outside the claim"])

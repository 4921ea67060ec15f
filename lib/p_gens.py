_J = mk("h_gens.c", ["gen/gens.c", "misc/config.c", "obj/curve.c", "obj/point.c", "obj/subgroup.c", "gen/seed.c"], ELL, unwind=26, PM_VBITS=8, predrop0=True, OMAX=13, PM_ZNORDER_MAX=13)
_C = "every cyclic group of order up to 24"
_D = "every group Z/n1 x Z/n2 with n2 up to 4 dividing n1 up to 24, any second generator"
prop("C04", "Generator stage", [
    _J("any1", "h_any", NG=1, PM_ORDMAX=24, bounds=_C),
    _J("any2", "h_any", NG=2, PM_ORDMAX=24, std=False, bounds=_D),
    _J("any0", "h_any", NG=0, PM_ORDMAX=24, bounds="the trivial group"),
    _J("unroll1", "h_unroll", NG=1, bounds="any cyclic curve"), _J("unroll2", "h_unroll", NG=2, bounds="any curve with two generators"), _J("unroll0", "h_unroll", NG=0, bounds="no generators"),
    _J("one1", "h_one", NG=1, PM_ORDMAX=24, bounds=_C),
    _J("one2", "h_one", NG=2, PM_ORDMAX=24, std=False, bounds=_D),
    _J("cof1", "h_cofactor", backend="cadical", timeout=300, NG=1, PM_ORDMAX=15, GMAX=15, GMAX2=5, std=False, bounds="every cyclic group of order up to 15, every cofactor with a prime quotient"),
    _J("cof1_24", "h_cofactor", backend="cadical", timeout=800, tier="thorough", NG=1, PM_ORDMAX=24, std=False, bounds=_C + ", every cofactor with a prime quotient"),
    _J("cof2", "h_cofactor", backend="cadical", timeout=300, NG=2, PM_ORDMAX=15, GMAX=15, GMAX2=5, std=False, bounds="every group Z/n1 x Z/n2 with n2 up to 5 dividing n1 up to 15, any second generator, every cofactor with a prime quotient"),
    _J("cof2_24", "h_cofactor", backend="cadical", timeout=800, tier="thorough", NG=2, PM_ORDMAX=24, std=False, bounds=_D + ", every cofactor with a prime quotient"),
    _J("anom0", "h_anomalous", reach=1, NGENS=1, OMAX=255, bounds="one generator of any order up to 255"),
    _J("anom2", "h_anomalous", reach=2, NGENS=2, OMAX=255, bounds="two generators of any order up to 255"),
    _J("emb1", "h_embedding", reach=2, NGENS=1, std=False, PM_GCDBITS=5, PM_GCD_STEPS=8, bounds="every prime below 32, every generator order up to 13, limits 0 to 9"),
    _J("emb2", "h_embedding", reach=2, NGENS=2, std=False, PM_GCDBITS=5, PM_GCD_STEPS=8, bounds="every prime below 32, every pair of generator orders up to 13, limits 0 to 9"),
], "gen/gens.c is executed over model groups Z/n1 x Z/n2 with arbitrary generators; exact orders, cofactors, spanning of the group, uniqueness and the decisions of the checks are asserted.",
    ["the elliptic curve group law is a model group Z/n1 x Z/n2 of the same structure", "group orders beyond the listed bounds are outside the claim"])

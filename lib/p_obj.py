_J = mk("h_obj.c", ["obj/curve.c", "obj/point.c", "obj/subgroup.c", "gen/seed.c", "util/bits.c", "misc/config.c"], ELL, unwind=30, predrop0=True, stub0=ALLOC + ("subgroup_new",), PM_DEEPCOPY=1, PM_VBITS=16, PM_PTRWORDS=24, fieldarr=80)
_jobs = []
for _c in (0, 1):
    _k = "clone" if _c else "copy"
    for _n, _h in (("full", 0xfff), ("nometa", 0x1ff), ("binmeta", 0x7f7), ("early", 0x18), ("noseed", 0xff7), ("fieldonly", 0)):
        _jobs.append(_J("curve_%s_%s" % (_k, _n), "h_curve", 40, "every content of a curve with the members %s" % hex(_h), CLONE=_c, HAVE=_h, SRCCLONE=_c))
    _jobs.append(_J("curve_%s_ansi" % _k, "h_curve", 40, "every content of a curve with an ANSI seed", CLONE=_c, STYPE="SEED_ANSI", NGEN=1, NPTS=0))
    for _g, _p in ((1, 0), (1, 3), (3, 1)):
        _jobs.append(_J("subs_%s_%d_%d" % (_k, _g, _p), "h_subs", 40, "%d subgroups of %d points" % (_g, _p), CLONE=_c, NGEN=_g, NPTS=_p))
    _jobs.append(_J("points_%s" % _k, "h_points", 40, "3 points", CLONE=_c, NGEN=3))
    for _s in ("NONE", "ANSI", "BRAINPOOL", "BRAINPOOL_RFC", "FIPS", "NUMS", "FAMILY"):
        _jobs.append(_J("seed_%s_%s" % (_k, _s.lower()), "h_seed", 40, "every content of a seed", CLONE=_c, STYPE="SEED_" + _s))
        _jobs.append(_J("seed_%s_%s_part" % (_k, _s.lower()), "h_seed", 40, "every content of a seed without its optional members", CLONE=_c, STYPE="SEED_" + _s, HAVE=0))
_jobs += [_J("unroll_%s" % _s.lower(), "h_seed_unroll", 40, "every content of a seed", STYPE="SEED_" + _s) for _s in ("NONE", "ANSI", "BRAINPOOL", "FAMILY")]
prop("C18", "Copies and freeing", _jobs,
     "The copy, clone and free functions of obj/ and gen/seed.c run on objects of the listed shapes with arbitrary contents: the copy is compared member by member, its memory must be distinct, it must stay usable after the original is freed, and everything allocated must be released exactly once.",
     ["the seed union is laid out as a structure", "objects inside libpari's curve structure beyond its coefficients are not followed"])

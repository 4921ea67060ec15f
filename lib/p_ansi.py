_J = mk("h_ansi.c", ["exhaustive/ansi.c", "util/bits.c", "gen/seed.c", "obj/curve.c", "obj/point.c", "obj/subgroup.c", "misc/config.c", "util/str.c"], ELL, unwind=170, std=False, predrop0=True)
_ST = ALLOC + ("bits_sha1", "input_string")
def _a(n, e, t, g=160, k=None, **kw):
    k = g if k is None else k
    return _J("%s_%d_%d_%d" % (n, t, g, k), e, max(t, g) + 12, TBITS=t, GBITS=g, KBITS=k, ABS=1, PMW=(max(t, g) + 70) // 64, PM_VBITS=max(t, g) + 6,
              stub=_ST + ("field_ielement", "gerepileall", "bits_to_i", "bits_from_i"), rename=("stoi", "mulii", "addii", "modii"), PM_VCAP=8, fieldarr=max(t, 80), **kw,
              bounds="every %d-bit seed %s, every hash function, t = %d" % (g, "that is all ones" if k == 0 else "of %d significant bits" % k, t))
def _fp(t, g=160, k=None, **kw): return _a("fp", "h_fp", t, g, k, backend="cadical", **kw)
def _f2(t, g=160, k=None, **kw): return _a("f2m", "h_f2m", t, g, k, **kw)
def _sd(n, e, ln, pre, **kw):
    return _J("%s_%d_%d" % (n, ln, pre), e, 60, SEEDSTAGE=1, LEN=ln, PREFIX=pre, KBITS=8, PMW=1, PM_VBITS=20, stub=_ST, fieldarr=80, bounds="every %d-character string%s" % (ln, ", prefixed" if pre else ""), **kw)
prop("C06", "ANSI X9.62", [_fp(t) for t in (160, 161, 192, 321)] + [_fp(161, 160, 151), _fp(161, 160, 140), _fp(192, 168), _fp(192, 164), _fp(161, 160, 0)] +
     [_fp(t, tier="thorough") for t in (159, 224, 256, 320, 384, 480, 481, 521)] +
     [_f2(t) for t in (160, 161, 163, 233, 321)] + [_f2(163, 160, 153), _f2(163, 160, 141), _f2(233, 160, 120), _f2(163, 168), _f2(163, 160, 0)] + [_f2(t, tier="thorough") for t in (131, 283, 409, 480, 481, 571)] +
     [_J("eq_%d" % t, "h_eq", 170, TBITS=t, GBITS=8, KBITS=8, PM_VBITS=12, reach=2, stub=_ST, bounds="every %d-bit prime field, seed, hash function and random draw" % t) for t in (3, 4, 5)] +
     [_sd("valid", "h_valid", l, p) for l, p in ((0, 0), (1, 0), (39, 0), (40, 0), (41, 0), (40, 2), (41, 2), (42, 2), (43, 2), (44, 0)) if l > 1] +
     [_sd("arg", "h_arg", l, p) for l, p in ((40, 0), (41, 0), (42, 2), (50, 0))] +
     [_sd("input", "h_input", l, p, ANY=a) for l, p, a in ((40, 0, 0), (42, 2, 0), (44, 0, 0), (39, 0, 1), (41, 2, 1))],
     "The seed and equation procedures of ANSI X9.62 run on an arbitrary seed with SHA-1 replaced by an arbitrary function whose inputs are checked: block k must hash the seed plus k modulo 2^g, and r (or b over a binary field) must be the W of the standard. Over small prime fields the congruence r b^2 = a^3 and the reduction of a and b are decided for every draw.",
     ["SHA-1 itself is C10; conversions between bit strings and integers in the large-t jobs are C11 (stubbed by what is decided there)", "a seed of an odd number of hexadecimal digits is hashed as the bytes holding it, zero padded",
      "the seed union is laid out as a structure"])

_J = mk("h_sha1.c", ["lib/sha1/sha1.c"], ("pm_core.c", "pm_gen.c", "pm_libc.c"), unwind=290, std=False, fieldarr=300, predrop0=True)
def _s(n, s1=0, s2=None, lo=0, hi=None, z=True, t="quick", **k):
    s2 = n if s2 is None else s2
    hi = n if hi is None else hi
    return _J("sha_%d_%d_%d_%s" % (n, s1, s2, "all" if z else "at%d" % lo), "h_sha", LEN=n, S1=s1, S2=s2, SYMLO=lo, SYMHI=hi, backend="z3new" if z else None, timeout=200, tier=t, **k,
              bounds="%s of %d bytes, hashed in pieces of %d, %d and %d bytes" % ("every message" if z else "messages differing in byte %d" % lo, n, s1, s2 - s1, n - s2))
_PART = [(3, 0, 3, 0), (20, 5, 6, 19), (55, 0, 55, 54), (56, 1, 56, 55), (57, 0, 57, 56), (63, 1, 62, 62), (64, 0, 64, 63), (64, 32, 33, 0), (65, 64, 65, 64), (70, 3, 69, 68), (119, 55, 64, 63), (119, 0, 119, 118), (120, 64, 120, 119), (128, 1, 127, 127)]
prop("C10", "SHA-1", [_s(n) for n in (0, 1, 3, 4, 5, 20, 54, 55)] +
     [_s(n, t="thorough") for n in (2, 6, 7, 8, 16, 21, 24, 32, 40, 48, 52, 53)] +
     [_s(*x) for x in ((20, 1, 20), (20, 3, 9), (40, 20, 20), (55, 1, 54))] +
     [_s(n, a, b, lo, lo + 1, False) for n, a, b, lo in _PART] +
     [_s(n, 0, n, lo, lo + 1, False, t="thorough") for n in (56, 64, 65, 119, 120, 121, 128, 183, 184, 200) for lo in (0, 1, 51, n // 2, n - 2) if (n, 0, n, lo) not in _PART] +
     [_J("bits_%d" % n, "h_bits", src=["lib/sha1/sha1.c", "util/bits.c"], model=NT, LEN=(n + 7) // 8, BITLEN=n, SYMLO=0, SYMHI=(n + 7) // 8, backend="z3new", bounds="every bit string of %d bits" % n) for n in (1, 8, 12, 160, 161, 163)] +
     [_J("count", "h_count", bounds="every 64-bit message length so far")],
     "The real SHA-1 is executed next to an independent transcription of FIPS 180. For every listed length that fits one block the digests are compared by z3 for every message; for longer messages, where that is out of reach, one byte is arbitrary, which fixes padding, block boundaries and splitting, and those jobs are decided by SAT.", [])

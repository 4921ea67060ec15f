_J = mk("h_hex.c", ["gen/hex.c", "gen/field.c", "util/str.c", "util/bits.c", "gen/seed.c", "obj/point.c", "obj/subgroup.c", "obj/curve.c", "math/poly.c", "io/output.c", "misc/config.c", "util/random.c", "io/input.c"], ELL + ("pm_fmt.c",), unwind=40, PM_VBITS=16, PM_NSTR=60, std=False)
def _H(n, txt, **k):
    k.setdefault("reach", 2)
    return _J(n, "h_hex", 40, txt + "; every parameter value and every text in either case", **k)
prop("C24", "Hex check", [
    _H("field", "stopped after the field, 2 digits, 2 searched", DIG=2, SL=2, STATE="OFFSET_FIELD"),
    _H("a", "stopped after a", DIG=2, SL=2, STATE="OFFSET_A"),
    _H("b", "stopped after b", DIG=3, SL=2, STATE="OFFSET_B"),
    _H("order", "stopped after the order", DIG=4, SL=3, STATE="OFFSET_ORDER"),
    _H("gens", "stopped after the generators, two subgroups", DIG=2, SL=2, NG=2, NPT=0, STATE="OFFSET_GENERATORS"),
    _H("p0", "no points", DIG=2, SL=2, NG=1, NPT=0), _H("p1", "one point", DIG=2, SL=2, NG=1, NPT=1, std=True),
    _H("p1s1", "one character searched", DIG=2, SL=1, NG=1, NPT=1), _H("p1s3", "three characters of four", DIG=4, SL=3, NG=1, NPT=1),
    _H("p2", "two points", DIG=2, SL=2, NG=1, NPT=2), _H("p2s4", "two points, three of three digits", DIG=3, SL=3, NG=1, NPT=2),
    _H("g2p2", "two subgroups with two points each", DIG=2, SL=2, NG=2, NPT=2),
    _H("seed16", "seed of 16 bits", DIG=2, SL=2, SEEDBITS=16), _H("seed13", "seed of 13 bits", DIG=2, SL=3, SEEDBITS=13, reach=2),
    _H("long", "text longer than the field", DIG=2, SL=3, NG=1, NPT=1, reach=1),
    _H("bin8", "binary field of degree 8", DIG=2, SL=2, NG=1, NPT=1, KBIN="0x11b", KDEG=8), _H("bin5", "binary field of degree 5", DIG=2, SL=2, KBIN="0x25", KDEG=5), _H("bin5b", "binary field of degree 5", DIG=2, SL=1, KBIN="0x25", KDEG=3),
], "gen/hex.c with the text, bit string and field helpers is executed symbolically on curves with arbitrary parameters and an arbitrary text; the verdict is compared with a search over the digits of every parameter.",
    ["the lone character 0 (found in every 0x prefix) is left out", "pari_sprintf is a model of the one conversion used (checked against libpari 2.15)"])

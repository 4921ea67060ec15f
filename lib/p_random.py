_J = mk("h_random.c", ["util/random.c"], NT, unwind=20, PM_VBITS=16)
_SEEDSTUB = ["fopen", "fread", "fclose", "clock_gettime", "time"]
prop("C13", "Random values lie in their ranges", [
    _J("int", "h_int", bounds="every size 1..9 bits and every draw", KB=9),
    _J("int_all", "h_int_all", reach=4, bounds="every 9-bit and smaller integer can be drawn", KB=9),
    _J("prime", "h_prime", bounds="every size 2..9 bits and every draw", KB=9),
    _J("range", "h_range", reach=3, bounds="every range of up to 500 values between -500 and 1000"),
    _J("field", "h_field", reach=3, bounds="every modulus 2..1000"),
    _J("field2", "h_field2", bounds="four binary fields of degree 4..8"),
    _J("seed", "h_seed", bounds="every 8 bytes of entropy, every sequence of short reads, every clock", PM_VBITS=64, rename=_SEEDSTUB),
], "util/random.c is executed symbolically on top of a generator that may return any value its documented contract allows; results are checked against the range and bit length asked for, and that the extreme values are reachable.",
    ["libpari's random() and randomprime() return some value of the interval they are given", "values above 16 bits are outside the claim"])

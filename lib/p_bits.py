_J = mk("h_bits.c", ["util/bits.c"], BASE, timeout=300)
prop("C11", "Bit string conversions", [
    _J("int", "h_int", 14, "every integer of either sign below 2^9", HI=9, PM_MAXBITS=9),
    _J("int_len", "h_int_len", 20, "every value of every bit length up to each target length in {0,1,7,8,9,12}", KLA="0,1,7,8,9,12", PM_MAXBITS=16),
    _J("to_i", "h_to_i", 20, "every bit string of length 0,1,7,8,9,12 and either sign", KLA="0,1,7,8,9,12"),
    _J("hex", "h_hex", 20, "every string of 0,1,2,3,5 hex digits in any case", KLA="0,1,2,3,5"),
    _J("hexn", "h_hex", 20, "the same with a minus sign", KLA="0,1,2,3,5", SIGN=1),
    _J("tohex", "h_tohex", 30, "every bit string of length 0,1,3,7,8,9,17,20", KLA="0,1,3,7,8,9,17,20"),
    _J("tohexn", "h_tohex", 30, "the same, negative", KLA="0,1,3,7,8,9,17", SIGN=1),
    _J("bin", "h_bin", 30, "every binary string of length 0,1,7,8,9,17", KLA="0,1,7,8,9,17"),
    _J("binn", "h_bin", 30, "the same with a minus sign", KLA="0,1,7,8,9", SIGN=1),
    _J("raw", "h_raw", 30, "every raw buffer with 0,1,7,8,9,16,17 significant bits", KLA="0,1,7,8,9,16,17"),
], "The bodies of util/bits.c conversions are executed symbolically for every content of strings of the listed lengths and compared with the value they denote, including round trips and the invariant that unused trailing bits are zero.",
    ["lengths outside the listed ones are outside the claim"])
prop("C12", "Bit string algebra", [
    _J("two", "h_two", 60, "every pair of strings of lengths {0,1,7} x {0,1,7,8,9}: and, or, xor, concat, equality, comparison", KLA="0,1,7", KLB="0,1,7,8,9"),
    _J("two2", "h_two", 60, "every pair of strings of lengths {8,9} x {0,1,7,8,9}", KLA="8,9", KLB="0,1,7,8,9"),
    _J("one", "h_one", 40, "every string of length 0,1,7,8,9,17 and every index/amount", KLA="0,1,7,8,9,17"),
    _J("shift", "h_shift", 40, "every string of length 0,1,5 and every shift amount", KLA="0,1,5"),
    _J("shift8", "h_shift", 40, "every string of length 8 and every shift amount", KLA="8"),
    _J("rot", "h_rotate", 40, "every string of length 1,3,5,8 and every rotation amount", KLA="1,3,5,8"),
    _J("rand", "h_rand", 40, "every random draw for lengths 0,1,5,8,9,16,17; every value reachable", KLA="0,1,5,8,9,16,17"),
], "Bitwise operations, shifts, rotations, slicing, concatenation, comparison and random strings of util/bits.c are executed symbolically and compared bit by bit with their definition.",
    ["lengths outside the listed ones are outside the claim"])

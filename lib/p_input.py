_J = mk("h_input.c", ["io/input.c", "misc/config.c"], NT, unwind=20, PM_VBITS=60, PMW=1, rename=("strtoi", "getdelim", "feof", "ferror", "perror"))
_jobs = []
for _t, _w in ((0, "ended by the delimiter"), (1, "ended by the end of the input")):
    for _s in (0, 1):
        for _h in (0, 1):
            for _l in (1, 2, 4, 7):
                if _l <= _s + 2 * _h: continue
                if _t == 1 and _l not in (1, 2, 4): continue
                _jobs.append(_J("int_%d%d%d_%d" % (_t, _s, _h, _l), "h_int", bounds="every text of %d characters %s, %s, %s, size 1..40" % (_l, _w, "with a minus sign" if _s else "no sign", "hexadecimal" if _h else "decimal"), LEN=_l, TAIL=_t, SIGN=_s, HEX=_h))
for _e in ("int", "short", "prime"):
    _jobs += [_J(_e + "_end", "h_" + _e, bounds="end of the input", LEN=1, TAIL=2), _J(_e + "_empty", "h_" + _e, bounds="an empty text", LEN=0)]
for _h, _l in ((0, 3), (0, 5), (1, 5), (1, 7)):
    _jobs.append(_J("short_%d_%d" % (_h, _l), "h_short", bounds="every text of %d characters" % _l, LEN=_l, HEX=_h))
for _h, _l in ((0, 2), (1, 4)):
    _jobs.append(_J("prime_%d_%d" % (_h, _l), "h_prime", bounds="every text of %d characters" % _l, LEN=_l, HEX=_h, reach=2))
_jobs.append(_J("prime_neg", "h_prime", bounds="every negative number of up to 2 digits", LEN=3, SIGN=1))
_jobs += [_J("string_%d" % _l, "h_string", bounds="every text of %d characters" % _l, LEN=_l) for _l in (0, 1, 5, 12)]
_jobs += [_J("string_eof", "h_string", bounds="every text of 6 characters that ends with the input", LEN=6, TAIL=1, PLAIN=1), _J("string_end", "h_string", bounds="end of the input", LEN=1, TAIL=2)]
prop("C15", "User input", _jobs + C15_FIELD,
     "io/input.c reads a symbolic text of a fixed length whose delimiter and end are fixed per job; the value is compared with the number written. gen/field.c and gen/equation.c then run on arbitrary answers of those readers.",
     ["texts that are not numbers are outside the claim (libpari reads their leading digits)", "-1 and -2 are the codes of refusal and end of input, so those two numbers cannot be given", "irreducibility and primality are decided by libpari (arbitrary verdicts; the polynomial tested is compared)", "the delimiter and newline both end a string"])

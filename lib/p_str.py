_J = mk("h_str.c", ["util/str.c"], BASE, unwind=30)
prop("C31", "String helpers", [
    _J("join", "h_join", 30, "every content of three pieces of lengths 2,0,3, separator of one character", KLA="2,0,3", KSEP=1),
    _J("join1", "h_join", 30, "one piece", KLA="3", KSEP=2),
    _J("join5", "h_join", 40, "pieces of lengths 1,2,1,3,1, separator of two characters, one piece missing", KLA="1,2,-1,3,1", KSEP=2),
    _J("join_missing", "h_join", 40, "a missing piece in the middle, two in a row and one at the end", KLA="1,-1,2,-1,-1,1,-1", KSEP=1),
    _J("join_nosep", "h_join", 30, "no separator", KLA="2,2", KSEP=-1),
    _J("join_emptysep", "h_join", 30, "empty separator", KLA="2,2", KSEP=0),
    _J("concat", "h_concat", 30, "pieces 3,0,2,1", KLA="3,0,2,1"),
    _J("none", "h_none", 30, "no pieces, separator of two characters", KLA="1", KSEP=2),
    _J("joinv3", "h_joinv", 40, "three variadic pieces", KLA="2,0,1"),
    _J("joinv5", "h_joinv", 40, "five variadic pieces", KLA="1,1,1,1,1"),
    _J("joinv11", "h_joinv", 40, "eleven variadic pieces", KLA="1,1,1,1,1,1,1,1,1,1,1"),
    _J("cnt", "h_cnt", 20, "every text of up to six bytes and every character", LEN=6),
    _J("ishex", "h_ishex", 20, "every text of up to six bytes", LEN=6),
], "The helpers of util/str.c are executed symbolically on every content of pieces of the listed lengths and compared with the text they must give; reads and writes outside the pieces and the result are checked.",
    ["piece counts and lengths other than the listed ones are outside the claim"])

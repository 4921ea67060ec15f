_J = mk("h_mem.c", ["util/memory.c", "obj/curve.c", "obj/point.c", "obj/subgroup.c", "gen/seed.c", "util/bits.c", "misc/config.c"], ("pm_core.c", "pm_gen.c", "pm_libc.c"), unwind=30, predrop0=False, stub0=(), rename=("exit",))
prop("C33", "Memory helpers", [
    _J("malloc%d" % n, "h_malloc", 40, "%d bytes, every outcome of the allocator" % n, LEN=n) for n in (0, 1, 9, 24)] + [
    _J("calloc%d" % n, "h_calloc", 40, "%d bytes, every outcome of the allocator" % n, LEN=n) for n in (0, 1, 9, 24)] + [
    _J("memdup%d" % n, "h_memdup", 40, "%d arbitrary bytes, every outcome of the allocator" % n, LEN=n) for n in (0, 1, 9, 20)] + [
    _J("strdup%d" % n, "h_strdup", 40, "every text of up to %d bytes, every outcome of the allocator" % n, LEN=n) for n in (1, 7)] + [
    _J("realloc%d_%d" % (a, b), "h_realloc", 40, "%d bytes resized to %d, every outcome of the allocator" % (a, b), LEN=a, LEN2=b) for a, b in ((4, 9), (9, 4), (5, 5), (4, 0), (0, 4))] + [
    _J("vectors%d" % n, "h_vectors", 200, "vectors of %d objects, every outcome of the allocator" % n, NOBJ=n) for n in (1, 3, 7)] + [
    _J("objects", "h_objects", 60, "every outcome of the allocator"), _J("set", "h_set", 30, "installed functions"),
], "util/memory.c (not stubbed here) and the constructors of obj/ run over an allocator that may fail at any call; the memory handed out is written to and compared, and after a failure the program must have ended.",
    ["pari_malloc and friends are replaced by an allocator that fails arbitrarily"])

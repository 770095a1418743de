from specs import J, prop, SPECS
TY = {"n": "VAR_NUMBER", "s": "VAR_STRING", "na": "(VAR_NUMBER|VAR_ARRAY)", "sa": "(VAR_STRING|VAR_ARRAY)"}
TN = {"n": "number", "s": "string", "na": "number array", "sa": "string array"}
CS = {"VALUE_STACK_SIZE": 8, "CALL_STACK_SIZE": 8}
PAIRS = [(1, 1, "n", "n"), (1, 2, "n", "n"), (2, 2, "s", "s"), (3, 3, "n", "n"), (1, 1, "n", "s"), (1, 1, "n", "na"), (1, 1, "s", "sa"), (2, 2, "na", "sa"),
         (3, 2, "s", "s"), (16, 15, "n", "n"), (16, 16, "n", "n")]
prop("C12", [J("two_%d%s_%d%s" % (a, t, b, u), "vars.c", "h_two", unwind=max(a, b, 16) + 2, fs=24, defines=["L0=%d" % a, "L1=%d" % b, "T0=" + TY[t], "T1=" + TY[u]],
               reach=(["same"] if (a, t) == (b, u) else []) + ["different"],
               bounds="table of 4 entries with any content in unused entries; a %s and a %s with any names of %d and %d characters" % (TN[t], TN[u], a, b))
             for a, b, t, u in PAIRS])
SPECS["C12"]["jobs"].append(J("full_table", "vars.c", "h_full", unwind=18, fs=24, reach=["full", "array"],
    bounds="a table of 4 entries filled with the same name in each type, any two names of 2 characters"))
DCS = {"VALUE_STACK_SIZE": 8, "CALL_STACK_SIZE": 8}
prop("C13", [J("dim%d%s" % (n, t), "vars.c", "h_dim", unwind=13, fs=64, scale=DCS, defines=["ENV_ARR=12", "ND=%d" % n, "DT=" + TY[t]], reach=["full", "done"], timeout=240,
               bounds="DIM of a %s with %d sizes, all 2^32 values each, any amount of a 12 element array memory in use" % (TN[t + "a"], n))
             for n in (1, 2) for t in "ns"] +
            [J("access%d%d" % (nd, ni), "vars.c", "h_access", unwind=22, fs=64, scale=DCS, defines=["ENV_ARR=20", "ND=%d" % nd, "NI=%d" % ni], reach=["element", "outside"] if not (nd == 1 and ni == 2) else ["outside"],
               timeout=300, bounds="array of %d sizes 0-3, %d subscripts with all 2^32 values each" % (nd, ni))
             for nd, ni in ((1, 1), (2, 2), (1, 2), (2, 1))] +
            [J("access_undim%d" % ni, "vars.c", "h_access", unwind=105, fs=64, scale=DCS, defines=["ENV_ARR=104", "UNDIM=1", "NI=%d" % ni], reach=["element", "outside"],
               timeout=300, bounds="array used before any DIM, %d subscripts with all 2^32 values each" % ni) for ni in (1, 2)])
prop("C22", [J("swap_num", "sortclear.c", "h_swap_num", unwind=6, fs=32, reach=["swapped"], bounds="all number values; two variables, a variable and a system variable in both orders, a variable with itself"),
             J("clear", "sortclear.c", "h_clear", unwind=40, fs=32, reach=["ids", "names"], bounds="a table of 4 variables of any types and values, 4 strings, 32 array elements"),
             ] + [J("swap_str%d%d" % (kd, ka), "str_slots.c", "h_swap", unwind=7, defines=["SMALL_SLOTS", "KD=%d" % kd, "KA=%d" % ka], reach=["value"], stubs=["get_new_str"],
               bounds="SWAP of two string variables, strings up to 3 characters") for kd, ka in ((1, 2), (2, 2))])
def sort(n, nx, rs, **kw):
    return J("%ssort%d_%d" % ("r" if rs else "", n, nx), "sortclear.c", "h_sort", unwind=n + 1, unwindset={"quick_sort": n}, fs=32, defines=["N=%d" % n, "NX=%d" % nx, "RS=%d" % rs],
             reach=["sorted"], timeout=300, bounds="%s of %d numbers with any values and %d arrays following" % ("RSORT" if rs else "SORT", n, nx), **kw)
prop("C21", [sort(3, 1, 0), sort(3, 2, 1), sort(3, 0, 0), sort(4, 1, 0, tier="thorough"), sort(4, 1, 1, tier="thorough")] +
            [J("part%d_%d" % (s, z), "sortclear.c", "h_sort", unwind=5, unwindset={"quick_sort": max(1, z)}, fs=32, defines=["N=4", "NX=1", "START=%d" % s, "SIZE=%d" % z], reach=["sorted"], timeout=200,
               bounds="SORT of elements %d to %d of 4, any values" % (s, s + z - 1)) for s, z in ((1, 2), (2, 2), (0, 3), (1, 0), (3, 1))] +
            [J("args%s_%s" % (a, b), "sortclear.c", "h_sort_args", unwind=4, unwindset={"quick_sort": max(1, min(a, b))}, fs=32, defines=["M0=%d" % a, "M1=%d" % b], reach=["end"], timeout=200,
               bounds="arrays of %s and %s elements (negative: two-dimensional), all 2^64 start and size arguments" % (a, b)) for a, b in ((2, 2), (1, 2), (2, 1), (0, 1), (-1, 1), (1, -1))] +
            [J("args%s_%s_%s" % m, "sortclear.c", "h_sort_args", unwind=4, unwindset={"quick_sort": max(1, min(m))}, fs=32, defines=["M%d=%d" % (i, m[i]) for i in range(3)], reach=["end"], timeout=200,
               bounds="arrays of %s, %s and %s elements (negative: two-dimensional), all 2^64 start and size arguments" % m) for m in ((2, 2, 1), (2, 1, 2), (1, 2, 2), (1, 1, -1))] +
            [J("undim%d_%d_%d" % (x, n, s), "sortclear.c", "h_sort_undim", unwind=12, unwindset={"quick_sort": 1}, fs=32, defines=["NEXT0=%d" % x, "NARG=%d" % n, "S0=%d" % s], reach=["end"],
               bounds="arrays not dimensioned, %d of 32 elements in use, %d arguments" % (x, n)) for x, n, s in ((0, 3, 0), (0, 3, 9), (0, 3, 10), (8, 4, 0), (19, 3, 0), (20, 3, 0), (0, 0, 0), (0, 1, 0), (0, 2, 0))])

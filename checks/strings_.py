import os
SNQ = 5 if os.environ.get("VERIF_TIER") == "thorough" else 4
from specs import J, prop
KN = ["literal", "temporary", "variable", "MEM$ (wide)", "unassigned variable"]
OWN = ["OWN_SLOTS", "SN=%d" % SNQ]
QUICK = [(0, 2), (1, 3), (2, 1), (3, 0), (4, 4), (4, 1)]
PAIRS = [(0, 0), (0, 1), (1, 2), (1, 3), (2, 0), (2, 1), (3, 0), (3, 2)]
ALLP = [(i, j) for i in range(4) for j in range(4) if i + j < 6]
def kinds(name, entry, ks=(0, 1, 2, 3), pairs=None, av=(0,), bounds="", **kw):
    """one job per operand form"""
    d = kw.pop("defines", []) + OWN
    kw.setdefault("reach", ("value",))
    out = []
    for k, kb in (pairs or [(k, None) for k in ks]):
            for v in (av if k == ks[0] or pairs else av[-1:]):
                kw["tier"] = "quick" if kb is None or (k, kb) in QUICK else "thorough"
                n = "%s_%d%s%s" % (name, k, "" if kb is None else str(kb), "" if len(av) == 1 else "_v%d" % v)
                out.append(J(n, "str_ops.c", entry, stubs=["get_new_str"],
                             defines=d + ["KA=%d" % k, "AV=%d" % v] + ([] if kb is None else ["KB=%d" % kb]),
                             bounds="left operand a %s; %s%s" % (KN[k], "" if kb is None else "right operand a %s; " % KN[kb], bounds), **kw))
    return out
S5 = "strings up to %d characters, any bytes" % SNQ
prop("C06", [J("chars", "str_ops.c", "h_chars", reach=["value"], bounds="all 256 characters, all 65536 wide codes")])
OPS = ["op_equal", "op_inequal", "op_less", "op_greater", "op_less_equal", "op_greater_equal"]
prop("C07", sum([kinds(o[3:], "h_cmp", defines=["OP=" + o, "OPI=%d" % i], unwind=6, pairs=ALLP if i == 0 else PAIRS,
                       bounds="strings up to 4 characters, any bytes")
                 for i, o in enumerate(OPS)], []))
LIM = [(256, 0), (0, 256), (255, 1), (128, 128), (256, 1), (255, 2), (1, 256), (200, 100)]
prop("C08", kinds("concat", "h_concat", unwind=12, pairs=ALLP + [(4, 0), (4, 4), (0, 4), (2, 4), (4, 1)], bounds=S5) +
     kinds("repeat", "h_repeat", unwind=14, av=(0, 1), bounds="up to 3 characters, any count below 5") +
     [J("limit_%d_%d" % l, "str_ops.c", "h_limit", defines=["LA=%d" % l[0], "LB=%d" % l[1]], unwind=258,
        reach=["value"], bounds="lengths %d+%d, any probed character" % l) for l in LIM] +
     [J("repeat_limit", "str_ops.c", "h_repeat_limit", reach=["value"], bounds="all lengths 1-256, all counts")])
R2 = ["value", "range"]
prop("C09", kinds("left", "h_left", reach=R2, unwind=7, av=(0, 1), bounds=S5) +
     kinds("right", "h_right", reach=R2, unwind=7, av=(0, 1), bounds=S5) +
     kinds("mid", "h_mid", reach=R2, unwind=7, av=(0, 1, 2), bounds=S5) +
     kinds("subst", "h_subst", reach=R2, unwind=10, pairs=PAIRS, bounds=S5) +
     [J("subst_limit", "str_ops.c", "h_subst_limit", reach=["value"], bounds="all lengths 0-256")])
prop("C10", kinds("len", "h_len", unwind=7, bounds=S5) + kinds("asc", "h_asc", unwind=7, bounds=S5) +
     [J("chr", "str_ops.c", "h_chr", unwind=7, reach=R2, bounds="all 2^32 arguments")] +
     kinds("instr2", "h_instr2", unwind=14, pairs=ALLP, bounds="haystack up to 4 (thorough: 5), needle up to 3 characters") +
     kinds("instr3", "h_instr3", unwind=14, reach=R2, pairs=PAIRS, bounds="haystack up to 4 (thorough: 5), needle up to 3, all starts") +
     [J("hex1", "str_ops.c", "h_hex1", unwind=10, reach=["value"], bounds="all 2^32 arguments"),
      J("hex2", "str_ops.c", "h_hex2", unwind=10, reach=["value", "range", "nofit"], bounds="all 2^64 argument pairs")])

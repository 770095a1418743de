from specs import J, prop

FULL = "both operands: all 2^32 values each, each given as a literal or through a variable"
SMALL = ["XMIN=-40000", "XMAX=40000", "YMIN=-300", "YMAX=300"]
FORM = ["both literals", "left operand a variable", "right operand a variable", "both variables"]
def wide(name, reach):
    """one job per operand form; decided by z3 on the whole 32-bit domain, else on a reduced one"""
    flags = ["--signed-overflow-check"] if name == "mod" else []
    sreach = [r for r in reach if r != "overflow"]
    return [J("%s%d" % (name, m), "arith.c", "h_" + name, solver="z3", timeout=150, defines=["M=%d" % m], flags=flags,
              reach=reach, bounds="all 2^64 operand pairs; " + FORM[m],
              fallback=J("%s%d_small" % (name, m), "arith.c", "h_" + name, defines=SMALL + ["M=%d" % m], flags=flags,
                         reach=sreach, timeout=250, solver="cadical",
                         bounds="|x| <= 40000/4096, |y| <= 300/4096 (reduced: the full-width query "
                                "did not finish); " + FORM[m])) for m in range(4)]
prop("C01", [
    J("add", "arith.c", "h_add", reach=["value", "overflow"], bounds=FULL),
    J("sub", "arith.c", "h_sub", reach=["value", "overflow"], bounds=FULL),
] + wide("mult", ["value", "overflow"]) + wide("div", ["value", "overflow", "div0"]))
prop("C02", wide("mod", ["value", "div0"]) + [
    J("neg", "arith.c", "h_neg", reach=["value"], bounds="all 2^32 values"),
    J("floor", "arith.c", "h_floor", reach=["value"], bounds="all 2^32 values"),
    J("abs", "arith.c", "h_abs", reach=["value"], bounds="all 2^32 values"),
    J("sgn", "arith.c", "h_sgn", reach=["value"], bounds="all 2^32 values"),
    J("rnd", "arith.c", "h_rnd", defines=["OWN_RAND"], reach=["value"], bounds="all 2^32 values, every rand() result"),
])
prop("C03", [J(n, "arith.c", "h_" + n, reach=["value"], bounds=FULL) for n in
             ("eq", "ne", "lt", "gt", "le", "ge", "and", "or", "xor", "not", "lnot")])

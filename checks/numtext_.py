from specs import J, prop
ALL = "all 2^32 numbers"
ST = dict(stubs=["get_new_str"])
CLS = [(0, 9), (10, 99), (100, 999), (1000, 9999), (10000, 99999), (100000, 524288)]
prop("C04", [J("str_%d_%d" % (lo, ng), "numtext.c", "h_str", unwind=14, solver="cadical",
               defines=["NLO=%d" % lo, "NHI=%d" % hi, "NEG=%d" % ng, "AV=%d" % (lo == 10)], reach=["value"], timeout=300,
               bounds="all %s numbers with integer part %d to %d" % (("positive", "negative")[ng], lo, hi), **ST)
             for lo, hi in CLS for ng in (0, 1)] +
     [J("to_char_%d" % lo, "numtext.c", "h_fixp_to_char", unwind=14, solver="cadical", tier="thorough",
        defines=["NLO=%d" % lo, "NHI=%d" % hi], reach=["value"], timeout=600, bounds="all numbers with integer part %d to %d" % (lo, hi), **ST)
      for lo, hi in CLS])
KN = ["literal", "temporary", "variable", "MEM$ (wide)"]
prop("C05", [J("val_%d" % k, "numtext.c", "h_val", unwind=12, defines=["KA=%d" % k, "SN=5"], reach=["value", "syntax"],
               bounds="any text of up to 5 characters, given as a " + KN[k], **ST) for k in range(4)] +
     [J("val_long", "numtext.c", "h_val_long", unwind=26, reach=["value"], bounds="any text of up to 24 characters: no invalid access or trap", **ST)])

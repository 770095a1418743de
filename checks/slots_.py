from specs import J, prop
KN = ["a literal", "a temporary", "another variable", "MEM$", "an unassigned variable", "itself", "the variable sharing its string"]
DN = ["unassigned", "holding its own string", "sharing its string with another variable"]
ST = dict(stubs=["get_new_str"])
S = ["SMALL_SLOTS"]
prop("C11",
     [J("assign_%d%d" % (kd, ka), "str_slots.c", "h_assign", unwind=7, defines=S + ["KD=%d" % kd, "KA=%d" % ka], reach=["value"],
        bounds="destination %s, value from %s, strings up to 3 characters" % (DN[kd], KN[ka]), **ST)
      for kd in (0, 1, 2) for ka in range(7) if not (ka == 6 and kd != 2)] +
     [J("assign_full_%d%d" % (kd, ka), "str_slots.c", "h_assign", unwind=7, defines=S + ["KD=%d" % kd, "KA=%d" % ka, "FULL=1"],
        reach=["value" if ka == 2 else "full"], bounds="every string slot in use; destination %s, value from %s" % (DN[kd], KN[ka]), **ST)
      for kd, ka in ((0, 0), (1, 0), (1, 2), (2, 3), (1, 3))] +
     [J("mem_%d" % ka, "str_slots.c", "h_assign_mem", unwind=7, defines=S + ["KA=%d" % ka], reach=["value"],
        bounds="MEM$ assigned from %s" % KN[ka], **ST) for ka in (0, 1, 2, 4)] +
     [J("swap_%d%d" % (kd, ka), "str_slots.c", "h_swap", unwind=7, defines=S + ["KD=%d" % kd, "KA=%d" % ka], reach=["value"],
        bounds="SWAP of a variable %s with %s" % (DN[kd], KN[ka]), **ST) for kd, ka in ((0, 2), (1, 2), (2, 2), (1, 4))] +
     [J("alloc", "str_slots.c", "h_get_new_str", unwind=7, reach=["value", "full"], bounds="5 slots, any use counts up to 3")] +
     [J("full_%d_%d" % (f, ka), "str_slots.c", "h_full", unwind=7, defines=["FN=%d" % f, "KA=%d" % ka], reach=["full"],
        bounds="every string slot in use; %s" % n)
      for f, n in enumerate(("+", "*", "LEFT$", "RIGHT$", "MID$", "SUBST$")) for ka in (0, 2)])

from specs import J, prop, SPECS
CS = {"CONSOLE_WIDTH": 4, "CONSOLE_HEIGHT": 3, "VALUE_STACK_SIZE": 8}
def con(name, entry, reach, defines=(), unwind=14, **kw):
    return J(name, "console.c", entry, unwind=unwind, fs=64, scale=dict(CS, **kw.pop("scale", {})), defines=list(defines), reach=reach, timeout=300, **kw)
CB = "console of 4 by 3 with any contents, colours and cursor place (the code is the same for 32 by 24); "
prop("C23", [con("print_%s_%d" % (it, l), "h_print", ["printed"], ["ITEMS=\"%s\"" % it, "L=%d" % l], bounds=CB + "PRINT of items %s (s: string of %d characters, n: number, c: comma, e: semicolon), tab width 1-16" % (it, l))
             for it, l in (("s", 1), ("s", 4), ("s", 5), ("se", 4), ("sc", 3), ("cs", 2), ("ses", 3), ("n", 1), ("nese", 2), ("c", 1), ("cc", 1), ("", 1), ("scs", 1))] +
            [con("tab%d_%d" % (t, r), "h_print", ["printed"], ["ITEMS=\"sc\"", "L=1", "WS=2", "HS=2", "TAB=%d" % t, "RIGHT=%d" % r], unwind=66, scale={"CONSOLE_WIDTH": w, "CONSOLE_HEIGHT": 2},
                 tier="thorough" if w == 32 else "quick",
                 bounds="console of %d by 2, tab width %d, cursor %d from the end of any line" % (w, t, r)) for t, r, w in ((3, 8, 8), (8, 6, 8), (5, 3, 8), (3, 32, 32), (5, 3, 32), (16, 12, 32), (16, 17, 32))] +
            [con("tabstep", "h_tabstep", ["set"], bounds="all 2^32 values")])
prop("C24", [con("locate", "h_locate", ["moved", "outside"], scale={"CONSOLE_WIDTH": 32, "CONSOLE_HEIGHT": 24}, bounds="any cursor place, " + "all 2^64 arguments"),
             con("color", "h_color", ["range", "set"], bounds=CB + "all 2^64 arguments"),
             con("cls", "h_cls", ["cleared"], bounds=CB[:-2]),
             con("chkchr", "h_chkchr", ["inside", "outside"], scale={"CONSOLE_WIDTH": 32, "CONSOLE_HEIGHT": 24}, bounds="any character at any place, " + "all 2^64 arguments")])

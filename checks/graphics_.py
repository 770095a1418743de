from specs import J, prop, SPECS
UF = ["--arrays-uf-always"]
SM = {"GRP_WIDTH": 16, "GRP_HEIGHT": 16, "VALUE_STACK_SIZE": 8}
def gr(name, entry, reach, unwind, defines=(), scale=None, small=True, **kw):
    kw.setdefault("timeout", 400)
    return J(name, "graphics.c", entry, unwind=unwind, fs=64, defines=list(defines), reach=reach, scale=dict(SM if small else {"VALUE_STACK_SIZE": 8}, **(scale or {})), **kw)
SB = "screen of 16 by 16, places given from its left/right and top/bottom edges (the code is the same for 256 by 192); any coordinates, any pixels"
ANY = "any screen, draw page, colour, draw mode and probe pixel, "
prop("C26", [gr("gpset", "h_gpset", ["outside", "bad colour", "drawn", "other"], 4, small=False, flags=UF, bounds="screen of 256 by 192; " + ANY + "all 2^64 places, with and without a colour argument of any value"),
             gr("gspoit", "h_gspoit", ["bad page", "outside", "probe"], 4, small=False, flags=UF, bounds="screen of 256 by 192; " + ANY + "all 2^64 places, with and without a page argument of any value")])
prop("C27", [gr("settings", "h_settings", ["bad", "set"], 4, small=False, flags=UF, bounds="GPAGE with 1 and 3 arguments, GCOLOR, GDRAWMD, GPRIO, all argument values in any state"),
             gr("gcls", "h_gcls", ["bad", "cleared"], 10, ["GCLS"], scale={"GRP_SIZE": 8}, small=False, solver="z3", bounds="pages of 8 pixels (the code is the same for 49152); any screen, draw page and colour argument")])
prop("C28", [gr("gfill", "h_gfill", ["bad colour", "inside", "outside"], 4, ["ONE_PAGE", "SX=2", "SY=2"], solver="z3", bounds=SB + ", parts on the screen of up to 2 by 2 pixels, both draw modes"),
             gr("gfill3", "h_gfill", ["bad colour", "inside", "outside"], 5, ["ONE_PAGE", "SX=3", "SY=1", "MODE=0"], solver="z3", bounds=SB + ", parts on the screen of up to 3 by 1 pixels"),
             gr("gbox", "h_gbox", ["bad colour", "off", "outline", "inverted"], 5, ["ONE_PAGE", "SX=3", "SY=3"], solver="z3", bounds=SB + ", parts on the screen of up to 3 by 3 pixels, both draw modes"),
             gr("gfill_pages", "h_gfill", ["bad colour", "inside", "outside"], 3, ["SX=1", "SY=1"], solver="z3", bounds=SB + ", one pixel, any screen and draw page")])
prop("C29", [gr("gline%d" % m, "h_gline", ["bad colour", "beyond", "dot", "drawn", "beside"], 4, ["ONE_PAGE", "SX=3", "MODE=%d" % m], flags=UF, bounds=SB + ", lines of up to 3 pixels, draw mode %d" % m) for m in (0, 1)] +
            [gr("gline4_%d" % m, "h_gline", ["bad colour", "beyond", "dot", "drawn", "beside"], 5, ["ONE_PAGE", "SX=4", "MODE=%d" % m], flags=UF, bounds=SB + ", lines of up to 4 pixels, draw mode %d" % m, tier="quick" if m == 0 else "thorough") for m in (0, 1)])
prop("C60", [gr("gcopy", "h_gcopy", ["copied", "kept"], 3, ["ONE_PAGE", "MODE=0", "SX=2", "SY=2"], flags=UF, bounds=SB + ", areas of up to 2 by 2 pixels, also overlapping"),
             gr("gcopy_pages", "h_gcopy", ["bad page", "copied", "kept"], 2, ["MODE=0", "SX=1", "SY=1"], flags=UF, bounds=SB + ", one pixel, any pages"),
             gr("gcopy3", "h_gcopy", ["copied", "kept"], 4, ["ONE_PAGE", "MODE=0", "SX=3", "SY=1"], flags=UF, tier="thorough", bounds=SB + ", areas of up to 3 by 1 pixels, also overlapping")])
def paint(w, h, right, tier="quick", **kw):
    n = w * h + 1
    uw = {"h_gpaint.%d" % i: n for i in range(9)}
    uw["cmd_gpaint.17"] = 2 * w * h + 1
    return gr("gpaint%d%d_%d" % (w, h, right), "h_gpaint", ["bad colour", "painted"], max(w, h) + 2, ["GPAINT", "ONE_PAGE", "MODE=0", "RW=%d" % w, "RH=%d" % h, "RIGHT=%d" % right],
              scale={"GRP_WIDTH": 8, "GRP_HEIGHT": 8, "PAINT_STACK_MAX": 16}, unwindset=uw, tier=tier, timeout=500 if tier == "quick" else 1500,
              bounds="region of %d by %d pixels of any colours in the %s corner of the page, any start in it, with and without a border colour" % (w, h, "bottom right" if right else "top left"), **kw)
prop("C30", [paint(2, 2, 0), paint(2, 2, 1), paint(3, 2, 0, "thorough"), paint(2, 3, 1, "thorough")])
def chrj(res, size, cw, ch, mode, tier="quick"):
    return gr("gputchr_%s_%d_%d" % (res, size, mode), "h_gputchr", ["range", "drawn", "kept"], 5, ["GPUTCHR", "RES=\"%s\"" % res, "SIZE=%d" % size, "ONE_PAGE", "MODE=%d" % mode],
              scale={"CHR_WIDTH": cw, "CHR_HEIGHT": ch}, unwindset={"str_copy_buf.0": 7}, solver="z3", tier=tier,
              bounds=SB + "; characters of %d by %d pixels (of 8 by 8) of any contents from %s at %d times the size, all 2^64 character and palette numbers, draw mode %d" % (cw, ch, res, size, mode))
prop("C31", [chrj("SPU0U", 1, 4, 2, 0), chrj("BGF1L", 1, 4, 1, 1), chrj("BGU2U", 2, 2, 1, 0), chrj("SPS1L", 2, 2, 1, 1), chrj("BGD0U", 1, 2, 2, 0)])

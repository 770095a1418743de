from specs import J, prop, SPECS, FLOW_SCALE
def run(name, entry, prog, unwind=60, defines=(), bounds="", **kw):
    return J(name, "flow.c", entry, unwind=unwind, fs=200, scale=FLOW_SCALE, defines=list(defines), prog=prog + "\n", reach=["end"], bounds=bounds, timeout=300, mem=6, **kw)
def step(name, entry, reach, stubs=(), defines=(), bounds="", **kw):
    return J(name, "flow_step.c", entry, unwind=10, fs=64, scale=FLOW_SCALE, defines=list(defines), reach=reach, stubs=list(stubs), bounds=bounds, timeout=200, **kw)
FOR1 = "FOR I=0.5 TO 0.5 STEP 0.5\nS=S+I\n%s\nA=0"
FOR2 = "FOR I=0.5 TO 0.5 STEP 0.5\nFOR J=0.5 TO 0.5 STEP 0.5\nS=S+1\n%s\n%s\nA=0"
LOOPB = "all starts and ends up to +-65535, all steps up to +-4095 with fractions, %s rounds"
prop("C17",
     [run("for%d" % n, "h_for", FOR1 % ("NEXT" if n % 2 else "NEXT I"), defines=["N=%d" % n], bounds=LOOPB % n, **({"tier": "thorough"} if n == 4 else {})) for n in (0, 1, 2, 4)] +
     [run("for3_vars", "h_for", "FOR I=0.5 TO B STEP C:S=S+I:NEXT I\nI=I", defines=["N=3", "VARS"], bounds="end and step in variables; " + LOOPB % 3),
      run("for2_nostep", "h_for", "FOR I=0.5 TO 0.5:S=S+I:NEXT\nA=0", defines=["N=2", "NOSTEP"], bounds="no STEP, 2 rounds")] +
     [run("nest%d_%d" % (a, b), "h_nest", FOR2 % (x, y), defines=["N1=%d" % a, "N2=%d" % b], unwind=80, bounds="two loops, %d rounds of %d rounds each, all starts, ends and steps" % (a, b), **kw)
      for a, b, x, y, kw in ((2, 0, "NEXT", "NEXT", {}), (2, 1, "NEXT", "NEXT", {}), (1, 2, "NEXT J", "NEXT I", {}), (2, 2, "NEXT J", "NEXT I", {"tier": "thorough"}),
                             (3, 2, "NEXT", "NEXT I", {"tier": "thorough"}))] +
     [run("outer2", "h_next_outer", "FOR I=0.5 TO 0.5 STEP 0.5\nFOR J=0.5 TO 0.5 STEP 0.5\nS=S+1\nNEXT I\nA=0", defines=["N1=2", "N2=2"], bounds="NEXT of the outer loop while the inner one is active, 2 rounds")] +
     [step("next%d" % d, "h_next", (["without", "overflow", "left", "again"] if d else ["without"]), stubs=["run"], defines=["D=%d" % d],
           bounds="NEXT, NEXT I, NEXT J with any %d active loops and subroutines, all values of variable, end and step" % d) for d in (0, 1, 3, 7)])
prop("C18",
     [run("sub%d" % n, "h_sub", "FOR I=0.5 TO 0.5 STEP 0.5\nGOSUB @X\nS=S*8+2\nNEXT I\nEND\n@X\nS=S*8+1\nFOR J=1 TO 5\nRETURN", unwind=80, defines=["N1=%d" % n],
          bounds="subroutine that leaves an open loop, called in a loop of %d rounds with all bounds" % n) for n in (1, 2)] +
     [run("order%d" % i, "h_order", t, unwind=80, defines=["ORDER=" + o], bounds="fixed program, any value of the variable")
      for i, (t, o) in enumerate((("GOTO @B\n@A:S=S*8+1\nGOSUB @C\nS=S*8+3\nEND\n@B\nS=S*8+2\nGOTO @A\n@C:S=S*8+4\nRETURN", "2143"),
                                  ("GOSUB @A:S=S*8+1:GOSUB \"@B\":S=S*8+2\nEND\n@A\nGOSUB @B\nS=S*8+3:RETURN\n@B\nS=S*8+4\nRETURN", "431" + "42"),
                                  ("GOTO \"@AB\"\n@A:S=S*8+1\n@AB:S=S*8+2\nON 1 GOTO @A,@C,@AB\n@C:S=S*8+3", "23"),
                                  ("ON 0 GOSUB @X,@Y:S=S*8+1:ON 1 GOSUB @X,@Y:S=S*8+2:ON 2 GOSUB @X,@Y\nEND\n@X:S=S*8+3:RETURN\n@Y:S=S*8+4:RETURN", "3142")))] +
     [step("return", "h_return", ["without", "returned"], bounds="RETURN with any stack of up to 7 active loops and subroutines"),
      step("on_goto", "h_on", ["outside", "jumped"], stubs=["search_label"], bounds="ON n GOTO with 2 labels, all 2^32 n, any call depth up to the limit"),
      step("on_gosub", "h_on", ["outside", "jumped", "deep"], stubs=["search_label"], defines=["SUB=1", "NVAR"], bounds="ON n GOSUB with 2 labels, all 2^32 n in a variable, any call depth up to the limit"),
      step("goto", "h_goto", ["jumped"], stubs=["search_label"], bounds="any call depth up to the limit"),
      step("gosub", "h_goto", ["jumped", "deep"], stubs=["search_label"], defines=["SUB=1"], bounds="any call depth up to the limit")])
IFS = [ # program, [(decisions, result, true targets, false targets)], conditions
  ("IF A THEN S=1:S=S+2 ELSE S=5:S=S+6\nS=S+20", [("1", 23, "NEXT_", "0"), ("0", 31, "0", "ELSE_(0)")], "a"),
  ("IF A>B THEN S=1\nS=S+20", [("1", 21, "NEXT_", "0"), ("0", 20, "0", "ENDIF_(0)")], "a>b"),
  ("IF A<B GOTO @X ELSE @Y\nS=5\n@X\nS=S+2\n@Y\nS=S+3", [("1", 5, "NEXT_", "0"), ("0", 3, "0", "L(1)")], "a<b"),
  ("IF A==B THEN @X\nS=5\n@X\nS=S+2", [("1", 2, "L(0)", "0"), ("0", 7, "0", "ENDIF_(0)")], "a==b"),
  ("IF A THEN S=1 ELSE IF B THEN S=2 ELSE S=3\nS=S+20", [("1", 21, "NEXT_", "0"), ("01", 22, "0,NEXT_", "ELSE_(0),0"), ("00", 23, "0,0", "ELSE_(0),ELSE_(1)")], "a,b"),
  ("IF A>=B THEN IF A!=B THEN S=1\nS=S+20", [("0", 20, "0", "ENDIF_(0)"), ("10", 20, "NEXT_,0", "0,ENDIF_(0)"), ("11", 21, "NEXT_,NEXT_", "0,0")], "a>=b,a!=b"),
  ("IF !A THEN GOSUB @X ELSE GOSUB @Y\nEND\n@X:S=1:RETURN\n@Y:S=2:RETURN", [("1", 1, "NEXT_", "0"), ("0", 2, "0", "ELSE_(0)")], "a==0"),
]
prop("C19", [run("if%d_%s" % (i, d), "h_if", t, defines=["TAKEN=\"%s\"" % d, "RESULT=%d" % r, "COND={%s}" % c, "TRUE_TO={%s}" % tt, "FALSE_TO={%s}" % ft],
                 bounds="all 2^64 values of A and B for which the conditions (%s) are %s" % (c, d)) for i, (t, ds, c) in enumerate(IFS) for d, r, tt, ft in ds])

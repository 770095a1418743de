import random
from specs import J, prop, SPECS, FLOW_SCALE
BIN = {"+": ("ADD", 4), "-": ("SUB", 4), "*": ("MUL", 5), "/": ("DIV", 5), "%": ("MOD", 5), "AND": ("AND", 2), "OR": ("OR", 2), "XOR": ("XOR", 2),
       "==": ("EQ", 3), "!=": ("NE", 3), "<": ("LT", 3), ">": ("GT", 3), "<=": ("LE", 3), ">=": ("GE", 3)}
UN = {"-": "NEG", "NOT ": "NOT", "!": "LNOT"}
class Gen:
    """Random expression text without knowing its tree; ref() parses it by the stated precedence."""
    def __init__(self, rnd): self.r = rnd; self.n = 0
    def atom(self, depth):
        k = self.r.random()
        if depth and k < .18: t, c = self.chain(depth - 1, 1 + self.r.randrange(2)); return "(" + t + ")", c
        if depth and k < .24: t, c = self.chain(depth - 1, 1); return "ABS(" + t + ")", "ABS(%s)" % c
        if k < .38: return self.r.choice((("X", "X"), ("Y", "Y")))
        if k < .44: return self.r.choice((("&H3", "12288"), ("&B10", "8192"), ("7", "28672"), ("TRUE", "4096")))
        self.n += 1
        return "0.5", "V(%d)" % (self.n - 1)
    def unary(self, depth):
        u = []
        while self.r.random() < .22 and len(u) < 2: u.append(self.r.choice(list(UN)))
        t, c = self.atom(depth)
        for x in reversed(u): t, c = x + t, "%s(%s)" % (UN[x], c)
        return t, c
    def chain(self, depth, nops, ops=None):
        ops = ops or [self.r.choice(list(BIN)) for _ in range(nops)]
        # division and products of more than two factors only where the reference stays cheap
        items = [self.unary(depth) for _ in range(len(ops) + 1)]
        t = items[0][0]
        for o, i in zip(ops, items[1:]): t += (" %s " % o if o.isalpha() else o) + i[0]
        # precedence climbing over the flat list: * / %, + -, comparisons, AND OR XOR; left to right within a level
        cs = [i[1] for i in items]; os_ = list(ops)
        for lvl in (5, 4, 3, 2):
            k = 0
            while k < len(os_):
                if BIN[os_[k]][1] == lvl:
                    cs[k:k + 2] = ["%s(%s,%s)" % (BIN[os_[k]][0], cs[k], cs[k + 1])]; del os_[k]
                else: k += 1
        return t, cs[0]
def programs(n, seed):
    r = random.Random(seed); todo = [(a, b) for a in BIN for b in BIN]; r.shuffle(todo)
    for p in range(n):
        g = Gen(r); lines, refs = [], []
        for k in range(4):
            ops = []
            for _ in range(2):
                if not todo: break
                a, b = todo.pop()
                ops += [a, b]
            t, c = g.chain(1, 0, ops[:4] or ["+"])
            lines.append("ABCD"[k] + "=" + t); refs.append(c)
        yield "\n".join(lines), refs, g.n
prop("C16", [J("expr%d" % i, "expr.c", "h_expr", unwind=60, fs=260, scale=FLOW_SCALE, nvars=8, prog=t + "\n", timeout=300, mem=6, reach=["end"],
               defines=["NLIT=%d" % n] + ["REF%d=%s" % (k, c) for k, c in enumerate(refs)],
               bounds="operands -3 to 4: " + t.replace("\n", " : "), tier="quick" if i < 7 else "thorough") for i, (t, refs, n) in enumerate(programs(12, 5))])

"""Loader and pretty-printer for the MIR dump written by the vdriver rustc driver."""
import json, re


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.adts = d["adts"]
        self.impls = d["impls"]
        self.auto, self.futures, self.unsafe = d["auto"], d["futures"], d["unsafe"]
        self.bodies = {}
        for b in d["bodies"]:
            self.bodies[b["id"]] = b

    # ---- types
    def tstr(self, i, depth=0):
        if i is None:
            return "?"
        t = self.types[i]
        k = t[0]
        if depth > 6:
            return "…"
        r = lambda j: self.tstr(j, depth + 1)
        if k in ("bool", "char", "str", "never"):
            return k
        if k in ("int", "float"):
            return t[1]
        if k == "ref":
            return "&" + ("mut " if t[2] else "") + r(t[1])
        if k == "ptr":
            return "*" + ("mut " if t[2] else "const ") + r(t[1])
        if k == "slice":
            return "[%s]" % r(t[1])
        if k == "array":
            return "[%s; %s]" % (r(t[1]), t[2])
        if k == "tuple":
            return "(%s)" % ", ".join(map(r, t[1]))
        if k == "adt":
            return t[1] + ("<%s>" % ", ".join(map(r, t[2])) if t[2] else "")
        if k == "param":
            return t[2]
        if k == "fndef":
            return "fn:" + t[1]["path"]
        if k in ("closure", "coroutine"):
            return k + ":" + t[1]
        if k == "dyn":
            return "dyn " + "+".join(t[1])
        return str(t[1]) if len(t) > 1 else k

    def pp_place(self, p):
        s = "_%d" % p[0]
        for e in p[1]:
            if e[0] == "*":
                s = "(*%s)" % s
            elif e[0] == "f":
                s = "%s.%d" % (s, e[1])
            elif e[0] == "i":
                s = "%s[_%d]" % (s, e[1])
            elif e[0] == "dc":
                s = "(%s as v%d)" % (s, e[1])
            else:
                s = "%s.%s" % (s, e)
        return s

    def pp_const(self, c):
        k = c["k"]
        if k == "fn":
            f = c["v"]
            r = f["res"]
            return f["path"] + ("{%s}" % r["path"] if r and r["path"] != f["path"] else "") + (
                "<%s>" % ",".join(self.tstr(a) for a in f["args"]) if f["args"] else "")
        if k in ("str", "bytes"):
            return repr(bytes(c["v"]))
        if k == "ref":
            return "&" + self.pp_const(c["v"])
        if k == "agg":
            return "%s#%d(%s)" % (self.tstr(c["t"]), c["var"], ", ".join(map(self.pp_const, c["v"])))
        return "%s%s_%s" % (("%s=" % c["n"]) if "n" in c else "", c.get("v", k), self.tstr(c["t"]))

    def pp_op(self, o):
        if o[0] in ("cp", "mv"):
            return ("move " if o[0] == "mv" else "") + self.pp_place(o[1])
        if o[0] == "c":
            return self.pp_const(o[1])
        return "?"

    def pp_rv(self, r):
        k = r[0]
        if k == "use":
            return self.pp_op(r[1])
        if k == "ref":
            return "&%s%s" % ("mut " if r[2] else "", self.pp_place(r[1]))
        if k == "bin":
            return "%s(%s, %s)" % (r[1], self.pp_op(r[2]), self.pp_op(r[3]))
        if k == "un":
            return "%s(%s)" % (r[1], self.pp_op(r[2]))
        if k == "cast":
            return "%s as %s (%s)" % (self.pp_op(r[2]), self.tstr(r[3]), r[1])
        if k == "disc":
            return "disc(%s)" % self.pp_place(r[1])
        if k == "agg":
            return "%s %s(%s)" % (r[1], r[2][0:2] if r[1] == "adt" else r[2], ", ".join(map(self.pp_op, r[3])))
        if k == "rep":
            return "[%s; %s]" % (self.pp_op(r[1]), r[2])
        return str(r)

    def pp(self, b, cleanup=False):
        out = ["fn %s  [%s] argc=%d %s" % (b["id"], b["path"], b["argc"], b["span"])]
        for i, (t, n) in enumerate(b["locals"]):
            out.append("  let _%d: %s // %s" % (i, self.tstr(t), n))
        for i, bb in enumerate(b["blocks"]):
            if bb["c"] and not cleanup:
                continue
            out.append("  bb%d:" % i)
            for s in bb["s"]:
                if s[0] == "=":
                    out.append("    %s = %s" % (self.pp_place(s[1]), self.pp_rv(s[2])))
                elif s[0] not in ("sl", "sd"):
                    out.append("    %s" % s)
            t = bb["t"]
            if t[0] == "call":
                out.append("    %s = call %s(%s) -> bb%s" % (self.pp_place(t[3]), self.pp_op(t[1]), ", ".join(map(self.pp_op, t[2])), t[4]))
            elif t[0] == "switch":
                out.append("    switch %s %s else %s" % (self.pp_op(t[1]), t[2], t[3]))
            elif t[0] == "drop":
                out.append("    drop %s -> bb%d" % (self.pp_place(t[1]), t[2]))
            elif t[0] == "assert":
                out.append("    assert %s == %s (%s) -> bb%d" % (self.pp_op(t[1]), t[2], t[3], t[5]))
            else:
                out.append("    %s" % t)
        return "\n".join(out)


if __name__ == "__main__":
    import sys
    P = Program(sys.argv[1])
    for i, b in P.bodies.items():
        if len(sys.argv) < 3:
            print(i, "|", b["path"], b["pub"], b["reach"])
        elif re.search(sys.argv[2], i):
            print(P.pp(b))

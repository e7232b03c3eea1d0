"""Bodies in a form independent of type numbering and line numbers, for comparing two configurations."""

def norm_body(p, f, ren=lambda s: s):
    T = lambda i: ren(p.types[i]["s"]) if i is not None else None
    def place(x):
        out = []
        for e in x[1]:
            if e[0] == "f": out.append(("f", e[1]))
            else: out.append(tuple(e))
        return (x[0], tuple(out))
    def cval(v):
        if isinstance(v, dict):
            if "fn" in v or "closure" in v or "zst" in v: return "fn"
            if "t" in v and "v" in v: return (T(v["t"]), cval(v["v"]))
            return tuple((k, cval(x)) for k, x in sorted(v.items()))
        if isinstance(v, list): return tuple(cval(x) for x in v)
        return v
    def op(o):
        if o[0] in ("c", "m"): return ("p", place(o[1]))
        if o[0] == "k":
            ty = T(o[1]["t"])
            if ty.endswith("RawNumberHint"): return ("k", "HINT")
            return ("k", ty, cval(o[1]["v"]))
        return tuple(o[:1])
    def rv(r):
        k = r[0]
        if k == "use": return (k, op(r[1]))
        if k == "rep": return (k, op(r[1]), r[2])
        if k == "ref": return (k, r[1], place(r[2]))
        if k == "cast": return (k, r[1], op(r[2]), T(r[3]), T(r[4]))
        if k == "bin": return (k, r[1], op(r[2]), op(r[3]), T(r[4]))
        if k == "un": return (k, r[1], op(r[2]), T(r[3]))
        if k == "discr": return (k, place(r[1]), T(r[2]))
        if k == "agg": return (k, r[1], T(r[2]), r[3], tuple(op(o) for o in r[4]))
        return (k, str(r[1:]))
    def callee(c):
        if c.get("kind") == "indirect": return ("indirect", op(c["op"]))
        return (ren(c["full"]), ren(c.get("rpath") or ""), tuple(T(a) for a in c.get("rargs", [])))
    out = [tuple(T(x) for x in f["locals"]), f["n_args"]]
    for b in f["bbs"]:
        if not b: out.append(None); continue
        st = []
        for s in b[0]:
            if s[0] == "=": st.append(("=", place(s[1]), rv(s[2])))
            elif s[0] == "sd": st.append(("sd", place(s[1]), s[2]))
            elif s[0] == "assume": st.append(("assume", op(s[1])))
            elif s[0] == "dead": pass
            else: st.append(tuple(s[:1]))
        t = b[1]; k = t[0]
        if k == "switch": tt = (k, op(t[1]), T(t[2]), tuple(tuple(x) for x in t[3]), t[4])
        elif k == "drop": tt = (k, place(t[1]), t[2], T(t[3]))
        elif k == "assert": tt = (k, op(t[1]), t[2], t[4])
        elif k == "call": tt = (k, callee(t[1]), tuple(op(a) for a in t[2]), place(t[3]), t[4])
        else: tt = tuple(t) if k in ("goto", "ret", "unreachable") else (k,)
        out.append((tuple(st), tt))
    return tuple(out)

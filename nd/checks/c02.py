"""C02: Display and write_to produce the same text."""
from .. import ir, lib, render
from ..dom import *
from ..report import Report

def judge(rep, p, name, R, rule, errors=False):
    """Outcomes of one renderer against the grammar of the text of a document."""
    n = 0
    for what, I, outs in R.run():
        n += 1
        rep.count("renderer functions analysed")
        rep.count("pieces of text and recursive calls followed", I.monitor.count)
        if I.failed or not outs:
            rep.undecided(rule, "%s %s: %s" % (name, what, I.failed)); continue
        for st, v in outs:
            rep.count("outcomes analysed")
            if st.taint:
                rep.undecided(rule, "%s %s: %s" % (name, what, ", ".join(sorted(st.taint)))); continue
            r = I.monitor.finish(st)
            ok = I.variant(v) if v[0] == "adt" else None
            if r == "err":
                if ok == "Ok":
                    rep.bad("errors", "%s %s" % (name, what), "%s: %s reports success although the output has failed" % (name, what))
                elif ok == "Err":
                    same = v[3] and v[3][0][:2] == ("obj", "ioerr") or name == "display"
                    lib.verdict(rep, "errors", True if same else None, "%s %s" % (name, what), "", "%s %s returns the error" % (name, what))
                else:
                    rep.undecided("errors", "%s %s" % (name, what))
                continue
            if r is None:
                if ok == "Ok":
                    rep.ok(rule, "%s %s writes exactly the text due" % (name, what))
                elif ok == "Err":
                    rep.bad("errors", "%s %s/spurious" % (name, what), "%s: %s reports an error without any" % (name, what))
                else:
                    rep.undecided(rule, "%s %s" % (name, what))
                continue
            key, w = "%s %s %s" % (name, what, r[1]), r[1]
            if r[0] == "?":
                rep.undecided(rule, key)
            elif w.startswith("goes on"):
                rep.bad("errors", key, "%s: %s %s" % (name, what, w))
            else:
                rep.bad(rule, key, "%s: %s %s" % (name, what, w))
    return n

def tables(rep, p, Rs):
    """The two renderers quote alike: the same bytes are escaped, in the same way."""
    T = {}
    for name, R in Rs.items():
        for q in R.quoting:
            e = T.setdefault(q[0], {}).setdefault(name, {"raw": (), "esc": {}})
            if q[1] == "raw":
                e["raw"] = rs_union(e["raw"], q[2])
            else:
                for b in rs_iter(q[1]):
                    e["esc"].setdefault(b, set()).add(q[2] if q[2] != "\\xHH" else "\\x%02x" % b)
    for q, d in sorted(T.items()):
        for name, e in sorted(d.items()):
            rep.count("bytes with an escape", len(e["esc"]))
            both = [b for b in e["esc"] if rs_has(e["raw"], b)]
            lib.verdict(rep, "quoting", None if both else True, "%s %s" % (name, q.decode()), "", "%s: what is escaped between %s is never copied" % (name, q.decode()))
            two = [b for b, s in e["esc"].items() if len(s) > 1]
            if two:
                rep.undecided("quoting", "%s %s: several escapes for one byte" % (name, q.decode()))
        if len(d) == 2:
            a, b = d["display"], d["write_to"]
            clear = not any(rs_has(x["raw"], i) for x in (a, b) for i in x["esc"])
            diff = sorted(i for i in set(a["esc"]) | set(b["esc"]) if a["esc"].get(i) != b["esc"].get(i))
            lib.verdict(rep, "quoting", True if not diff else False if clear else None, "tables %s" % q.decode(),
                "byte 0x%02x between %s is written as %s by one renderer and as %s by the other" % (diff[0], q.decode(), a["esc"].get(diff[0]), b["esc"].get(diff[0])) if diff else "", "the renderers escape alike between %s" % q.decode())
    return T

def run():
    rep = Report("C02", "other", "abstract interpretation with an output typestate",
        "Both renderers, from Document's Display and Document::write_to down, are interpreted on a generic document and a generic node of every kind with any number of entries. Each piece of text that is emitted must be the one that a common "
        "grammar of the text of a node expects next (text in front, delimiters, keys, entries in order, separators, suffix, nothing for empty values); the automaton of the grammar travels with the abstract state through loops, and the recursive renderer is "
        "replaced by the contract that is verified for it in turn. Quoted text may be copied or escaped; the bytes copied and the escapes written are collected for each renderer and compared.",
        ["content is valid UTF-8 (Display replaces other bytes)", "the output accepts every write (C03 covers failures)"])
    p = ir.load("all")
    rs = render.renderers(p)
    rep.floor("anchors", "renderers of a document", len(rs), 2)
    Rs = {}
    for name, root in sorted(rs.items()):
        Rs[name] = R = render.Rendering(p, root)
        n = judge(rep, p, name, R, "grammar")
        if n < 2:
            rep.undecided("grammar", name + ": no recursive renderer found")
    tables(rep, p, Rs)
    return rep

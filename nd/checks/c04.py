"""C04: quoted strings are read back as the string that was written."""
from .. import ir, lib, render, quotes
from ..dom import *
from ..report import Report
from .c02 import tables

NAMES = {b"'": "single", b'"': "double"}

def fits(masks, text):
    """May bytes read under these masks be the beginning of `text` and what follows it?"""
    return all(i >= len(text) or m is not None and rs_has(m, text[i]) for i, m in enumerate(masks))

def has(mask, b):
    return mask is not None and rs_has(mask, b)

def known(mask):
    return mask not in (None, FULL8)

def symbol(q, text, byte, quote, after=None):
    """What the reader may do at `text`, written for `byte` (and followed by `after`): (right, wrong, unknown) descriptions and the bytes that may follow."""
    whole = text if after is None else text + bytes([after])
    right, wrong, unknown, look = [], [], [], ()
    slow = any(e[0] == "end" and e[1] == "buffer" for e in q.ends)
    fast_cover, fast_next = (), ()
    for t in q.tokens:
        if t[0] == "copy":
            if t[3]:
                if t[1] is None:
                    unknown.append("the text copied first"); continue
                fast_cover = rs_union(fast_cover, t[1]); fast_next = rs_union(fast_next, t[2])
            elif t[1] is None:
                unknown.append("text copied")
            elif has(t[1], text[0]):
                if len(text) == 1 and text[0] == byte:
                    right.append("copied"); look = FULL8
                else:
                    (wrong if known(t[1]) else unknown).append("copied as it is")
            continue
        masks, push = t[1], t[3]
        if not masks or not fits(masks, whole) or after is not None and len(masks) == len(text) and not rs_has(t[2], after):
            continue
        if len(masks) > len(text):
            (wrong if all(known(m) for m in masks[len(text):]) else unknown).append("read together with what follows"); continue
        got = quotes.pushed(push, text)
        if got is None:
            unknown.append("decoded in an unknown way")
        elif len(masks) == len(text) and got == bytes([byte]):
            right.append("read"); look = rs_union(look, t[2])
        else:
            wrong.append("read as %s" % got.decode("latin-1").encode("unicode_escape").decode() if len(masks) == len(text) else "broken up after %d bytes" % len(masks))
    for s in q.skips:
        if s[1] is None:
            unknown.append("skipped")
        elif has(s[1], text[0]):
            (wrong if known(s[1]) else unknown).append("skipped")
            if s[2] and known(s[1]):
                right = []
    for ms in q.errors:
        if fits(ms, whole):
            (wrong if ms and any(i < len(text) for i in range(len(ms))) and all(known(m) for m in ms[:len(text)]) else unknown).append("rejected")
    for e in q.ends:
        if e[0] != "end":
            continue
        if e[1] == "odd":
            unknown.append("an end of unknown content"); continue
        if has(e[2], text[0]) and not (text[0] == quote and len(whole) > 1 and not rs_has(e[4], whole[1])):
            (wrong if known(e[2]) else unknown).append("taken for the end")
        if e[1] == "piece":
            if e[3] is None:
                unknown.append("the text of a string without escapes")
            else:
                fast_cover = rs_union(fast_cover, e[3])
    if len(text) == 1 and text[0] == byte:
        if not slow:
            right, look = [], ()
            if rs_has(fast_cover, byte):
                right, look = ["copied"], FULL8
        elif fast_cover and not rs_has(fast_cover, byte) and not rs_has(fast_next, byte):
            unknown.append("not copied first")
    elif rs_has(fast_cover, text[0]):
        (wrong if known(fast_cover) else unknown).append("copied as it is before the first escape")
        if known(fast_cover):
            right = []
    return right, wrong, unknown, look

def run():
    side = Report("C04", "other", "", "", [])       # agreement of the renderers as such is C02
    rep = Report("C04", "other", "abstract interpretation: writer table against reader table",
        "Both renderers are interpreted as for C02, which yields which bytes each of them copies and which escape it writes for the others between quotes. The reader of quoted text is interpreted on a symbolic input that starts with that quote: a "
        "ghost marks where the current token starts and is set anew at each loop head at which the decoded text has grown, so that every path between two such moments gives one token, that is sets of bytes read, the set of bytes that may follow, and an "
        "expression for what is added to the decoded text; the ways in which reading ends or fails are collected as well. For each byte copied by a writer and for each escape it writes, the tokens, ends and errors that fit that text must all be the one token "
        "that gives the byte back, whatever follows; and the closing quote followed by anything but a quote must end the text. By induction over the written text the decoded string is the string.",
        ["what follows a closing single quote is not a single quote (true of every text the writers emit after a value)"])
    p = ir.load("all")
    roots = render.renderers(p)
    rep.floor("anchors", "renderers of a document", len(roots), 2)
    Rs = {}
    for name, root in sorted(roots.items()):
        Rs[name] = R = render.Rendering(p, root)
        for what, I, outs in R.run():
            if I.failed or not outs or any(st.taint for st, v in outs):
                rep.undecided("writer", "%s %s: %s" % (name, what, I.failed))
    T = tables(side, p, Rs)
    for q in (b"'", b'"'):
        if q not in T or len(T[q]) != 2:
            rep.undecided("writer", "no writer of %s text found in both renderers" % NAMES[q]); continue
        Q, why = quotes.table(p, q[0])
        if why or Q is None or Q.odd or not Q.ends:
            rep.undecided("reader", "%s: %s" % (NAMES[q], why or (sorted(set(Q.odd))[0] if Q.odd else "no end"))); continue
        rep.count("tokens of the reader", len(Q.tokens)); rep.count("ends and errors of the reader", len(Q.ends) + len(Q.errors))
        for name, e in sorted(T[q].items()):
            firsts = rs_union(e["raw"], rs(*{ord(x[0]) for t in e["esc"].values() for x in t if x}, q[0]))
            todo = [(b, bytes([b])) for b in rs_iter(e["raw"])] + [(b, x.encode('latin-1')) for b, t in sorted(e["esc"].items()) for x in sorted(t)]
            for b, text in todo:
                right, wrong, unknown, look = symbol(Q, text, b, q[0])
                key = "%s/%s byte 0x%02x written as %s" % (NAMES[q], name, b, text.decode("latin-1").encode("unicode_escape").decode())
                rep.count("texts of one byte followed through the reader")
                ok = True if right and not wrong and not unknown and rs_subset(firsts, look) else False if wrong and not right and not unknown else None
                if ok is None and right:
                    # does it depend on the byte that follows?
                    for f in rs_iter(firsts):
                        r, w, u, _ = symbol(Q, text, b, q[0], f)
                        if w and not r and not u:
                            ok, wrong = False, [x + " when 0x%02x follows" % f for x in w]
                            break
                        if w or u or not r:
                            break
                    else:
                        ok = True
                lib.verdict(rep, "byte", ok, key, "between %s quotes byte 0x%02x, written as `%s` (%s), is %s by the reader" % (NAMES[q], b, text.decode("latin-1").encode("unicode_escape").decode(), name, ", ".join(sorted(set(wrong)))),
                    "read back as the byte" if ok else "%s | %s | %s" % (right, wrong, unknown))
            # bytes that are neither copied nor escaped
            lost = [b for b in range(256) if not rs_has(e["raw"], b) and b not in e["esc"]]
            lib.verdict(rep, "writer", True if not lost else None, "%s/%s all bytes" % (NAMES[q], name), "", "every byte is copied or escaped")
        # the closing quote
        after = rs_minus(FULL8, rs(q[0])) if q == b"'" else FULL8
        right, wrong, unknown = (), [], []
        for e in Q.ends:
            if e[0] == "end" and rs_has(e[2], q[0]):
                right = rs_union(right, e[4])
                if e[1] == "buffer-skipping":
                    wrong.append("loses text before it")
        for t in Q.tokens:
            if t[0] == "copy":
                if has(t[1], q[0]):
                    (wrong if known(t[1]) else unknown).append("copied")
            elif t[1] and has(t[1][0], q[0]) and (len(t[1]) == 1 or rs_inter(t[1][1], after)):
                (wrong if known(t[1][0]) else unknown).append("read as text")
        for e in Q.ends:
            if e[0] == "end" and e[1] == "piece":
                if e[3] is None:
                    unknown.append("cover")
                elif has(e[3], q[0]):
                    (wrong if known(e[3]) else unknown).append("copied")
        ok = True if rs_subset(after, right) and not wrong and not unknown else False if wrong and not unknown else None
        lib.verdict(rep, "close", ok, NAMES[q], "the quote that closes a %s-quoted text is %s" % (NAMES[q], ", ".join(sorted(set(wrong)))), "closes the text: %s %s %s" % (right, wrong, unknown))
    return rep

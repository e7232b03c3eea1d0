"""C03: writing is byte-transparent and reports every output error."""
from .. import ir, lib, render
from ..dom import *
from ..report import Report
from . import c02

def run():
    rep = Report("C03", "other", "abstract interpretation with an output typestate and failing writes",
        "Both renderers are interpreted on a generic document and a generic node of every kind, and every write to the output may fail. After a failure nothing more may be written and the outcome must be an error; without one, the text written must be the "
        "stored text, complete and in order (the grammar of C02). In write_to no stored text may pass through a conversion that replaces bytes.", [])
    p = ir.load("all")
    rs = render.renderers(p)
    rep.floor("anchors", "renderers of a document", len(rs), 2)
    for name, root in sorted(rs.items()):
        R = render.Rendering(p, root, io_err=True)
        n = c02.judge(rep, p, name, R, "grammar")
        if n < 2:
            rep.undecided("grammar", name + ": no recursive renderer found")
        if name == "write_to":
            lossy = sorted({p.fns[k]["path"] if k in p.fns else str(k) for k in R.lossy()})
            for k in lossy:
                rep.bad("bytes", "lossy in " + "::".join(k.split("::")[-2:]), k + " writes stored text through a conversion that replaces bytes that are not UTF-8")
            if not lossy:
                rep.ok("bytes", "no conversion of stored text in write_to")
    return rep

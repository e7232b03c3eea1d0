"""C01: unmodified documents are written back byte for byte."""
from .. import ir, parsing, render
from ..report import Report
from . import c02

def run():
    rep = Report("C01", "other", "abstract interpretation of the parser and of both renderers against one grammar of the text of a node",
        "Parsing: the parser of one value is interpreted on a symbolic input at any position, nested values being replaced by a contract that the same run establishes; every text it stores is a piece of the input, and the pieces of a node, in the order of the grammar, must lie end to end from the "
        "start of its prefix to the end of what it consumed. The function around it must cover the whole input. Writing: both renderers are interpreted and every piece they emit must be what the grammar says for that node.", [])
    parsing.analyse(rep, ("tile",))
    p = ir.load("all")
    for name, root in sorted(render.renderers(p).items()):
        c02.judge(rep, p, name, render.Rendering(p, root), "written")
    return rep

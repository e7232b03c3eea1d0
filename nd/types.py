"""Queries over the dumped types, items and call graph."""
import re

SHARED = re.compile(r"^(std|core|alloc)::(cell|sync|rc)::|^std::(thread|sync)::|::Atomic[A-Z]|^(parking_lot|once_cell|lazy_static|dashmap|arc_swap|crossbeam\w*)::")

def shared_mutability(p, ti, seen=None, path=""):
    """Paths inside a type to something that two owners or a shared reference could mutate."""
    seen = set() if seen is None else seen
    if ti in seen:
        return
    seen.add(ti)
    t = p.types[ti]
    k = t["k"]
    if k == "adt":
        pa = t["path"]
        if SHARED.search(pa):
            yield path + pa, pa
            return
        if pa.endswith("::RandomState"):
            return
        if "v" in t and not re.match(r"^(std|core|alloc)::(slice|vec|iter|str|array|collections|string|boxed|hash|io|fmt|num|ops|range)\b", pa):
            for v in t["v"]:
                for n, ft in v["f"]:
                    yield from shared_mutability(p, ft, seen, path + pa.split("::")[-1] + "." + n + ": ")
        if not t.get("local"):
            for a in t["args"]:
                yield from shared_mutability(p, a, seen, path + pa.split("::")[-1] + "<>: ")
    elif k in ("tuple", "closure"):
        for x in t["f"]:
            yield from shared_mutability(p, x, seen, path)
    elif k in ("slice", "array", "ref"):
        yield from shared_mutability(p, t["e"], seen, path)
    elif k == "ptr":
        yield path + t["s"], "raw pointer"
    elif k == "dyn":
        if t.get("path") not in ("std::error::Error", "core::error::Error"):
            yield path + t["s"], "trait object"
    elif k == "fnptr":
        pass

def local_adts(p):
    for it in p.items:
        if it["kind"] in ("Struct", "Enum", "Union") and "ty" in it:
            yield it

def short(path):
    return path.replace("nondestructive::", "")

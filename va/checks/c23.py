"""C23: the library is memory safe by construction."""
from api import *

RULE = "no unsafe block, unsafe function, unsafe impl, extern block or unsafe attribute anywhere in the crate's own code, as the compiler's resolved tree of the crate shows it"
TECHNIQUE = "exhaustive traversal of the compiler's high-level tree of the crate for unsafe constructs, code expanded from the crate's own macros included"


def obligations(P, tier):
    by = {}
    for owner, span, kind in P.unsafe:
        by.setdefault(owner, []).append((span, kind))

    def one(path):
        def go():
            if path in by:
                s, k = by[path][0]
                return R("refuted", "%s in %s (%s)" % (k, path, s), path)
            return R("proved", "", path, fns=[path])
        return go
    out = []
    seen = set()
    for b in P.bodies.values():
        if b["test"] or b["path"] in seen:
            continue
        seen.add(b["path"])
        out.append(("fn/%s" % b["id"], one(b["path"])))
    for o in sorted(by):
        if o not in seen:
            out.append(("item/%s" % o, one(o)))
    return out

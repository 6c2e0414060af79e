"""C21: fetching and decoding are separate, and the API is thread-safe."""
import re
from api import *

RULE = ("no function reachable in the call graph of the fetch API is a codec or a blocking call; none reachable from the decode API performs I/O or needs a runtime; "
        "the compiler's auto-trait solver proves the public types Send + Sync and the public futures Send")
TECHNIQUE = "effect analysis over the MIR call graph (calls, function values, closures, coroutines and every implementation of a dynamically dispatched trait), and auto-trait queries to the compiler"

BLOCK = (r"^std::fs::|^std::net::|^std::process::|^std::io::stdin|^std::io::Stdin|^std::thread::(sleep|park)|thread::.*JoinHandle.*::join$|^std::thread::scope|"
         r"\bblock_on$|::blocking_[a-z_]+$|\bblock_in_place$|^reqwest::blocking|sync::mpsc::.*recv|::Barrier::wait$|::Condvar::wait|thread_local_block_on|executor::block_on")
CODEC = r"^(flate2|zstd|zstd_safe|zstd_sys|jpeg_decoder|lerc|lerc_[a-z]+|webp|libwebp_sys|jpeg2k|openjp2|openjpeg_sys|weezl|lzma_rust2|image_webp|zune_[a-z]+)::"
IO = r"^(tokio|reqwest|object_store|hyper|futures_executor)::|^std::(fs|net|process)::|" + BLOCK
DECODES = r"(^|::)Decoder::decode_tile$"
READS = r"(^|::)(AsyncFileReader::get_(bytes|byte_ranges)|MetadataFetch::fetch|fetch_ranges)$"

FETCH = [r"ImageFileDirectory::fetch_tiles?$", r"TiffMetadataReader::", r"ImageFileDirectoryReader::", r"ReadaheadMetadataCache"]
DECODE = [r"(^|::)Tile::[a-z_0-9]+$", r"(^|::)Array::[a-z_0-9]+$", r"(^|::)TypedArray::[a-z_0-9]+$"]
TYPES = ["TIFF", "ImageFileDirectory", "Tile", "Array", "TypedArray", "DecoderRegistry", "TiffMetadataReader", "ImageFileDirectoryReader", "GeoKeyDirectory",
         "TagValue", "TokioReader", "ObjectReader", "ReqwestReader", "ReadaheadMetadataCache", "CompressedBytes", "Endianness", "AsyncTiffError"]
FUTURES = ["ImageFileDirectory::fetch_tile", "ImageFileDirectory::fetch_tiles", "TiffMetadataReader::try_open", "TiffMetadataReader::read_next_ifd",
           "TiffMetadataReader::read_all_ifds"]


class Graph:
    def __init__(self, P):
        self.P = P
        self.disp, self.foreign = {}, {}
        self.local_traits = {b["intrait"] for b in P.bodies.values() if b.get("intrait")}
        for im in P.impls:
            for n, i in im["m"]:
                self.disp.setdefault((im["trait"], n), []).append(i)
                t = P.types[im["self"]]
                if t[0] == "adt":
                    self.foreign.setdefault(t[1], []).append((im["trait"], i))
        self.memo = {}
        self.tmemo = {}

    def of_type(self, i, seen):
        """functions, closures and local types a type mentions"""
        if i in seen or i is None:
            return set()
        seen.add(i)
        t = self.P.types[i]
        out = set()
        if t[0] in ("closure", "coroutine"):
            out.add(("body", t[1]))
        if t[0] == "fndef":
            out |= self.of_fn(t[1])
        if t[0] == "adt" and t[1] in self.P.adts:
            out.add(("adt", t[1]))
        for x in t[1:]:
            for y in x if isinstance(x, list) else [x] if t[0] in ("ref", "ptr", "slice", "array") else []:
                if isinstance(y, int) and not isinstance(y, bool) and 0 <= y < len(self.P.types) and t[0] in ("tuple", "adt", "ref", "ptr", "slice", "array", "closure", "coroutine"):
                    out |= self.of_type(y, seen)
        return out

    def of_fn(self, v):
        r = v.get("res")
        if r and r.get("id") in self.P.bodies and r.get("k") != "virtual":
            return {("body", r["id"])}
        out = set()
        name = v["path"].split("::")[-1]
        for i in self.disp.get((v.get("trait"), name), ()):
            out.add(("body", i))
        if v["id"] in self.P.bodies:
            out.add(("body", v["id"]))
        out.add(("ext", v["path"]))
        if r and r.get("path"):
            out.add(("ext", r["path"]))
        return out

    def walk(self, x, out):
        if isinstance(x, dict):
            if x.get("k") == "fn":
                out |= self.of_fn(x["v"])
                return
            for y in x.values():
                self.walk(y, out)
        elif isinstance(x, list):
            if len(x) > 2 and x[0] == "agg" and x[1] in ("closure", "coroutine") and isinstance(x[2], (str, list)):
                out.add(("body", x[2] if isinstance(x[2], str) else x[2][0]))
            for y in x:
                if isinstance(y, (list, dict)):
                    self.walk(y, out)

    def edges(self, i):
        if i in self.memo:
            return self.memo[i]
        b = self.P.bodies[i]
        out = set()
        for bb in b["blocks"]:
            self.walk(bb["s"], out)
            self.walk(bb["t"], out)
        seen = set()
        for t, _ in b["locals"]:
            out |= self.of_type(t, seen)
        res = set()
        for k, v in out:
            if k == "adt":
                # code outside the crate may call the foreign traits of a value it is given; dropping it may run its Drop
                for tr, m in self.foreign.get(v, ()):
                    if re.match(r"^(std|core|alloc|tokio|futures|bytes)\b", tr or "") and not re.search(r"::(Debug|Display|Default|From|TryFrom|Clone|PartialEq|Eq|Hash|Ord|PartialOrd|Error)\b", tr):
                        res.add(("body", m))
            else:
                res.add((k, v))
        self.memo[i] = res
        return res

    def reach(self, roots):
        par = {("body", r): None for r in roots}
        todo = [("body", r) for r in roots]
        while todo:
            n = todo.pop()
            if n[0] != "body" or n[1] not in self.P.bodies:
                continue
            for m in sorted(self.edges(n[1])):
                if m not in par:
                    par[m] = n
                    todo.append(m)
        return par


def name(P, n):
    return P.bodies[n[1]]["path"] if n[0] == "body" and n[1] in P.bodies else n[1]


def path(P, par, n):
    out = []
    while n is not None:
        out.append(name(P, n))
        n = par[n]
    return " <- ".join(out[:6]) + (" <- ..." if len(out) > 6 else "")


def effects(P, g, root, bad, what):
    def go():
        par = g.reach([root])
        fns = [name(P, n) for n in par if n[0] == "body"]
        for n in sorted(par):
            s = name(P, n)
            b = P.bodies.get(n[1]) if n[0] == "body" else None
            names = [s] + (["%s::%s" % (b["itrait"].split("::")[-1], b["name"])] if b and b.get("itrait") else [])
            for x in names:
                if re.search(bad, x):
                    return R("refuted", "%s: %s" % (what, path(P, par, n)), P.bodies[root]["path"], fns=fns)
        return R("proved", "", P.bodies[root]["path"], fns=fns, n=len(par))
    return go


def auto(P, t):
    def go():
        hits = [(k, v) for k, v in P.auto.items() if k.split("::")[-1] == t]
        if not hits:
            return R("undetermined", "type %s not found" % t, t)
        for k, (send, sync, _) in hits:
            if not (send and sync):
                return R("refuted", "%s is not %s" % (k, "Send" if not send else "Sync"), k)
        return R("proved", "", hits[0][0], n=2)
    return go


def future(P, f, send):
    def go():
        return R("proved", "", f) if send else R("refuted", "the future of %s is not Send" % f, f)
    return go


def obligations(P, tier):
    g = Graph(P)
    out = []

    def roots(pats):
        rs = []
        for b in P.bodies.values():
            if b["kind"] != "Closure" and not b["test"] and any(re.search(p, b["path"]) for p in pats):
                rs.append(b)
        return rs
    fetch = roots(FETCH) + [b for b in P.bodies.values() if b["kind"] != "Closure" and not b["test"] and
                            (b.get("itrait") or b.get("intrait") or "").split("::")[-1] in ("AsyncFileReader", "MetadataFetch")]
    seen = set()
    for b in fetch:
        if b["id"] in seen:
            continue
        seen.add(b["id"])
        out.append(("fetch/%s" % b["id"], effects(P, g, b["id"], BLOCK + "|" + CODEC + "|" + DECODES, "reached while fetching")))
    for b in roots(DECODE):
        if b["id"] not in seen:
            seen.add(b["id"])
            out.append(("decode/%s" % b["id"], effects(P, g, b["id"], IO + "|" + READS, "reached while decoding")))
    for b in P.bodies.values():
        if b["name"] == "decode_tile" and b["kind"] != "Closure" and b["id"] not in seen and not b["test"]:
            out.append(("codec/%s" % b["id"], effects(P, g, b["id"], IO + "|" + READS, "reached while decoding")))
    for t in sorted(set(TYPES) | {k.split("::")[-1] for k, v in P.auto.items() if v[2]}):
        out.append(("send+sync/%s" % t, auto(P, t)))
    have = set()
    for f, send, pub in P.futures:
        if pub or any(f.endswith(x) for x in FUTURES):
            have |= {x for x in FUTURES if f.endswith(x)}
            out.append(("future/%s" % f, future(P, f, send)))
    for f in FUTURES:
        # not an async fn any more: its returned future is then a named type, decided by where it is awaited or boxed
        if f not in have and not any(b["path"].endswith(f) for b in P.bodies.values()):
            out.append(("future/%s" % f, (lambda f=f: R("undetermined", "%s not found" % f, f))))
    return out

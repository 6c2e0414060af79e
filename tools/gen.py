#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the table below.

A property is claimed when va/checks/<id>.py exists; one without a checker is
listed under not_applicable with its reason.
"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def p(id, title, statement, over, text, why, files, mech, state=(), na=None, technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why,
                  anchors={"files": files,
                           "state": [dict(name=n, meaning=m) for n, m in state],
                           "mechanism": [dict(name=n, where=w) for n, w in mech]},
                  _na=na, _tech=technique, _note=note))

GVG = ("static analysis: abstract interpretation of rustc MIR into a gated value graph (joins merged, loops "
       "summarised as recurrences), compared with the specification by normal form; a difference is reported "
       "at the construct that computes it")

p("C01", "Tag values decode to exactly what the file's bytes encode",
  "For every tag entry of a classic or BigTIFF file in either byte order, the value produced for the entry is exactly the sequence of scalars (or text) that its type, count and bytes encode: same length, same order, same signedness and width, whether the value sits inside the entry or behind an offset. An entry whose type is unknown, or whose bytes end before the declared count is satisfied, yields an error and never a shortened or invented value.",
  ["inputs"], "every tag type x count x inline/offset placement x byte order x classic/BigTIFF x file content",
  "The fixture files use a handful of types and counts, almost all little-endian classic TIFF; the value space of an entry is unbounded.",
  ["src/metadata/reader.rs", "src/tag_value.rs", "src/reader.rs"],
  [("tag value decoding", "src/metadata/reader.rs read_tag_value"), ("endian-aware cursor", "src/reader.rs EndianAwareReader")])

p("C02", "Opening a file follows its header and directory chain exactly",
  "Opening accepts exactly files that start with a valid byte-order mark and a classic or BigTIFF version header; the directories it returns are the ones reached by following the next-directory offsets from the header until a zero offset, in that order, with every entry of every directory read from its own position. A malformed header, a failed or short read, or a chain that returns to an earlier directory is an error.",
  ["inputs"], "every header and directory layout in either byte order, classic and BigTIFF, with any entry count and any chain of offsets",
  "Fixtures contain well-formed headers only, mostly little-endian classic, and never a cyclic or truncated chain.",
  ["src/metadata/reader.rs", "src/tiff.rs"],
  [("header parsing", "src/metadata/reader.rs TiffMetadataReader::try_open"), ("IFD iteration", "src/metadata/reader.rs read_next_ifd / ImageFileDirectoryReader::open")])

p("C03", "The declared byte order governs every multi-byte metadata value",
  "Every integer and floating-point number taken from the file's header, directories, entries and tag data is assembled in the byte order the file's first two bytes declare; no field is ever read in the host's order or in the other order.",
  ["inputs"], "every multi-byte metadata field of every file in either byte order",
  "Tests sample a few big-endian files whose values do not exercise every field and width.",
  ["src/reader.rs", "src/metadata/reader.rs"],
  [("endian-aware cursor", "src/reader.rs EndianAwareReader")])

p("C04", "Directory accessors report exactly the tags of the directory",
  "A directory built from a set of tags reports, through each accessor, exactly the value of the tag the TIFF specification assigns to that accessor; a tag that is absent reads as absent (or as the specification's documented default) and every tag without a dedicated accessor is kept with its value unchanged. A tag that is mandatory and missing, or whose value cannot represent the accessor's type, is an error and never another tag's value.",
  ["inputs"], "every subset of tags with every value of every tag type, in every iteration order of the tag map",
  "Tests look at a few accessors of a few files; swapping two rarely-set tags or defaulting one changes nothing they see.",
  ["src/ifd.rs", "src/tags.rs"],
  [("tag dispatch", "src/ifd.rs ImageFileDirectory::from_tags"), ("accessors", "src/ifd.rs ImageFileDirectory")])

p("C05", "Tag value conversions are exact or fail",
  "Converting a decoded tag value to a scalar, list or string returns exactly the stored numbers in the stored order when each is representable in the requested type, and an error when one is not or when the stored kind has no such conversion; a conversion never wraps, truncates, saturates, drops or reorders values.",
  ["inputs"], "every variant of tag value x every target type x every stored number and list length",
  "No test converts values near the limits of the integer types, signed values, or mixed lists.",
  ["src/tag_value.rs"], [("conversions", "src/tag_value.rs TagValue::into_*")])

p("C06", "Numeric codes and their named meanings correspond one to one as registered",
  "Every numeric code for a tag, field type, compression, photometric interpretation, predictor, planar configuration, resolution unit, sample format and geo key maps to the name the TIFF and GeoTIFF registries give it, and maps back to the same number; codes without a name are kept as themselves or rejected, never mapped to another name.",
  ["inputs"], "every 16-bit code of every enumeration, in both directions",
  "Tests touch only the codes that appear in fixtures.",
  ["src/tags.rs", "src/geo/geo_key_directory.rs"], [("code tables", "src/tags.rs tags! enums"), ("geo key codes", "src/geo/geo_key_directory.rs GeoKeyTag")])

p("C07", "Unsupported or unknown layout codes are errors, never wrong pixels",
  "A file that declares a predictor, planar configuration, compression, or combination of sample format and depth this library does not implement is reported as an error when the file is opened or the tile decoded; it is never decoded as if it had declared a supported one.",
  ["inputs"], "every value of the layout-determining tags",
  "Fixtures only declare supported layouts.",
  ["src/ifd.rs", "src/tile.rs", "src/predictor.rs", "src/decoder.rs"],
  [("directory validation", "src/ifd.rs from_tags"), ("decoder lookup", "src/tile.rs Tile::decode")])

p("C08", "GeoTIFF keys report exactly what the key directory stores",
  "Every GeoTIFF key in the key directory is reported by its own accessor with exactly the value the directory stores: inline for short keys, or the stated element(s) of the double or ASCII parameter arrays; keys absent from the directory read as absent, and the EPSG code is the projected code when present and otherwise the geographic one. A directory whose header, counts or offsets do not fit the parameter arrays is an error.",
  ["inputs"], "every key directory, double array and ASCII array",
  "Fixtures carry a dozen keys and never malformed offsets or counts.",
  ["src/geo/geo_key_directory.rs", "src/ifd.rs"],
  [("directory assembly", "src/ifd.rs from_tags"), ("key dispatch", "src/geo/geo_key_directory.rs from_tags")])

p("C09", "Each tile request reads exactly that tile's bytes",
  "For every tile position inside the image grid, in chunky and band-separate files alike, the byte ranges requested are exactly the ones the offset and byte-count tags give for that position (row-major, band after band); a position outside the grid, or one whose entry is missing, is an error and never some other tile's bytes.",
  ["inputs"], "every image and tile size, planar layout, band count, tile position and offset/byte-count table",
  "Tests fetch a few tiles of a few files; edge positions, non-square grids and planar files beyond the samples are not reached.",
  ["src/ifd.rs"], [("grid and index arithmetic", "src/ifd.rs tile_count / tile_byte_range / fetch_tile")])

p("C10", "Batched requests give one result per request, in request order",
  "A batched tile or byte-range request returns exactly one result per request and in the order requested, each the same as the request made alone; a failure of any part fails the whole, and no result is dropped, duplicated or exchanged. Wrapping readers forward each range unchanged.",
  ["inputs", "fault_sequences"], "every list of tile positions and ranges (empty, repeated, unsorted) and any part failing",
  "Tests request one or two tiles, in order, from healthy readers.",
  ["src/ifd.rs", "src/reader.rs", "src/metadata/cache.rs"],
  [("tile batches", "src/ifd.rs fetch_tiles"), ("range batches", "src/reader.rs AsyncFileReader::get_byte_ranges")])

p("C11", "A tile is decoded with exactly its own directory's parameters",
  "A fetched tile carries the position asked for, the bytes read for it, and the compression, photometric interpretation, JPEG tables, codec parameters, predictor, byte order, tile size, sample count, bit depth, planar layout and sample type of the directory it came from; decoding uses those and nothing else.",
  ["inputs"], "every directory and tile position, with optional tags present or absent",
  "Tests compare decoded pixels of a few files whose parameters mostly coincide.",
  ["src/ifd.rs", "src/tile.rs"], [("tile construction", "src/ifd.rs fetch_tile(s)"), ("decode", "src/tile.rs Tile::decode")])

p("C12", "Decoding dispatches to the registered codec and surfaces its failure",
  "A tile is decoded by the codec registered for its declared compression, given the tile's own bytes and parameters, once per band for band-separate tiles and in band order; a compression with no registered codec, or any codec failure, is an error. The default registry binds each supported compression to its own codec.",
  ["inputs", "configurations", "fault_sequences"], "every registry, compression, band count, and any band's codec failing",
  "Tests decode with the default registry and healthy data only.",
  ["src/decoder.rs", "src/tile.rs"], [("registry", "src/decoder.rs DecoderRegistry"), ("dispatch", "src/tile.rs Tile::decode")])

p("C13", "Prediction and byte order are undone exactly",
  "For every decompressed buffer, the stored prediction is inverted exactly as the TIFF specification defines it (no prediction, horizontal differencing, floating-point differencing) for each row, sample and band separately, and multi-byte samples end in the host's byte order; a bit depth the prediction is not defined for, or a buffer that does not hold whole rows, is an error.",
  ["inputs"], "every buffer, width, sample count, bit depth, predictor and byte order",
  "Tests check a few small buffers; multi-band and 64-bit cases with carries are not sampled.",
  ["src/predictor.rs", "src/tile.rs"], [("inversion", "src/predictor.rs unpredict_hdiff / unpredict_float / fix_endianness")])

p("C14", "Arrays have the declared shape, element type and exactly the decoded values",
  "A decoded array's shape, element type and length follow from the tile's size, sample count, planar layout and sample format; an array is only created when its data fill the shape exactly (one-bit data may carry trailing padding bits), element i is the i-th encoded sample, and one-bit samples expand most significant bit first. Inconsistent data, shape or type is an error.",
  ["inputs"], "every shape, data length, sample format, bit depth and planar layout",
  "Tests use a few shapes; overflow, odd lengths and rarely-used sample types are not sampled.",
  ["src/array.rs", "src/data_type.rs", "src/tile.rs"], [("array construction", "src/array.rs Array::try_new / TypedArray::try_new"), ("sample type table", "src/data_type.rs DataType::from_tags")])

p("C15", "The read-ahead cache is transparent",
  "Whatever was requested before and whatever its settings, a metadata fetch through the read-ahead cache returns the same bytes the underlying source holds for that range (cut off only where the source ends), and an error of the source is returned as an error.",
  ["histories", "inputs", "configurations"], "every sequence of requests, buffer state, initial size, multiplier and source length",
  "Tests run one or two request sequences against one source.",
  ["src/metadata/cache.rs"], [("sequential block cache", "src/metadata/cache.rs SequentialBlockCache"), ("fetch", "src/metadata/cache.rs ReadaheadMetadataCache::fetch")],
  [("cached blocks", "consecutive blocks of the source starting at byte 0")])

p("C16", "The read-ahead cache stays consistent under concurrency, failure and cancellation",
  "Concurrent fetches through one cache never append blocks out of order, twice, or from a stale position; a source failure or a fetch dropped at any suspension point leaves the cache as it was before, so that later fetches remain correct.",
  ["schedules", "crash_points", "fault_sequences"], "every interleaving of fetches, every suspension point at which a fetch is dropped, every source failure",
  "Tests fetch sequentially with no failures or cancellations.",
  ["src/metadata/cache.rs"], [("cache lock", "src/metadata/cache.rs ReadaheadMetadataCache::fetch")])

p("C17", "Readers return exactly the requested byte range",
  "Every provided reader asks its source for exactly the requested range, also while other tasks use the same reader, and returns exactly the bytes its source answers with; a source that answers with something other than the range (a whole-file response, a failing status, a file that ends too early, a failed seek or read) produces an error.",
  ["inputs", "fault_sequences"], "every range of every source, every response status",
  "Tests read local fixtures; HTTP responses other than success are never produced.",
  ["src/reader.rs"], [("readers", "src/reader.rs TokioReader / ObjectReader / ReqwestReader")])

p("C18", "Reading the directory chain is resumable and always terminates",
  "Directories are yielded one by one in chain order; after the last one every further call reports the end; a failed or abandoned read leaves the reader where it was so the same call can be retried with the same outcome as if it had never been made; and no chain of offsets, cyclic ones included, makes reading go on for ever.",
  ["histories", "fault_sequences", "inputs"], "every call sequence, fetch failure and offset chain",
  "Tests read one healthy chain to its end.",
  ["src/metadata/reader.rs"], [("chain state", "src/metadata/reader.rs TiffMetadataReader")])

p("C19", "No file content makes metadata reading panic",
  "Opening a file, reading its directories and asking a directory for its tile ranges never panics, whatever bytes the file holds; malformed content is reported as an error.",
  ["inputs"], "every byte content of header, directories, entries, tag data and geo keys",
  "Tests open well-formed files; the space of malformed ones is unbounded.",
  ["src/metadata/reader.rs", "src/reader.rs", "src/ifd.rs", "src/tag_value.rs", "src/geo/geo_key_directory.rs"],
  [("all panicking operations reachable from open", "MIR assert terminators and calls to panicking functions")])

p("C20", "Memory is never reserved on the word of an untrusted count",
  "While reading metadata or assembling tiles, the amount of memory reserved in advance is bounded by a fixed limit or by a small multiple of the bytes actually received or decoded, never by a count, size or offset the file merely declares.",
  ["inputs"], "every declared count and size",
  "Tests use truthful counts.",
  ["src/metadata/reader.rs", "src/metadata/cache.rs", "src/tile.rs", "src/reader.rs"],
  [("allocation sites", "with_capacity / vec![x; n] / reserve / resize calls reachable from the API")])

p("C21", "Fetching and decoding are separate, and the API is thread-safe",
  "Fetching tiles and metadata never runs a codec and never blocks a thread on synchronous I/O; decoding never performs I/O and needs no async runtime; the public reader, metadata, tile, registry and array types can be sent to and shared between threads, and the futures of fetches can be moved between threads.",
  ["programs", "schedules"], "every call path from the fetch API and from decode; every user program that moves these types between threads",
  "Tests run on a single-threaded runtime and cannot observe the absence of a call.",
  ["src/ifd.rs", "src/tile.rs", "src/reader.rs", "src/decoder.rs", "src/metadata"],
  [("fetch call graph", "src/ifd.rs fetch_tile(s)"), ("decode call graph", "src/tile.rs Tile::decode")])

p("C22", "The reported header size is the first byte of image data",
  "The header size reported for a file is the smallest non-zero tile or strip offset over all its directories, so that every byte before it is metadata and the byte at it is image data.",
  ["inputs"], "every set of directories with any tile and strip offsets, zero (sparse) entries included",
  "Tests look at one or two files.",
  ["src/tiff.rs"], [("minimum over offsets", "src/tiff.rs TIFF header size")])

p("C23", "The library is memory safe by construction",
  "The library's own code contains no unsafe operation, so no input, schedule or misuse of its API can cause undefined behaviour through it.",
  ["programs", "inputs", "schedules"], "all code of the crate, all feature combinations that build here",
  "Absence of undefined behaviour cannot be sampled.",
  ["src/lib.rs"], [("whole crate", "every function body")])

p("C25", "Failures of sources and codecs are never swallowed",
  "Whenever the byte source or a codec reports a failure during an operation, that operation returns an error; it never returns a success built from missing, default or partial data.",
  ["fault_sequences"], "every operation with any one of its reads or codec calls failing",
  "Tests use sources and codecs that do not fail.",
  ["src/metadata/reader.rs", "src/metadata/cache.rs", "src/ifd.rs", "src/tile.rs", "src/decoder.rs", "src/reader.rs"],
  [("error propagation", "every ? and match on a fallible call reachable from the API")])

p("C26", "No tile content makes decoding panic",
  "Decoding a tile and building its array never panics, whatever compressed bytes the tile holds, whatever its codec returns and whatever parameters its directory declares; the outcome is an array or an error.",
  ["inputs"], "every tile content, codec result and directory parameter",
  "Tests decode well-formed tiles.",
  ["src/tile.rs", "src/decoder.rs", "src/predictor.rs", "src/array.rs"],
  [("all panicking operations reachable from decode", "MIR assert terminators and calls to panicking functions")])

p("N01", "Decompressed pixels equal a reference decoder's",
  "For every tile, the decoded pixels equal those the reference TIFF implementation produces for the same file.",
  ["inputs"], "every tile of every file", "Tests compare a few tiles against stored results.",
  ["src/decoder.rs"], [("codecs", "third-party crates")],
  na="Equality of decompressed data is decided inside third-party codec crates and native libraries (zlib, LERC, OpenJPEG, libwebp, zstd, lzma); no static argument over this repository's source bounds their numerical output. The parts this repository contributes (dispatch, parameters, predictor, byte order, array assembly) are C11 to C14.")
p("N02", "Metadata is read with few requests",
  "Opening a typical cloud-optimised file needs only a small, size-independent number of requests to the source.",
  ["inputs", "histories"], "every well-formed cloud-optimised file", "Tests do not count requests.",
  ["src/metadata/cache.rs"], [("exponential read-ahead", "src/metadata/cache.rs")],
  na="The number of requests depends on run-time sizes and layout of the file's metadata; what static analysis can state (the fetched block is the maximum of the grown block size and the missing bytes) is implementation policy, not a guarantee, and is deliberately left free.")
p("N03", "The Python bindings behave as the Rust API",
  "Every Python-visible accessor and coroutine returns what the Rust API returns for the same file, and errors become exceptions.",
  ["inputs", "programs"], "every Python call", "The Python tests need a built extension module and network fixtures.",
  ["python/src"], [("bindings", "python/src/*.rs")],
  na="The extension crate cannot be type-checked here: its dependencies (pyo3, pyo3-async-runtimes, pyo3-object_store and others) are not in the offline cargo cache, so no MIR or typed tree exists to analyse, and a purely lexical comparison would judge how the bindings are written rather than what they do.")

def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(V, "va", "checks")) if f.startswith("c") and f.endswith(".py")}
    import importlib, sys
    sys.path.insert(0, os.path.join(V, "va")); sys.path.insert(0, os.path.join(V, "va", "checks"))
    checks, na, lines = [], [], []
    for q in P:
        row = {k: v for k, v in q.items() if not k.startswith("_")}
        if not row["anchors"]["state"]:
            del row["anchors"]["state"]
        if q["id"] in have:
            src = open(os.path.join(V, "va", "checks", q["id"].lower() + ".py")).read()
            ns = {}
            for line in src.split("\n"):
                if line.startswith(("TECHNIQUE", "LEVEL_NOTE")):
                    exec(line, ns)
            checks.append({"property": q["id"],
                           "quick_cmd": "python3 va/run.py %s" % q["id"],
                           "thorough_cmd": "python3 va/run.py %s --tier thorough" % q["id"],
                           "evidence_file": "evidence/%s.json" % q["id"],
                           "technique": ns.get("TECHNIQUE", GVG),
                           "level": "other",
                           "level_note": ns.get("LEVEL_NOTE", "static analysis, sound modulo the library models listed in DESIGN.md; obligations it cannot decide are listed in the evidence as undetermined and are not counted as held")})
        elif q["_na"]:
            na.append({"property": q["id"], "reason": q["_na"]})
        else:
            continue
        lines.append(json.dumps(row))
    open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
    m = {"version": 1, "setup_cmd": "python3 va/run.py setup", "checks": checks,
         "not_applicable": na,
         "notes": "All checks analyse MIR extracted by driver/ (a rustc_private driver, nightly) from /repo's working tree on every run; no code of async-tiff is executed."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
    print(len(checks), "claimed", len(na), "not applicable")
main()

"""The list of properties: one table from which properties.jsonl and MANIFEST.json are generated (python3 tools/props.py)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, level="proof", note=None, na=None, technique=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, note=note,
                  na=na, technique=technique, state=state))


DEDUCTIVE = "contract-based deductive verification of the Go source (govc: go/ssa symbolic execution against contracts, SMT-discharged)"

p("C01", "Word and hash files are growable arrays of exact, independent slots",
  "After any sequence of writes, appends, reads, syncs, whole-file reads, closes and reopens, reading slot i of a word file (1 to 8 byte little-endian words) or hash file (32 bytes) returns exactly the value last written to slot i, and slots never written below the count read as zero. "
  "Writing one slot never changes another, the count is one more than the highest slot written, reading beyond the end is an error, and the plain, memory-shadowed, memory-mapped and read-only variants give the same answers. "
  "Opening counts size divided by width, and refuses a file that is not a whole number of words.",
  ["inputs", "histories", "configurations"], "every word width 1..8, every value that fits the width, every slot number, every finite history of operations, every variant",
  "the tests write a few values at one or two widths and read them straight back; they never mix appends, gaps, overwrites, syncs and reopens, nor sweep widths and values",
  ["wordfile/wordfile.go", "wordfile/hashfile.go", "wordfile/memshadowedwordfile.go", "wordfile/concretewordfilecreator.go", "wordfile/concretemmapcreator.go"],
  [("slot arithmetic and little-endian scratch buffer", "wordfile/wordfile.go ReadWordAt/WriteWordAt"), ("hash slots and count", "wordfile/hashfile.go"), ("shadow copy", "wordfile/memshadowedwordfile.go"), ("word count on open", "wordfile/concretewordfilecreator.go countWords")],
  note="every function of the word and hash files is proved against its contract for all inputs over a flat-file model; creators' path handling and the history as a whole are covered by an always-run bounded replay")
p("C02", "Append-optimised, sized, mapped and in-memory files equal a flat byte array",
  "An append-optimised file behaves exactly like a flat byte array under any interleaving of appends, overwrites, writes that straddle or lie beyond the end (gaps read as zero), reads, whole-file reads, syncs, closes and reopens: reads return the bytes last written and the size is always the highest byte written. "
  "After a sync or close the bytes on disk are exactly that array, whatever was buffered. "
  "The sized read view, the read-only memory-mapped view and the fixed-size in-memory file (saved on close) give the same bytes.",
  ["inputs", "histories"], "every offset, every buffer length and content, every finite interleaving of the operations",
  "the tests do one or two appends and reads; the buffered and unbuffered paths interact only in longer histories",
  ["memfile/appendoptimized.go", "memfile/filewithsize.go", "memfile/mmapfile.go", "memfile/fixedsize.go"],
  [("buffered writer only between consecutive appends", "memfile/appendoptimized.go WriteAt"), ("flush before any other operation", "memfile/appendoptimized.go flush/ReadAt/Sync/Close"), ("size bookkeeping", "memfile/appendoptimized.go totalSize")],
  note="representation invariant and functional contract of every append-optimised operation proved for all inputs; the memory-mapped and in-memory variants' file handling is covered by bounded replay")
p("C03", "Variable-length integers and integer-array files round-trip exactly",
  "Every non-negative integer is encoded in Bitcoin's compact variable-length form (1, 3, 5 or 9 bytes, shortest form) and decodes, with any bytes following it, to the same integer with the same number of bytes consumed. "
  "A file of integer arrays that is saved and loaded back gives, for every key below its fixed array count, exactly the values appended under that key, in order, for any element width from 1 to 8 bytes that holds them, and keys without values load as empty.",
  ["inputs", "histories"], "every integer in 0..2^63-1; every set of arrays; every element width",
  "the tests use a handful of small arrays and never lengths or values around the 0xFD, 2^16 and 2^32 boundaries",
  ["intarrayarray/varint.go", "intarrayarray/intarrayarray.go"],
  [("length prefix selection", "intarrayarray/varint.go ToBytes/FromBytes"), ("array file layout", "intarrayarray/intarrayarray.go SaveFile/LoadFile")],
  note="the integer codec is proved for all values; the whole-file save/load round trip is covered by bounded replay")
p("C10", "Hash text and hash bytes convert exactly, in reversed byte order",
  "A 64-digit hexadecimal hash, in either or mixed letter case, parses to the 32 bytes it denotes in reversed order, and formatting any 32 bytes gives the lower-case text that parses back to them. "
  "Text of any other length is refused with an error and leaves the destination unchanged.",
  ["inputs"], "every 32-byte hash, every 64-digit text in either case, every other length",
  "tests parse a few literal hashes, mostly lower-case; the 65536-entry digit table and the byte positions are only sampled",
  ["indexedhashes/hexstring.go"],
  [("65536-entry digit-pair table", "indexedhashes/hexstring.go buildHexLookup"), ("reversed positions", "indexedhashes/hexstring.go hashHexToBinInternal, hashHexToSha256Internal")])

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None


def main():
    P.sort(key=lambda q: q["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["text"]},
                                "why_tests_cant": q["why"], "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]]}}) + "\n")
    checks, na = [], []
    for q in P:
        if q["na"]:
            na.append({"property": q["id"], "reason": q["na"]})
            continue
        checks.append({"property": q["id"], "quick_cmd": "./check.sh %s quick" % q["id"], "thorough_cmd": "./check.sh %s thorough" % q["id"],
                       "technique": q["technique"] or DEDUCTIVE, "level": q["level"],
                       "level_note": (q["note"] or "every obligation generated from the current source is discharged by an SMT solver for all inputs") +
                       "; trusts govc, its library models and the SMT solvers; assumptions listed in the evidence file"})
    json.dump({"version": 1, "setup_cmd": "cd govc && GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS='-mod=mod -buildvcs=false' go build -o /dev/null .",
               "checks": checks, "not_applicable": na,
               "notes": "no hooks in /repo; lemmas and replay tests reach packages through build overlays"},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()

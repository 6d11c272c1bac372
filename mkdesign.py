#!/usr/bin/env python3
"""DESIGN.md from design/*.md, plan.py (bounds) and seeded/*/meta.json (planted bugs)."""
import json, os
from plan import PLAN
V = os.path.dirname(os.path.abspath(__file__))
ORACLE = {
    "C01": "A strict ZIP64 parser in the harness (`zip.rs`) walks the delivered bytes: local records, central directory and end records must tile them, every field is compared with what was added. Names and contents are symbolic bytes (all UTF-8 strings up to the length, case-split by the solver through `String::from_utf8`).",
    "C02": "After every builder operation `size()` is compared with a sum computed by the harness in 128 bits; the built reader's `size()` with it; in the reading entries the number of bytes delivered. Opening a source while building is counted as a failure.",
    "C03": "The same archive read with a symbolic buffer size is compared byte for byte with a reference image assembled by the harness from the layout (contents stay symbolic); early end of file, touching filled bytes and reads after the end are checked by the ghost reader.",
    "C04": "At each source poll the solver's case split decides: ready, short, or suspended. The output must equal the image; `Pending` is only allowed if a source polled in this call, with this call's waker, suspended and nothing was written.",
    "C05": "Seek target is a symbolic integer (or any record boundary ±1), prior state is reached by real reads; what follows must be the image from that offset on.",
    "C06": "`tell()` is compared with the ghost position after each step of a history with suspensions, failures, zero-length reads and seeks; the bytes delivered next must be the image's at that position.",
    "C07": "`start_seek`/`poll_complete` with any 64-bit base and offset in all three forms; the target is computed in 128 bits. Sizes of the entries are symbolic 64-bit values. The executor's overflow checks cover wrapping.",
    "C08": "Every CRC in the stream and in `crc32s()` is compared with a bitwise CRC-32 of the harness over symbolic contents (decided over GF(2)); histories of seeks, partial reads and suspensions precede it.",
    "C09": "Preset values are symbolic 32-bit values; equality with the CRC of the symbolic contents is a solver question, both answers are explored. The error's fields are compared; correct presets must leave the image unchanged and avoid source reads.",
    "C10": "Announced size is a symbolic 64-bit value, the actual content symbolic; the read must fail exactly if they differ, with the right fields, again when repeated.",
    "C11": "Sizes are symbolic 64-bit values (integer encoding); all offsets are recomputed in 128 bits; the archive is entered by seeking to each record. `h_c11_skip` skips through more than 2^32 bytes by induction-free bounding: a source that fails at its 7th read; the amount asked of it and the bytes given must be exact.",
    "C12": "The three refusals are recomputed by the harness (length, equality of symbolic names, sums in 128 bits); a refused addition must leave entries, sizes and the archive (compared as a whole) unchanged.",
    "C13": "Counting sources: opens, reads, ends of file and seeks per entry are compared with what the history required.",
    "C14": "Fields are symbolic 32-bit values; the DOS fields are recomputed with a reference calendar; what is stored is read back from both headers of the built archive.",
    "C15": "A reference of (type, permissions) is updated with each setter; the external attributes in the archive must be its encoding, and all other bytes those of an archive without the setters.",
    "C16": "Two ghost readers after the split, the real ones driven alternately; the reader left behind by `take_pinned` must deliver the empty archive.",
    "C17": "One failure at any source operation, in several forms of `io::Error` (OS codes, 16 kinds with payload, bare kinds); it must come out once, identical (kind, code or payload), what was delivered before must be right, and the history is continued by re-reading or seeking.",
    "C18": "Chunks concatenated and compared with the image from the start position; clone and `into_reader` at any point of the schedule.",
    "C19": "`respond_to` is called with a real `HttpRequest`; Range values are symbolic bytes; a reference parser for the canonical forms decides the required status; headers are parsed back and compared with the body's announced and delivered bytes.",
    "C20": "The body is polled over a symbolic schedule and dropped after a symbolic number of polls; what the channel receives is compared with the ghost reader (position, CRCs, remaining bytes).",
    "C21": "The tree is described to the in-memory file system; the expected set of names is computed from it; the archive is read and parsed.",
    "C22": "Stat data (mode, times, size) and contents are symbolic; entry type, permissions and time in the archive are compared with a reference encoding, contents with the object's.",
    "C23": "The same histories as over the scripted sources, with the same ghost reader; the reference image is that of scripted sources with the same names, contents and CRCs.",
}
p = {}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    p[d["id"]] = d
out = [open(os.path.join(V, "design/head.md")).read().rstrip(), ""]
for k in sorted(PLAN):
    s = PLAN[k]
    out.append("### %s %s\n" % (k, p[k]["title"]))
    out.append(ORACLE[k] + "\n")
    for j in s["jobs"]:
        out.append("* `%s`: %s." % (j["entry"], j["bounds"]))
    if s.get("outside"):
        out.append("* outside: %s." % s["outside"])
    out.append("")
out.append(open(os.path.join(V, "design/tail.md")).read().rstrip())
out.append("\n| planted bug | property | needs | how it was caught |\n|---|---|---|---|")
notes = json.load(open(os.path.join(V, "design/caught.json")))
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/"), notes.get(s, "%s, at once" % m["property"])))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")

"""Which symbolic-execution entries decide which property, how they are split over processes, and their bounds.

Shard patterns fix the first picks of an entry: a number, *N (0..N-1, one shard each), a..b, or _ (left free)."""
import glob
import os
import re
import shutil
import tarfile


def inline_tokio(V, td, sh):
    """tokio's sources from cargo's cache, with src/blocking.rs replaced so that blocking work runs inline."""
    lock = open(os.path.join(V, "harness/core/Cargo.lock")).read()
    name = "tokio-" + re.search(r'name = "tokio"\nversion = "([^"]+)"', lock).group(1)
    home = os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo")
    out = os.path.join(V, "build/tokio-inline")
    mine = open(os.path.join(V, "harness/fs/blocking.rs")).read()
    try:
        if open(os.path.join(out, "made")).read() == name + mine:
            return
    except OSError:
        pass
    tmp = out + ".new"
    shutil.rmtree(tmp, ignore_errors=True)
    src = glob.glob(os.path.join(home, "registry/src/*", name))
    if src:
        shutil.copytree(src[0], tmp)
    else:
        pack = glob.glob(os.path.join(home, "registry/cache/*", name + ".crate"))[0]
        with tarfile.open(pack) as t:
            t.extractall(tmp + ".x", filter="data")
        os.rename(os.path.join(tmp + ".x", name), tmp)
        os.rmdir(tmp + ".x")
    with open(os.path.join(tmp, "src/blocking.rs"), "w") as f:
        f.write(mine)
    with open(os.path.join(tmp, "made"), "w") as f:
        f.write(name + mine)
    shutil.rmtree(out, ignore_errors=True)
    os.rename(tmp, out)


CRATES = {"core": {}, "actix": {}, "fs": {"prepare": inline_tokio}}


def J(crate, entry, bounds, quick, thorough=None, **k):
    d = dict(crate=crate, entry=entry, bounds=bounds, quick=quick, **k)
    if thorough is not None:
        d["thorough"] = thorough
    return d


# entries with many concrete keys: SipHash is executed
LONG = ["--real-hash", "--max-steps", "2000000000"]

PLAN = {
    "C01": {
        "jobs": [
            J("core", "h_c01", "0-2 entries (thorough 0-3), names of 0-2 (3) arbitrary bytes that are UTF-8, contents of 0-3 arbitrary bytes, CRC preset or not", ["0,*3"], ["0,*3", "1,*4,*3"], reach=["parsed"]),
            J("core", "h_c01_names", "names of 3 or 4 arbitrary bytes, and of 127, 128, 255, 256, 32768, 65534, 65535 bytes of which 3 symbolic", [""], reach=["parsed"]),
            J("core", "h_c01_big", "contents of 127..70001 bytes around powers of two (thorough: 25 lengths to 140003), 3 bytes symbolic", ["0,*11"], ["1,*25"], reach=["parsed"]),
            J("core", "h_c01_many", "255, 256, 300, 65535, 65536, 65537 entries (thorough: also 257, 1000, 65534), one symbolic byte", ["0,*3", "2,1..4"], ["0,*3", "1,*4", "2,*4"], reach=["parsed"], args=LONG),
            J("core", "h_c01_mem", "4 in-memory entries of 0-4 arbitrary bytes", [""], reach=["parsed"]),
        ],
        "bounds": "see entries; the stream is read sequentially with a 70000-byte buffer and parsed by a strict ZIP64 reader",
        "outside": "archives whose offsets exceed 4 GiB (C11); names and contents longer than the stated lengths are not fully symbolic",
    },
    "C03": {
        "jobs": [
            J("core", "h_c03_uniform", "8 archive shapes (0-4 entries, names 0-40 B, contents 0-40 symbolic bytes); any uniform buffer size 1..2047 (symbolic; beyond the archive's size); empty or partly filled buffers; zero-length reads", ["*8"]),
            J("core", "h_c03_seek", "3 shapes, 3 preset masks, from every record boundary and place within data (thorough: -1/0/+1), an empty read before each other one of 1, 5 or 60 bytes into a partly filled buffer", ["0,*3"], ["1,*3"]),
            J("core", "h_c03_two", "the same shapes; any first size 0..2047 (symbolic), 14 (thorough: 130) second sizes, rest by 33 or 9000", ["0,*8"], ["1,*8"]),
            J("core", "h_c03_big", "an entry of 8191, 8192, 8193, 20000 bytes, buffers of 97..65536", [""]),
            J("core", "h_c03_long", "names of 255, 300, 9000, 65535 bytes; 9 buffer sizes of 1..65536", [""]),
            J("core", "h_c03_many", "300 entries, 8 buffer sizes of 11..100000", [""], args=LONG),
            J("core", "h_c03_mem", "4 in-memory entries of 0-4 arbitrary bytes, CRCs preset or not (3 ways); any uniform buffer size 1..2047 (symbolic), 4 pairs of alternating ones", ["*3"]),
            J("fs", "h_c03_fs", "a file, a symlink and a file with arbitrary contents, read through tokio's blocking work; any uniform buffer size 1..2047 (symbolic), 4 pairs of alternating ones", [""]),
        ],
        "bounds": "see entries",
    },
    "C04": {
        "jobs": [
            J("core", "h_c04", "5 shapes, 4 buffer sizes, 2 (thorough 3) suspensions and 2 short reads at any source poll", ["0,*5"], ["1,*5"]),
            J("core", "h_c04_seek", "4 shapes, 3 preset masks, seek to every record boundary -1/0/+1, 3 buffer sizes, 2 (3) suspensions and 1 short read at any poll", ["0,*4,*3"], ["1,*4,*3"]),
            J("core", "h_c04_long", "3 entries, sources that suspend 0, 1, 3, 17 or 300 times before each operation and deliver 1, 3 or 1000 bytes at a time; 5 positions, 3 preset masks, 2 buffer sizes", ["*5"]),
            J("fs", "h_c04_fs", "a file, a symlink and a file with arbitrary contents, read through tokio's blocking work; 9 start positions, 3 buffer sizes, 1 (thorough 2) suspensions and a short read at any piece of work", ["*2,0"], ["*2,*2"]),
        ],
        "bounds": "see entries",
    },
    "C05": {
        "jobs": [
            J("core", "h_c05", "8 shapes, 3 preset masks, any seek offset 0..size+70 (symbolic), 3 buffer sizes", ["*8,*3"]),
            J("core", "h_c05_hist", "seek, read, seek (one of them to any offset), drain", ["0,*4,*2"], ["1,*4,*2"]),
            J("core", "h_c05_big", "entries of 8193..20000 bytes, seeks around multiples of the internal buffer", [""]),
            J("core", "h_c05_many", "300 entries, seeks to -1/0/+1 around each record of 10 of them", [""], args=LONG),
            J("core", "h_c05_walk", "4 walks of 100 seeks and reads over 5 entries of 0-9000 bytes, 3 preset masks, 3 suspension and failure scripts", [""]),
            J("core", "h_c05_huge", "5 archives beyond 2^31..2^63 bytes, CRCs preset; 45 positions around data boundaries and multiples of 2^32 in 2 entries; with and without a history", [""]),
            J("core", "h_c05_huge_mem", "in-memory buffers of 2^31+60..2^41 bytes of which the last 120 (symbolic) are touched, any preset CRC (symbolic); 120 positions, with and without a history", ["*5"]),
            J("core", "h_c05_mem", "4 in-memory entries of 0-4 arbitrary bytes, CRCs preset or not (3 ways); 0 or 2 reads, then any offset (symbolic) or two seeks to places in records and data, 3 buffer sizes", ["*3"]),
            J("fs", "h_c05_fs", "a file, a symlink and a file with arbitrary contents, read through tokio's blocking work; 0 or 2 reads, then any offset (symbolic), 3 buffer sizes", ["*3"]),
        ],
        "bounds": "see entries",
    },
    "C06": {
        "jobs": [
            J("core", "h_c06", "3 shapes, 3 preset masks, 2 seeks and 6 reads with 1 (2) suspensions and 1 failure at any poll", ["0,*3,*3"], ["1,*3,*3"]),
            J("core", "h_c06_walk", "4 walks of 100 seeks and reads over 5 entries of 0-9000 bytes, 3 preset masks, 3 suspension and failure scripts", [""]),
            J("core", "h_c06_huge", "5 archives beyond 2^31..2^63 bytes, CRCs preset; 45 positions around data boundaries and multiples of 2^32 in 2 entries; with and without a history", [""]),
            J("core", "h_c06_huge_mem", "in-memory buffers of 2^31+60..2^41 bytes of which the last 120 (symbolic) are touched, any preset CRC (symbolic); 120 positions, with and without a history", ["*5"]),
            J("core", "h_c06_mem", "4 in-memory entries of 0-4 arbitrary bytes, CRCs preset or not (3 ways); two seeks with reads", ["*3"]),
            J("fs", "h_c06_fs", "a file, a symlink and a file with arbitrary contents, read through tokio's blocking work; two seeks with reads; a suspension (thorough: and a failing operation)", ["*2,0"], ["*2,*2"]),
        ],
        "bounds": "see entries",
    },
    "C02": {
        "jobs": [
            J("core", "h_c02", "every sequence of 3 (thorough 4) builder operations (add, shift/swap-remove, clear, insert a copy, change settings, reverse) over 4 names and any announced 64-bit sizes; builder and reader sizes after each", ["0"], ["0", "1"]),
            J("core", "h_c02_read", "3 (thorough 4) builder operations of 7 kinds over 4 names with contents of 0 or 3 arbitrary bytes; two buffer sizes; the number of bytes a full read delivers is the announced one", ["0"], ["0", "1"], reach=["end"]),
            J("core", "h_c02_hist", "2 shapes, presets or not; seek to any record boundary, a read with a suspension and a failure, a clone or a taken reader (and what is left behind), then everything from the start", ["0"], ["0", "1"]),
            J("core", "h_c02_many", "255 or 300 additions, none, every, or every 8th entry removed again; the size after each; contents of 0-3 bytes, 3 of them symbolic", [""], args=LONG),
            J("fs", "h_c02_fs", "a file, a link, a directory and a pipe, added singly or as a tree; contents of 0-3 bytes or any announced 63-bit size; link targets of 3 lengths", [""]),
        ],
        "bounds": "see entries",
    },
    "C07": {
        "jobs": [
            J("core", "h_c07", "0-2 entries of any size (64 bits), any position, any offset (64 bits), all three forms", [""], reach=["end", "refused", "overflow", "beyond the end"]),
            J("core", "h_c07_read", "2 shapes, presets or not, seeks to any target -10..size+10 (symbolic) in each form from record boundaries with a suspension; the rest is read", ["0,*2,*2"], ["1,*2,*2"], reach=["end", "refused"]),
        ],
        "bounds": "see entries",
    },
    "C08": {
        "jobs": [
            J("core", "h_c08", "3 shapes of 2-4 entries, preset or not; two seeks, reads, suspensions; then the rest", ["0,*3,*2"], ["1,*3,*2"]),
            J("core", "h_c08_data", "every content of 0-12 (thorough 0-40) bytes", ["0"], ["1"]),
            J("core", "h_c08_big", "8191, 8192, 8193 and 16385 bytes, 3 symbolic; suspensions", [""]),
            J("core", "h_c08_walk", "4 walks of 100 seeks and reads over 5 entries of 0-9000 bytes, 3 preset masks, 3 suspension and failure scripts", [""]),
            J("core", "h_c08_long", "contents of 300, 9000, 70001 bytes read in up to 1900 pieces of 5 sizes; 4 start positions; then the directory again", [""]),
            J("core", "h_c08_mem", "4 in-memory entries of 0-4 arbitrary bytes, CRCs preset or not (3 ways); two seeks with reads", ["*3"]),
            J("fs", "h_c08_fs", "a file, a symlink and a file with arbitrary contents, read through tokio's blocking work; two seeks with reads; a suspension (thorough: and a short read)", ["*2,0"], ["*2,*2"]),
        ],
        "bounds": "see entries",
    },
    "C09": {
        "jobs": [
            J("core", "h_c09", "3 entries of 0-5 symbolic bytes, any 32-bit preset on any of them; suspensions and short reads", ["0,*3"], ["1,*3"], reach=["mismatch", "match"]),
            J("core", "h_c09_hist", "3 shapes, right presets on some or all entries; reads and a seek to any record boundary", ["0"], ["1,*3,*3"]),
        ],
        "bounds": "see entries",
    },
    "C10": {
        "jobs": [
            J("core", "h_c10", "3 entries of which one has 0-3 (thorough 0-5) arbitrary bytes and any announced size 1..2^62; presets on none, all, or the wrong one; 4 buffer sizes; 1 (2) short reads and a suspension at any poll", ["0"], ["1"], reach=["mismatch", "match"]),
            J("core", "h_c10_long", "contents of 300, 8192, 20000 bytes in up to 300 pieces, any announced size 1..2^62, presets or not, 3 buffer sizes, repeated 20 times after the failure", [""], reach=["mismatch", "match"]),
            J("core", "h_c10_mem", "an in-memory entry of 1-5 bytes that has 0-6 arbitrary ones when read; 3 buffer sizes", [""], reach=["end", "mismatch"]),
            J("fs", "h_c10_fs", "a file of 1-5 bytes that has 0-6 arbitrary ones when read; 4 buffer sizes, a suspension and a short read at any piece of work", [""], reach=["end", "mismatch"]),
        ],
        "bounds": "see entries",
    },
    "C11": {
        "jobs": [
            J("core", "h_c11", "1-3 entries of any announced 64-bit sizes whose archive fits in 64 bits (offered sizes that do not fit must be refused), CRCs preset; the central directory and end records, every local header and descriptor, and 8 bytes at any 64-bit offset into the last entry's data are reached by seeking and read", [""], reach=["end", "refused"]),
            J("core", "h_c11_skip", "an entry of up to 2^62 bytes whose CRC is not known; reads at h * 2^32 + l for any h up to 2^30 and 6 values of l, from a source that fails at its 7th read", [""], reach=["data", "skipping"]),
        ],
        "bounds": "see entries",
    },
    "C12": {
        "jobs": [
            J("core", "h_c12", "0-3 existing entries with names of 0-2 arbitrary bytes; an added name of 0-3 arbitrary bytes (all UTF-8 strings) and any 64-bit size", [""], reach=["added", "refused", "not utf-8"]),
            J("core", "h_c12_names", "names of 65534..131073 bytes, ASCII with 3 symbolic characters or 3-byte characters; with or without an entry removed before", [""]),
            J("core", "h_c12_sum", "4 additions of any 64-bit sizes", [""]),
            J("core", "h_c12_many", "256, 300, 65535 or 65537 entries; duplicates of 8 of them", [""], args=LONG),
            J("fs", "h_c12_fs", "one file system object of 4 kinds under any name of 0-4 (thorough 0-6) bytes that is UTF-8, with or without entries it may collide with", ["0"], ["1"], reach=["added", "refused", "not utf-8"]),
            J("fs", "h_c12_fs_long", "file system objects with names of 65533..65537 bytes with 0, 1 or 3 slashes behind", [""]),
        ],
        "bounds": "see entries",
    },
    "C13": {
        "jobs": [
            J("core", "h_c13", "6 shapes, 2 (thorough 3) preset masks, sequential reads by any uniform buffer size 1..500 (symbolic), a short read (thorough: and a suspension) at any poll", ["0,*6"], ["1,*6,*3"]),
            J("core", "h_c13_hist", "3 shapes, presets or not, two seeks with reads", ["0"], ["1,*3,*2"]),
            J("core", "h_c13_long", "130 entries, or 20000 bytes in up to 286 pieces; 4 start positions, 3 buffer sizes; then the directory again", [""], args=LONG),
            J("fs", "h_c13_fs", "a file, a symlink and a file with arbitrary contents, read through tokio's blocking work; two seeks with reads, or sequential reads with 4 buffer sizes; 0 or 1 (thorough) suspensions", ["*2,0"], ["*2,*2"]),
        ],
        "bounds": "see entries",
    },
    "C14": {
        "jobs": [
            J("core", "h_c14", "every sequence of 2 setters (fields, fields-or-default, system, system-or-default, none) with any 32-bit field values, with or without a converter giving any 32-bit fields", [""]),
            J("core", "h_c14_conv", "3 entries, 4 orders of setting converters and adding; any time of 2^32 seconds", [""]),
            J("core", "h_c14_chrono", "NaiveDateTime: 11 years x 3 months x 3 days around the limits, any second of the day, 3 subsecond values (one a leap second)", [""]),
            J("core", "h_c14_dst", "zones whose offset changes at one of 3 moments from and to 4 pairs of offsets, a system time in any of the 2048 seconds around the change, another time converted before", [""]),
            J("core", "h_c14_zone", "system times in any of 2048 seconds around 7 moments (1970, 1980, 2000-02-29, 2038, 2100-03-01, 2108, 2008-12-23), 7 UTC offsets, with and without subseconds", [""]),
            J("fs", "h_c14_fs", "objects of 4 kinds with any modification time (2^41 seconds around 1970, any nanosecond), a converter giving any 32-bit fields, or none; three ways of adding", [""]),
        ],
        "bounds": "see entries",
    },
    "C15": {
        "jobs": [
            J("core", "h_c15", "every sequence of 0-3 (thorough 0-4) settings of 8 kinds with any 32-bit permissions on one of 3 entries", ["0,*3"], ["0,*3", "1,*3"]),
            J("fs", "h_c15_fs", "objects of 4 kinds with any 12 mode bits, three ways of adding", [""]),
        ],
        "bounds": "see entries",
    },
    "C16": {
        "jobs": [
            J("core", "h_c16_clone", "2 shapes, presets or not; clone after a seek (to record boundaries, into data, behind the end) and reads with a suspension and a failure", ["0,*2,*2"], ["1,*2,*2"]),
            J("core", "h_c16_take", "the same, with take_pinned", ["0,*2,*2"], ["1,*2,*2"]),
            J("core", "h_c16_long", "copies of copies (or readers taken) before up to every read of archives with 0, 1 or 2 suspensions and failures at each source operation, 4 buffer sizes", [""]),
            J("core", "h_c16_huge", "clones and taken readers at 45 positions beyond 32 bits", [""]),
            J("core", "h_c16_mem", "4 in-memory entries of 0-4 arbitrary bytes, CRCs preset or not (3 ways); clone or take after a seek and a read", ["*3"]),
            J("fs", "h_c16_fs", "a file, a symlink and a file with arbitrary contents, read through tokio's blocking work; clone or take after a seek and a read; a suspension (thorough: and a failing operation)", ["*2,0"], ["*2,*2"]),
        ],
        "bounds": "see entries",
    },
    "C17": {
        "jobs": [
            J("core", "h_c17", "3 shapes, 3 preset masks, seek to any record boundary or into the data; 1 (2) failures (OS errors, or any of 16 kinds with a payload; thorough: or without) and a suspension at any source operation", ["0,*3,*3"], ["1,*3,*3"], reach=["failure"]),
            J("core", "h_c17_long", "2, 5 or 40 failures in a row at each source operation, with and without suspensions; 5 positions, 2 buffer sizes", [""]),
            J("fs", "h_c17_fs", "a file, a symlink and a file with arbitrary contents, read through tokio's blocking work; 9 start positions, 3 buffer sizes; a failing open, read or seek (thorough 2) and a suspension at any piece of work; then the same again, or a seek", ["*3,0"], ["*3,*2,*9"], reach=["end", "failure"]),
        ],
        "bounds": "see entries",
    },
    "C18": {
        "jobs": [
            J("core", "h_c18", "3 shapes, presets or not, from any record boundary; suspension and failure at any poll; clones, readers taken back", ["0,*3,*2"], ["1,*3,*2"]),
            J("core", "h_c18_big", "entries of 8191, 8192, 8193, 20000 bytes", [""]),
            J("core", "h_c18_long", "contents of 300, 9000, 200001 bytes in up to 1600 pieces, suspensions and failures at each, a clone after 100 chunks", [""]),
            J("core", "h_c18_mem", "4 in-memory entries of 0-4 arbitrary bytes, CRCs preset or not, chunks from places in records and data", [""]),
        ],
        "bounds": "see entries",
    },
    "C19": {
        "jobs": [
            J("actix", "h_c19_none", "0-2 entries, no Range header, the whole body", [""]),
            J("actix", "h_c19_any", "'bytes=' followed by 0-5 (thorough 0-8) arbitrary bytes, 0 or 1 entries", ["0"], ["1"], reach=["part", "unsatisfiable", "malformed", "other"]),
            J("actix", "h_c19_prefix", "Range values of 0-8 (thorough 0-12) arbitrary bytes, those of 4 or more followed by '0-5'", ["0"], ["1"], reach=["malformed"]),
            J("actix", "h_c19_body", "the three canonical forms with every first position up to 3 beyond the end, every suffix length, 4 lengths; bodies read to their end", ["0,*3"], ["1,*3"]),
            J("actix", "h_c19_list", "2 (thorough 2 or 3) ranges, each of the three forms, one (thorough one or two) digits per number, 4 separators; bodies read to their end", ["0"], ["1"], reach=["part"]),
            J("actix", "h_c19_big", "archives of 2^32+7, 2^63+5 and 2^64-1 bytes; the three forms with numbers within 6 of 6 points up to 2^64-1; the first chunk of the body", [""]),
            J("actix", "h_c19_digits", "numbers of 9 lengths from 1 to 25 digits (thorough: all of them), 4 patterns, any last digit; bodies read to their end", ["0"], ["1,*3"], args=LONG, reach=["part", "unsatisfiable", "other"]),
        ],
        "bounds": "see entries",
        "outside": "longer Range values that are not canonical; other headers and methods; the actix server around the response",
        "assumptions": ["ahash's runtime keys and the clock (Date header) are fixed"],
    },
    "C20": {
        "jobs": [
            J("actix", "h_c20", "2 shapes, presets or not, CRCs known before or not, 5 ranges, channel absent, kept or dropped; 1 (thorough 2) suspensions, 0 (1) short reads and 1 failure at any source operation; dropped after 0-4 polls or at the end", ["0"], ["0", "1"], reach=["end", "complete", "handed back", "known"]),
            J("actix", "h_c20_unused", "adapters dropped unused or after refused requests, the reader at 6 positions after reads with a suspension and a failure", [""]),
            J("actix", "h_c20_big", "an entry of 20000 bytes, 4 starts, ends within 1 of 7 points around chunk boundaries", [""]),
            J("actix", "h_c20_long", "an entry of 30000 (thorough 100000) bytes and two others, CRCs preset or not; 5 schedules with 0..100 suspensions of every operation, a failure, reads of at most 100..8192 bytes; 4 ranges; dropped after 3 or 40 chunks or at the end", ["0"], ["0", "1"], args=LONG),
            J("actix", "h_c20_huge", "archives of 2^32+1000, 2^33+12345, 2^63+5 and 2^64-1 bytes; 24 ranges (lengths around 2^32, short ones far into the entry, the tail); 10 chunks", [""], args=LONG, reach=["ended", "goes on", "end"]),
        ],
        "bounds": "see entries",
        "outside": "actix's server loop; HTTP/1 and HTTP/2 framing",
    },
    "C21": {
        "jobs": [
            J("fs", "h_c21_one", "one object of 4 kinds under any name of 0-4 (thorough 0-6) bytes that is UTF-8; with or without entries that may collide; a suspension", ["0"], ["1"], reach=["added", "refused", "not utf-8"]),
            J("fs", "h_c21_long", "names of 65533..65537 bytes with 0, 1 or 3 slashes behind", [""]),
            J("fs", "h_c21_tree", "7 trees (up to 74 objects, 4 levels deep; links in and out; everything called like the root), roots given in 15 forms, no root name, 3 fixed ones, or any of 1-2 (1-4) bytes; a suspension (2) at any point; the archive is read and parsed", ["0,*7"], ["1,*7,*15"]),
            J("fs", "h_c21_names", "two to three objects with any names of 1-2 (1-3) bytes each that are UTF-8; the archive is read and parsed", ["0"], ["1"]),
            J("fs", "h_c21_fail", "2 trees; a failing stat, listing, readlink or readdir at any object; roots that are missing, files or links; a duplicate name; a suspension", [""], reach=["good", "not a directory", "duplicate", "failure", "through a link"]),
            J("fs", "h_c21_deep", "chains of 12, 40, 100 and 200 directories, names of up to 255 bytes, paths of more than 4096; 0 or 2 suspensions of every piece of work", ["*4"], args=LONG),
            J("fs", "h_c21_wide", "130, 257 and 300 objects in two directories; 0 or 1 suspensions of every piece of work", ["*3"], args=LONG),
        ],
        "bounds": "see entries; the file system is an in-memory model behind libc's statx, open64, read, lseek64, opendir, readdir64, readlink and close; tokio's blocking work runs inline and reports when the schedule lets it",
        "outside": "names that are not UTF-8 (they are converted lossily); trees that change while they are added; real threads of tokio's blocking pool",
    },
    "C22": {
        "jobs": [
            J("fs", "h_c22", "a directory, two files of 0-5 arbitrary bytes and a symlink with a target of 1-256 (thorough 0-300) bytes of which 3 are arbitrary; two ways of adding; 3 buffer sizes; 2 (3) suspensions and a short read at any operation", ["0,*2"], ["1,*2"]),
            J("fs", "h_c22_meta", "4 kinds of objects, any 12 mode bits, any modification time (2^41 seconds around 1970, any nanosecond), a converter giving any 32-bit fields, or none; three ways of adding", [""]),
            J("fs", "h_c22_size", "a file of 1-5 (1-8) bytes that has 0-7 (0-11) arbitrary bytes when read; files that cannot be opened at first; a suspension and a short read at any operation; 4 buffer sizes", ["0"], ["1"], reach=["mismatch", "not opened", "end"]),
            J("fs", "h_c22_seek", "two files and a link, CRCs preset or not; two seeks and reads; a suspension (2) and a failing read or seek at any operation", ["0"], ["1,*2"]),
            J("fs", "h_c22_long", "files of 3 (thorough 8) lengths from 8193 to 200000 (4300000) bytes, symlink targets of 1023, 1024 and 4095 bytes; 4 buffer sizes, 0 or 3 suspensions of every piece of work, reads of at most 1500 bytes or any number; then 6 seeks", ["0"], ["0", "1,*8"], args=LONG),
            J("fs", "h_c22_huge", "files of 2^32-1, 2^32+3, 2^40+77 and 2^62 bytes, two seeks to 8 places, 3 buffer sizes, 0 or 2 suspensions of every piece of work", ["*4"], args=LONG),
        ],
        "bounds": "see entries; the file system is the same in-memory model",
        "outside": "files changed during a read; tokio's read-ahead buffer larger than the file; real threads of tokio's blocking pool",
    },
    "C23": {
        "jobs": [
            J("core", "h_c23_walk", "4 in-memory entries of 0-4 arbitrary bytes, CRCs preset or not (3 ways); any uniform buffer size (symbolic), any offset (symbolic) after reads, two seeks with reads, clones and taken readers", ["*3,*4"]),
            J("core", "h_c23_kinds", "9 kinds of buffers (vector, box, string, shared, slice, str, cow, array, reference) of 0-3 arbitrary bytes; 2 buffer sizes, a seek", [""]),
            J("core", "h_c23_huge", "in-memory buffers of 2^31+60..2^41 bytes of which the last 120 (symbolic) are touched, any preset CRC (symbolic); 120 positions, with and without a history", ["*5"]),
            J("core", "h_c23_big", "buffers of 8191..20000 bytes (3 symbolic), CRC preset or not, 7 start positions, 3 buffer sizes", [""]),
        ],
        "bounds": "see entries",
    },
}

# properties without a check, and why
NA = {}

import json
P=[]
def p(id,title,statement,over,text,why,files,symbols):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=files[min(i,len(files)-1)] if len(files)==1 else ', '.join(files)) for i,n in enumerate(symbols)],observe_at=['public API of the crate'],hook_needed=None)))
R="src/reader.rs";B="src/builder.rs";S="src/structs.rs";C="src/crc_reader.rs";E="src/entry_data.rs"
p("C01","The stream is a well-formed ZIP64 archive of exactly the added entries",
"For every list of entries, reading from the start to the end yields bytes that a strict reader following the ZIP specification accepts: local records, central directory and end records tile the file with no gap or overlap, and every size, count, offset, length, flag and signature in them is right and mutually consistent. The central directory lists exactly the added entries in insertion order, each with its exact name, and each entry's data is byte for byte what its source supplied. An archive with no entries is a valid empty archive.",
["inputs"],"every number of entries, every set of distinct names, every content, including empty names, empty contents and non-ASCII names",
"The tests read back randomly sampled small archives with a lenient reader that never looks at local headers, data descriptors or the zip64 locator fields; they cannot cover every name/content combination nor the fields that reader ignores.",
[R,B,S],["Reader","Builder::build","ReadState::read","LocalFileHeader","CentralDirectoryHeader"])
p("C02","The announced size is exact at every moment",
"The size a builder announces always equals the size of the reader it would build at that moment, and a reader's announced size never changes and is exactly the number of bytes it delivers before end of file. It is known without opening or reading any entry.",
["inputs","histories"],"every sequence of builder operations (successful and refused additions, removals and replacements through the mutable entry map) and every entry list",
"Tests compare the sizes for sampled lists of successful additions only.",
[B,R],["Builder::size","Reader::size","Builder::build","Builder::get_entries_mut"])
p("C03","Output does not depend on the sizes of the caller's read buffers",
"Whatever sequence of buffer sizes the caller reads with (one byte, zero, boundary-straddling, larger than the archive, already partly filled), the concatenated output is the same bytes. No read with room left in its buffer reports end of file before the announced size is reached, bytes already in the buffer are untouched, and after the end every read reports end of file.",
["schedules","inputs"],"every sequence of read buffer sizes, for every entry list",
"The tests use one constant buffer size per run, sampled from a distribution; a wrong byte at one boundary reached by mixed sizes is not settled.",
[R],["ReadState::read","read_packed_struct","read_str","read_from_staging"])
p("C04","Output does not depend on how sources deliver their data",
"Whatever way entry sources deliver their bytes (split into short reads, suspended any number of times while opening, reading or completing a seek), the output and final state are the same as with sources that answer at once. The reader suspends only when a source it has just polled with the caller's waker suspended and nothing was written by that call, and it never loses or repeats bytes around a suspension.",
["schedules"],"every schedule of suspensions and short reads of the sources, combined with any seeks and buffer sizes",
"No existing test uses a source that suspends or reads short, so none of the re-entry paths is exercised.",
[R,C],["ReadState::read","read_entry_data","get_crc","get_reader","CrcReader::seek"])
p("C05","Random access returns exactly the suffix of the sequential stream",
"After seeking to any offset, from any prior state (mid-header, mid-data, finished, after other seeks), reading yields exactly the bytes of the sequential stream from that offset on. At or beyond the end it yields end of file.",
["histories","inputs"],"every history of reads and seeks, every offset, with CRCs known or not yet known",
"Tests seek once or twice to sampled offsets in sampled archives.",
[R,C,E],["seek_from_start","read_entry_data","Reader::seek_from_start_mut","Reader::seek_from_start_pinned"])
p("C06","The reported position is always the true stream position",
"At every point of every history the position a reader reports equals the target of the last successful seek plus the bytes delivered since, and the next byte delivered is the archive's byte at that position. This includes histories with suspended reads, failed reads and zero-length reads.",
["histories","schedules","fault_sequences"],"every history of reads, seeks, suspensions and source failures",
"Tests check the position after fixed sequences with sources that never suspend or fail.",
[R],["Reader::tell","ReadState::read"])
p("C07","Seek targets are resolved exactly",
"Seeking from the start, the current position or the end lands on exactly base plus offset for every 64-bit offset; a target before the start is refused with an InvalidInput error and leaves the position, and the bytes read next, unchanged. A target beyond the end is accepted, reported by the position, and reads as end of file; a target beyond 64 bits never silently wraps.",
["inputs","histories"],"every seek form and 64-bit offset from every position",
"Tests try a few sampled offsets of each form.",
[R],["AsyncSeek for Reader","seek_from_start"])
p("C08","Every CRC written is the CRC-32 of the entry's data",
"Unless a CRC was preset, every CRC the archive stream carries (data descriptor and central directory) and every CRC the reader reports is the CRC-32 of that entry's full data, whatever history of partial reads, seeks and suspensions preceded it. A CRC is reported only for entries of the archive, under their names, and once known never changes.",
["histories","inputs","schedules"],"every content and every history of partial reads and seeks before the CRC is needed",
"Tests compute CRCs on a handful of read orders; a partially hashed or stale CRC needs a specific seek/read combination.",
[R,C],["get_crc","CrcReader::get_crc32","Reader::crc32s","read_entry_data"])
p("C09","A preset CRC is used as given and checked when the data is read through",
"A correct preset CRC leaves every output byte the same as without it, for any read and seek history, and makes it unnecessary to read data that is seeked over. A wrong preset CRC of an entry that is not empty is reported as a CRC mismatch error naming the entry, the preset and the actual value when the entry is read sequentially from its start, before anything after its data is delivered.",
["inputs","histories"],"every content, every preset value, every history",
"Tests use a few contents with right or wrong values and one read order.",
[R,B],["BuilderEntry::crc32","read_entry_data","ReadError::Crc32Mismatch"])
p("C10","A source whose length differs from its announced size is detected",
"When an archive is read sequentially, an entry that announced a size other than zero and whose source delivers fewer or more bytes makes the read fail, and keep failing when repeated, with a size mismatch error naming the entry, the announced and the actual size; nothing after that entry's data is ever delivered. An entry whose source is exactly as long as announced never produces that error.",
["inputs","schedules"],"every announced and actual size, every split into reads",
"Tests cover one or two fixed size pairs.",
[R],["ReadError::SizeMismatch","read_entry_data"])
p("C11","Offsets and sizes are exact over the whole 64-bit range",
"For entries of any announced 64-bit size whose archive fits in 64 bits, the announced archive size and every offset and size in local records, data descriptors, central directory and end records are the exact values, never truncated, wrapped or capped, and seeking into any region of such an archive lands on the right bytes.",
["inputs"],"every combination of 64-bit entry sizes whose total fits in 64 bits",
"Tests cannot materialise multi-gigabyte archives for more than a fixed size; no test varies sizes over the 64-bit range.",
[B,R,S],["Builder::build","Builder::add_entry","Zip64ExtraField","Zip64EndOfCentralDirectoryRecord","seek_from_start"])
p("C12","Impossible additions are refused and change nothing",
"Adding an entry fails exactly when its name is longer than 65535 bytes, its name is already present, or the archive would exceed 64-bit size; the error says which and names the entry. A refused addition leaves the builder as it was: same entries, same metadata, same announced size, same archive.",
["inputs","histories"],"every name, size and history of additions",
"Tests try one example of each refusal and do not check the builder afterwards.",
[B],["Builder::add_entry","AddEntryError"])
p("C13","Sources are opened and read only when their bytes are needed",
"Building, sizing and seeking open no source; an entry of announced size zero is never opened; a sequential read opens each other entry exactly once and reads it to its end once. An entry is opened only when the requested range reaches its data, or its CRC is needed and not known, and once its CRC is known it is not reopened for the CRC.",
["histories","inputs"],"every history of reads, seeks, clones and moves",
"No test counts openings of sources.",
[R],["get_reader","get_crc","read_entry_data","Chunk"])
p("C14","Modification times are stored exactly or as the documented default",
"A date and time set from fields, calendar types or system time is stored in both headers as exactly that moment rounded down to an even second, when it is within 1980-01-01 to 2107-12-31 with valid fields; otherwise the strict setters report failure and leave the entry unchanged, and the or-default setters store 1980-01-01 00:00:00, which is also stored when no time was ever set. System times use the converter that was set on the builder when the entry was added, and nothing else.",
["inputs","histories"],"every combination of field values over their full integer ranges and every sequence of setter calls",
"Tests round-trip sampled valid dates through the internal type and a few fixed invalid ones; combinations of setters and the encoding in the headers are not covered.",
[B,S],["BuilderEntry::datetime_fields","datetime_fields_or_default","datetime_system","datetime_system_or_default","datetime","datetime_or_default","DosDatetime"])
p("C15","File type and permissions are encoded exactly",
"For every sequence of type and permission settings the external attributes stored for the entry encode exactly the last type set (file by default) and the last permissions set, masked to the low nine bits, with the documented defaults, read-only and read-write variants, and all permissions ignored for symlinks. No other field of the archive is affected by them.",
["inputs","histories"],"every 32-bit permission value and every sequence of setter calls",
"Tests check a few fixed values.",
[B],["get_external_attributes","unix_permissions","permissions","readonly","file","directory","symlink"])
p("C16","Clones and taken readers continue exactly where the original was",
"A clone of a reader, and a reader taken out of a pinned one, have the same position and size, keep known CRCs and deliver exactly the remaining bytes of the original, at any point of any history including suspended or failed operations. Using one never affects the other, and the pinned reader something was taken from becomes an empty valid archive positioned at its start.",
["histories","schedules"],"every point of every history at which a reader is cloned or taken",
"Tests clone at a few sampled positions and take only in the web adapter test.",
[R],["Reader::clone","Reader::take_pinned","Reader::new_empty_file"])
p("C17","Source failures surface and never corrupt the stream",
"A failure of a source while opening, reading or seeking is returned to the caller as that error, exactly once per failure, never swallowed and never turned into a panic, hang or end of file. Bytes delivered before it are right, and reading again after the source recovered, or after a seek, delivers the right bytes from the reported position on.",
["fault_sequences","histories"],"every position and kind of source failure, followed by every continuation",
"No test uses a failing source.",
[R,C],["get_reader","get_crc","read_entry_data","CrcReader"])
p("C18","The byte-chunk stream delivers exactly the archive",
"The chunks yielded by a byte stream made from a reader concatenate to exactly what the reader would have delivered from its position, with no empty chunk, suspending only when a source suspends, passing errors through, and ending exactly once at the end. This holds at every point for its clones and for the reader taken back out of it.",
["schedules","histories"],"every archive, source schedule, starting position and point of cloning or unwrapping",
"Tests compare one fixed shape of stream from the start, never cloned, suspended or resumed.",
["src/bytes.rs"],["BytesStream","Reader::into_bytes_stream"])
p("C19","HTTP responses describe exactly the range they carry",
"Without a Range header the response is 200 with the full length. A plain satisfiable range (first-last, first-, or a suffix no longer than the archive) gives 206 (200 if it covers the whole archive) whose Content-Range and Content-Length describe exactly the requested bytes clipped to the archive; a range starting beyond the end gives 416 with the archive size, and a value without bytes= or with illegal characters or dashes 400, both without body. For every other value the response is also one of these and self-consistent (the body is exactly the bytes announced), and no value causes a panic.",
["inputs"],"every Range header value and archive",
"Tests try a handful of header strings.",
["src/actix_web.rs"],["ActixWebAdapter::respond_to","Reader::into_responder"])
p("C20","HTTP bodies deliver exactly the announced bytes and hand the reader back",
"A response body announces its exact length, delivers exactly that many bytes and then ends, whatever the schedule of the sources, never beyond the range, and passes source errors through. When a body or an unused adapter is dropped at any point, the channel (if asked for) receives a reader with the CRCs known so far and the position reached, and nothing fails if the receiver is gone.",
["schedules","histories","crash_points"],"every range, source schedule, and point at which the response is dropped",
"Tests drop at a fixed point and use sources that never suspend.",
["src/actix_web.rs"],["Body","Inner","into_responder_with_channel"])
p("C21","Entry names for filesystem objects mirror the directory tree",
"Adding a single filesystem object yields a name with exactly one trailing slash if it is a directory and none otherwise. Adding a directory recursively yields exactly one entry for every object below it, named by its path relative to that directory under the normalised root name (if given), plus the root itself when a root name is given; symlinks are added as symlinks and never followed. A failure while listing or examining an object makes the addition fail with that error.",
["inputs","fault_sequences"],"every name and every directory tree",
"Tests use a few fixed trees and names.",
["src/filesystem_entry.rs"],["sanitize_entry_name_slashes","make_entry_name","Builder::add_directory_recursive","Builder::add_filesystem_entry"])
p("C22","Filesystem entries carry the object's content, type, mode and time",
"A regular file's entry holds exactly the file's bytes, a symlink's entry its target path, a directory's entry nothing, each with the object's type, permission bits and modification time. A file, not empty when added, that shrank or grew since makes a sequential read fail with a size mismatch, and a file that cannot be opened surfaces the error.",
["inputs","fault_sequences"],"every file content, link target, mode, modification time and change after being added",
"Tests use a few fixed files and never change them after adding.",
["src/filesystem_entry.rs",B],["FilesystemEntry","EntryType","BuilderEntry::metadata"])
p("C23","Entries held in memory are exactly their bytes",
"An entry made from anything that is a buffer of bytes (slice, array, vector, string, boxed, shared or borrowed-or-owned buffer) announces exactly the buffer's length, delivers exactly its bytes, never suspends and never fails. Its archive is byte for byte the one of any other source with the same name, content and settings, under every buffer size, seek, clone and known or unknown CRC.",
["inputs","histories"],"every content and kind of buffer, every history of reads, seeks and clones",
"Tests use sampled contents of vectors and a handful of fixed seeks.",
[E],["AsRefReader","EntryData for AsRef<[u8]>"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")

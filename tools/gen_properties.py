#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Written channel data reads back exactly",
 "After any sequence of channel-data and property writes, syncs and reads on a newly created file, each channel's length is the total number of samples written to it, and reading it in the same session returns every sample bit for bit in write order. This holds for every numeric, boolean, complex, extended and timestamp type, for both layouts, and for any alternation of channels, channel order, sample counts, types and layouts between writes.",
 ["histories", "inputs"], "every history of writes/reads/syncs/new writers on one file, every supported type, layout, count and bit pattern",
 "The tests write one to three fixed segments of small f64/f32/i32 arrays; the interesting failures need a particular sequence (same channels with a new count, a prefix of the live list, a type change, a 10- or 16-byte type).",
 ["src/file/file_writer.rs", "src/file/channel_reader.rs", "src/index/writing.rs", "src/index/building.rs", "src/raw_data/mod.rs", "src/raw_data/write.rs", "src/io/writer.rs"],
 [("segment writer", "src/io/writer.rs write_segment"), ("metadata elision when the object list is live", "src/index/writing.rs check_write_values"), ("index update", "src/index/building.rs add_segment"), ("read plan", "src/file/channel_reader.rs")],
 ["values filled by channel reads", "reported channel length"],
 [dict(name="live object list", meaning="channels expected in the next raw data block, in order", where="src/index/mod.rs active_objects")])

prop("C02", "Reopening shows exactly what was written",
 "Closing a file and opening its bytes again yields exactly the view the writing session had: the same groups, channels, channel lengths, samples, objects, property names and property values. This holds for every history of data and property writes, including repeated writes that do not change the object list.",
 ["histories", "inputs"], "every history of writes, then a fresh open of the resulting bytes",
 "The tests reopen after one or two hand-picked writes; the reader's and writer's in-memory indexes are built by different code paths and can disagree only for particular sequences of segments.",
 ["src/file/mod.rs", "src/file/file_writer.rs", "src/io/reader.rs", "src/meta_data.rs", "src/index/building.rs", "src/index/writing.rs"],
 [("segment parsing", "src/meta_data.rs Segment::read, src/io/reader.rs read_segment"), ("index rebuild", "src/file/mod.rs build_index")],
 ["listings, lengths, samples and properties after a fresh open"])

prop("C03", "Appending preserves and extends an existing file",
 "Opening an existing well-formed file, whether this library or another TDMS producer wrote it (either byte order, either layout), and appending channel data or properties keeps everything that was readable before and adds exactly the new content. The combined content is visible both in that session and after reopening, over any number of open-append-close rounds.",
 ["histories", "inputs"], "every well-formed starting file x every history of append sessions",
 "Only one test appends to a reopened file; the writer inherits the live object list and formats from a file it did not write, so the failing combinations are products of foreign encodings and write histories.",
 ["src/file/mod.rs", "src/file/file_writer.rs", "src/index/writing.rs", "src/index/building.rs"],
 [("seek to end before writing", "src/file/mod.rs writer"), ("format and live list carried over", "src/index/writing.rs check_write_values")],
 ["view after each round, in session and after reopen"])

prop("C04", "Any valid encoding of the same content reads the same",
 "A well-formed TDMS file from any producer reads as the content it encodes: every sample, channel length, group, channel and property is what the file says, with properties and later values overriding earlier ones. The result does not depend on byte order, interleaved or contiguous layout, how data is split into segments and chunks, whether object lists and raw-data descriptions are restated, matched to previous or inherited, whether a segment carries metadata at all, or the presence of other channels, including string channels and unit-carrying float types.",
 ["inputs", "programs"], "every well-formed file in the supported subset (equal channel lengths within a segment, no DAQmx, and no channel that was listed without data and then gains data while the list is inherited, where readers disagree on its position)",
 "The tests decode a handful of small fixed byte buffers and one sample file; big-endian, multi-chunk, inherited-list and mixed-type combinations multiply far beyond them.",
 ["src/meta_data.rs", "src/io/reader.rs", "src/index/building.rs", "src/raw_data/mod.rs", "src/raw_data/records.rs", "src/raw_data/contigious_multi_channel_read.rs", "src/raw_data/interleaved_multi_channel_read.rs", "src/io/data_types/mod.rs"],
 [("lead-in and metadata parsing", "src/meta_data.rs"), ("live list rules", "src/index/building.rs add_segment"), ("chunk arithmetic", "src/raw_data/mod.rs number_of_chunks"), ("record plan", "src/raw_data/records.rs")],
 ["complete view of the opened file"])

prop("C05", "Offset reads return exactly the requested window",
 "Reading a channel from any start sample into a buffer of any length fills the buffer with exactly the samples from that start onwards and leaves the part of the buffer beyond the channel's end untouched, without error. This is the same data a read from the beginning shows at those positions, whatever segments, chunks, layouts and byte orders the window crosses, and a start at or past the end reads nothing.",
 ["inputs"], "every file x channel x start x buffer length",
 "The offset tests use two or three blocks with a few fixed starts; off-by-one and multi-chunk skip errors appear only for starts and lengths aligned specially to chunk and block boundaries.",
 ["src/file/channel_reader.rs", "src/raw_data/contigious_multi_channel_read.rs", "src/raw_data/interleaved_multi_channel_read.rs"],
 [("block skipping", "src/file/channel_reader.rs read_plan"), ("skip inside a block", "src/raw_data/*_multi_channel_read.rs")],
 ["buffer contents, including the untouched tail"])

prop("C06", "Multi-channel reads equal independent reads",
 "Reading several channels in one call gives each buffer exactly what a separate read of its channel with the same start and buffer length gives. This holds whatever the order of the channels, whether or not a channel is named more than once, whatever the lengths of the buffers (equal or not, empty, or longer than the channel), the start, and whichever segments, chunks and layouts each channel's data lies in.",
 ["inputs"], "every file x ordered subset of channels x buffer lengths x start",
 "The tests read two or three channels with equal buffers in file order; the failures need unequal progress between channels, a request order different from the file order, or a start that falls at different places per channel.",
 ["src/file/channel_reader.rs", "src/raw_data/mod.rs", "src/raw_data/contigious_multi_channel_read.rs", "src/raw_data/interleaved_multi_channel_read.rs", "src/raw_data/records.rs"],
 [("per-channel progress", "src/file/channel_reader.rs execute_read_plan"), ("per-channel skip", "src/raw_data/mod.rs read_with_per_channel_skip")],
 ["all output buffers"])

prop("C07", "The last written value of every property wins",
 "For the file, any group and any channel, reading a property returns the value last written to that name on that object with its exact type and bits, a name never written is reported as absent, and enumerating an object's properties gives exactly the names written to it. Properties of different objects never affect each other, property writes never change channel data, and data writes never change properties, in the session and after reopening.",
 ["histories", "inputs"], "every history of property and data writes over all objects, names and value types",
 "The tests set one or two properties per object once; overwrites with a different type, interleaving with data segments, and unusual names/strings are not reached.",
 ["src/index/mod.rs", "src/properties.rs", "src/file/file_writer.rs", "src/file/mod.rs", "src/meta_data.rs"],
 [("property merge", "src/index/mod.rs ObjectData::update"), ("property encoding", "src/properties.rs")],
 ["single property reads and enumeration"])

prop("C08", "Listings show exactly the groups and channels present",
 "Listing groups returns each group that was written, directly or through one of its channels, exactly once and nothing else; listing a group's channels returns exactly that group's channels, never those of another group with a similar name. Every listed channel can be used as given to read its length, data and properties, and every listed group can be used by its name (or by its path, where another producer stored a single quote in it) to list its channels and read its properties.",
 ["inputs", "histories"], "every set of group/channel names (prefixes of each other, quotes, slashes, empty, unicode) and every write history",
 "The tests list two plain group names; the listing parses paths as text, so its failures are in particular names and pairs of names.",
 ["src/file/mod.rs", "src/index/querying.rs", "src/paths.rs"],
 [("prefix range scan", "src/index/querying.rs paths_starting_with"), ("path parsing", "src/paths.rs parse_path")],
 ["group and channel listings and reads through them"])

prop("C09", "Object paths and names convert both ways without loss",
 "A path built from a group name and a channel name reports those names back and is a channel path exactly when a channel name was given, for every name including empty ones and ones containing slashes or any unicode (single quotes being replaced by double quotes, as documented). Converting a well-formed path text (quotes inside names doubled) to a path and back gives the same text, and any text that is not a well-formed object path, such as one with a lone quote inside a name, is refused with an error, never with a panic.",
 ["inputs"], "all strings as names and as path texts",
 "Tests use names without separators; conversion is text parsing over arbitrary strings.",
 ["src/paths.rs"],
 [("escaping and parsing", "src/paths.rs")],
 ["path text, group and channel names, conversion results"])

prop("C10", "Any byte sequence is opened or refused without panic or runaway",
 "Opening any byte sequence as a TDMS file, and then listing, measuring and reading whatever it claims to contain with any start and buffer length, never panics or overflows and never does an amount of reading and seeking out of proportion to the file and the request. The outcome is either an error or a usable file whose answers are deterministic.",
 ["inputs"], "all byte sequences, in particular structured mutations of valid files, x all read requests",
 "Unit tests cover a few hand-made corrupt headers; the space is every length/count/offset field in combination, and reads after a successful open are not covered.",
 ["src/meta_data.rs", "src/index/building.rs", "src/raw_data/mod.rs", "src/raw_data/contigious_multi_channel_read.rs", "src/raw_data/interleaved_multi_channel_read.rs", "src/paths.rs", "src/io/data_types/strings.rs", "src/file/mod.rs"],
 [("checked arithmetic and fallible allocation", "src/index/building.rs, src/raw_data/mod.rs, src/io/reader.rs")],
 ["absence of panics", "number of stream operations"])

prop("C11", "A file cut short at any byte never yields wrong data",
 "If a file is cut at any byte (a crash or partial copy), opening and reading it either reports an error or returns only samples and properties that the complete file has at the same places, and never panics. When the cut falls at a segment boundary or inside sample data, the file opens and everything in the complete segments before the cut is still readable; appending to a file whose last segment is incomplete is either refused or leaves all of that intact and the new data readable.",
 ["crash_points", "histories"], "every write history x every cut position x every subsequent read or append",
 "No test truncates a file; the property quantifies over every byte position of every file.",
 ["src/file/mod.rs", "src/meta_data.rs", "src/file/channel_reader.rs", "src/io/reader.rs"],
 [("end-of-file detection", "src/meta_data.rs Segment::read"), ("append position", "src/file/mod.rs writer")],
 ["result of open, listings, reads and appends on the cut file"])

prop("C12", "Every emitted file conforms to the TDMS format",
 "Whatever sequence of writes is made, the bytes produced are a chain of segments that an independent strict TDMS parser accepts: correct tags and version, contents flags that match what each segment holds, offsets that agree with the actual metadata and data sizes, complete object and property encodings with correct type codes, and raw data whose size matches the declared types and counts. The parser recovers exactly the objects, properties and samples written.",
 ["histories", "inputs"], "every history of writes; the emitted bytes are decoded by an independent parser",
 "Tests compare the writer's output with this library's own reader, or with one or two fixed byte dumps; a mistake shared by writer and reader is invisible to them.",
 ["src/io/writer.rs", "src/meta_data.rs", "src/properties.rs", "src/file/file_writer.rs", "src/io/data_types/mod.rs"],
 [("segment emission", "src/io/writer.rs write_segment"), ("declared sizes", "src/meta_data.rs size, src/raw_data/write.rs size")],
 ["emitted bytes"])

prop("C13", "Channel data is only ever read as its stored type",
 "Reading samples into a buffer of a type that is not a storage type for the channel's stored type fails with a type-mismatch error and never delivers reinterpreted values; reading with a supported type succeeds, including booleans from unsigned bytes and plain floats from unit-carrying floats. When a channel's type changes during its history, reads confined to samples of a compatible type succeed and reads reaching incompatible samples fail.",
 ["inputs", "histories"], "all pairs of stored type and requested type, all positions within mixed-type histories, both layouts and byte orders",
 "Tests check one mismatching pair.",
 ["src/raw_data/records.rs", "src/io/data_types/mod.rs", "src/io/data_types/bool.rs", "src/io/data_types/native_numerics.rs"],
 [("type validation", "src/raw_data/records.rs validate_types_match")],
 ["result of channel reads"])

prop("C14", "A refused call changes nothing",
 "A write that is refused because of its arguments (no channels, a channel named twice, a sample count that does not divide evenly among the channels, no samples, a type that cannot be stored as channel data) returns an error and leaves the file's bytes and everything visible through the file unchanged, so that later writes and reads behave as if it had not been made. A read that is refused (unknown channel or object, incompatible type) likewise changes nothing.",
 ["histories", "inputs"], "every history with refused calls inserted anywhere, compared with the same history without them",
 "Tests check that an error is returned for one case; they do not look at the file or at later calls.",
 ["src/file/file_writer.rs", "src/raw_data/write.rs", "src/index/building.rs", "src/file/channel_reader.rs"],
 [("argument validation before emission", "src/file/file_writer.rs DataStreamWriter::new")],
 ["returned errors", "emitted bytes and view compared with the history without the refused calls"])

prop("C15", "Synced or closed data is in the file and writes only append",
 "Once sync returns or the writer is dropped, the underlying stream holds everything written so far, so that opening a copy of its bytes shows all of it. Writing only ever appends after the existing bytes, and opening, listing and reading never modify the stream.",
 ["histories", "crash_points"], "every history; the stream's bytes are snapshotted at every sync, drop and read",
 "Tests read back through the same object after the writer is gone; none inspects the stream's bytes at sync points or checks that existing bytes survive.",
 ["src/io/writer.rs", "src/file/file_writer.rs", "src/file/mod.rs"],
 [("flush on sync and drop", "src/io/writer.rs sync"), ("seek to end", "src/file/mod.rs writer")],
 ["stream bytes and write calls"])

prop("C16", "Stream read errors are reported and leave the file usable",
 "If the underlying stream fails during an open or a read, the call returns an error and never data presented as successfully read, an index silently missing segments, or a panic. After the stream recovers the same call on the same file succeeds with the correct result, and streams that deliver bytes in arbitrarily small pieces or are interrupted give the same results as ordinary ones.",
 ["fault_sequences", "inputs"], "every file x every stream operation as failure point x every chopping of reads",
 "All tests use in-memory cursors that never fail and never return short reads.",
 ["src/file/mod.rs", "src/meta_data.rs", "src/io/reader.rs", "src/file/channel_reader.rs"],
 [("error propagation", "src/file/mod.rs build_index, src/io/reader.rs")],
 ["results under injected faults, results after retry"])

prop("C17", "Stream write errors never corrupt earlier data silently",
 "If the underlying stream fails or accepts only part of a write, then as long as every write and the final sync report success all of the data is in the file; otherwise some call reports an error. Everything synced before the failure stays readable from the stream's bytes up to that sync, and after a failed write further appends to that file are either refused or leave a file that reopens with all acknowledged content correct.",
 ["fault_sequences", "histories"], "every write history x every stream operation as failure point, transient or permanent, with short writes",
 "No test injects write failures.",
 ["src/io/writer.rs", "src/file/file_writer.rs", "src/file/mod.rs"],
 [("buffered writer error propagation", "src/io/writer.rs"), ("append position", "src/file/mod.rs writer")],
 ["call results and stream bytes under injected faults"])

prop("C18", "Every value encoding round-trips and matches its declared size",
 "For every storable value type, encoding a value in little- or big-endian form produces exactly the declared number of bytes, the two forms are the NI-specified byte layouts of the same value, and decoding gives the value back bit for bit. Decoding from too few bytes and encoding into too little room are errors, decoding consumes exactly the encoded bytes, and each data-type code and per-sample size is the one the TDMS format defines.",
 ["inputs"], "all bit patterns of all value types, both byte orders, all truncation lengths",
 "Tests check one constant per type.",
 ["src/io/data_types/mod.rs", "src/io/data_types/native_numerics.rs", "src/io/data_types/complex.rs", "src/io/data_types/extended.rs", "src/io/data_types/timestamp.rs", "src/io/data_types/strings.rs", "src/io/data_types/bool.rs"],
 [("TdmsStorageType implementations", "src/io/data_types")],
 ["encoded bytes, decoded values, sizes"])

prop("C19", "Property values convert to and from native types without loss",
 "Converting a native value to a property value and back returns the identical value, by value and by reference, and converting a property value to any other native type is refused with a mismatch naming both types. Calendar times, also those before 1904, convert to timestamps and back within a microsecond, every timestamp converts to the calendar time it stands for within a microsecond or, when no calendar time exists for it, is refused with an error, and every property value survives being written and read back in either byte order with its type.",
 ["inputs"], "all values of all property types x all target types, calendar times over centuries",
 "Tests check one value per type and one current time rounded to a second.",
 ["src/properties.rs", "src/io/data_types/timestamp.rs"],
 [("conversion macros", "src/properties.rs")],
 ["conversion results"])

prop("C20", "Reads touch only the parts of the file they need",
 "Opening a file reads its headers and metadata but not its sample data, so the cost of opening does not grow with the amount of sample data. Reading a window of a channel reads nothing from data blocks that lie entirely before or after the window, apart from fixed-size read-ahead.",
 ["inputs"], "every file x window; bytes and operations on the stream are counted against a bound with read-ahead slack",
 "The documentation promises block skipping; tests only check values, which are the same if everything is read.",
 ["src/file/mod.rs", "src/file/channel_reader.rs", "src/raw_data/contigious_multi_channel_read.rs", "src/raw_data/interleaved_multi_channel_read.rs"],
 [("seek to next segment", "src/file/mod.rs build_index"), ("block skipping", "src/file/channel_reader.rs read_plan")],
 ["byte ranges and operation counts seen by the stream"])

prop("C21", "Structurally invalid files are refused when opened",
 "Opening a file with a structural contradiction reports an error rather than a partial or guessed result: a wrong tag at any segment start, raw data declared without any data channel or with zero length, a reference to a previous description that does not exist, a data offset beyond the segment end (with or without data in the segment), an unknown data type or invalid text in the metadata, a segment address that overflows, or DAQmx data, which is not supported. The same holds wherever in the file and in whichever byte order the contradiction occurs.",
 ["inputs"], "every valid file x every structural corruption x every position and byte order",
 "Tests check some corruptions in the first segment of a fixed little-endian buffer.",
 ["src/meta_data.rs", "src/index/building.rs", "src/raw_data/mod.rs", "src/file/mod.rs", "src/error.rs"],
 [("validation while indexing", "src/meta_data.rs, src/index/building.rs add_segment, src/raw_data/mod.rs from_segment")],
 ["result of opening"])

prop("C22", "Disk files behave exactly like in-memory streams",
 "Creating a file on disk replaces whatever was there with an empty TDMS file, loading never changes a file's bytes and fails for a missing file without creating it, and any history of operations gives on disk the same bytes and results as on an in-memory stream. Two loads of the same file see the same content.",
 ["histories", "inputs"], "every history x {disk, memory}, every pre-existing file content",
 "Tests use temporary files for one or two simple cases.",
 ["src/file/mod.rs"],
 [("open options", "src/file/mod.rs TdmsFile::load, TdmsFile::create")],
 ["disk bytes and results compared with the in-memory run"])

prop("C23", "False size claims never exhaust memory or end the process",
 "Opening a well-formed file needs memory in proportion to its size. Whatever lengths or counts a file claims for its names, texts, properties, objects or samples, opening it, and listing, measuring and reading what it opens to, never aborts the process: when the memory for a claimed size cannot be had, opening reports an error. Reading samples needs no memory that grows with what the file claims.",
 ["inputs", "fault_sequences"], "every file x every false length or count, under a memory limit",
 "Tests do not limit memory; the library's error variants for failed allocations are never reached by them.",
 ["src/io/reader.rs", "src/io/data_types/strings.rs", "src/meta_data.rs", "src/file/channel_reader.rs", "src/index/building.rs"],
 [("fallible reservations", "src/io/reader.rs read_vec, src/io/data_types/strings.rs read_string_with_length, src/meta_data.rs")],
 ["result of each call under a memory limit; survival of the process"])

prop("C24", "Writing adds no more to the file than the format needs",
 "Writing the same channels again with the same type and sample count, with or without property writes, syncs, reads or reopening in between, adds exactly one 28-byte segment header and the samples. Any other channel write adds at most a header, one description of each channel named in the call, and the samples; a property write adds at most a header and the one object with those properties, and a sync adds nothing. None of this depends on what else the file holds.",
 ["histories"], "every history of writes, growth of the stream measured at every operation",
 "Tests compare a few fixed write sequences with expected metadata; the growth of a long recording is never measured.",
 ["src/file/file_writer.rs", "src/index/writing.rs", "src/io/writer.rs"],
 [("leaving out or shortening metadata", "src/index/writing.rs check_write_values, src/file/file_writer.rs DataStreamWriter::new")],
 ["stream length before and after each operation"])

prop("C25", "File bytes depend only on the sequence of writes",
 "Two runs of the same channel and property writes on the same starting content leave the same bytes. Syncing, reading, listing, taking a new writer, or closing and reopening the file between the writes does not change them, nor does where the stream was positioned when it was opened or whether it accepts writes in pieces.",
 ["histories", "schedules"], "every history of writes x every way of interrupting it",
 "Tests write each file in one way only.",
 ["src/file/file_writer.rs", "src/file/mod.rs", "src/index/building.rs", "src/index/writing.rs", "src/io/writer.rs"],
 [("state rebuilt on open equals state kept while writing", "src/index/building.rs add_segment"), ("writer starts at the end", "src/file/mod.rs writer")],
 ["final bytes of paired runs"])

prop("C26", "Files beyond 4 GiB and large counts are handled exactly",
 "Channel lengths, window reads and appends are exact whatever the file's size: for positions, sample counts and chunk counts beyond 32 bits, and for thousands of channels, segments and properties or names and texts of millions of bytes. Text longer than its length field can express is refused before anything is written. The number of stream operations of a read does not grow with the amount of data before its window.",
 ["inputs", "histories"], "every segment layout with sizes up to 2^52 bytes, every window and append; every count of objects that fits in memory",
 "Tests use files of a few kilobytes; sizes and offsets that overflow 32 bits never occur.",
 ["src/raw_data/contigious_multi_channel_read.rs", "src/raw_data/interleaved_multi_channel_read.rs", "src/raw_data/mod.rs", "src/raw_data/records.rs", "src/file/channel_reader.rs", "src/index/building.rs", "src/file/mod.rs", "src/file/file_writer.rs"],
 [("offset arithmetic", "src/raw_data/*, src/file/channel_reader.rs"), ("append position", "src/file/mod.rs writer, src/index/building.rs next_segment_start")],
 ["lengths, samples, stream positions and operation counts"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

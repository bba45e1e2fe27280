#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None):
    d={"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}}
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80, (id,len(title))
    P.append(d)
A="src/"
p("C01","Boot sector accepted exactly when valid; geometry follows from it",
  "Opening a volume succeeds exactly when its boot sector carries the 0x55AA signature, a power-of-two sector size of 512..4096 bytes, a power-of-two number of sectors per cluster giving at most 2 MiB, a file record size given as a cluster count or as an exponent of 10..12, and a non-zero MFT start, and none of the resulting values overflows. On success the reported sector size, cluster size, volume size, serial number, file record size and MFT byte position are those the on-disk fields denote, including the negated exponent encodings; otherwise an error is returned.",
  ["inputs"],"every 512-byte boot sector image",
  "The tests open one image made by mkntfs; the sector/cluster/record encodings form a space of 2^64 combinations with two's complement exponents and overflow corners.",
  [A+"boot_sector.rs",A+"ntfs.rs"],[("size decoding and validation","src/boot_sector.rs BiosParameterBlock"),("volume construction","src/ntfs.rs Ntfs::new")],["Ntfs::new","Ntfs::{sector_size,cluster_size,size,serial_number,file_record_size,mft_position}"])
p("C02","Update sequence fixup restores exactly the protected sector tails",
  "A multi-sector record is accepted only if every protected sector ends with the update sequence number, and then exactly the last two bytes of each such sector are replaced by the corresponding array entry while all other bytes stay as they are on disk. A record with an inconsistent count, an array outside the record or a mismatching sector tail is rejected with an error.",
  ["inputs"],"every record size, update sequence offset/count and record content",
  "The test image contains only intact records of one size; torn-write mismatches and hostile counts/offsets never occur in it.",
  [A+"record.rs"],[("fixup","src/record.rs Record::fixup")],["Ntfs::file","NtfsIndexAllocation::record_from_vcn"])
p("C03","File lookup by record number returns that record or an error",
  "Looking up record number n yields the file record stored in bytes [n*size, (n+1)*size) of the master file table's data - wherever its fragments lie - after fixup, with its header fields and flags reported as on disk. A number beyond the table, a wrong signature, or sizes that don't fit the record are errors.",
  ["inputs"],"every record number, MFT fragmentation and record content",
  "Tests look up a handful of fixed low record numbers in an unfragmented MFT; fragment boundaries, large numbers and corrupted headers are never reached.",
  [A+"ntfs.rs",A+"file.rs",A+"record.rs"],[("record lookup","src/ntfs.rs Ntfs::file"),("header validation","src/file.rs NtfsFile::{new,validate_signature,validate_sizes}")],["Ntfs::file","NtfsFile getters"])
p("C04","Data run lists decode to exactly the extents they encode",
  "For every encoded run list the iterator yields, in order, exactly the runs the bytes denote: length, absolute location as the sum of all signed deltas, sparse runs for absent locations, stopping at the terminator. Malformed or overflowing encodings produce an error at the run concerned, never a wrong extent, and repeated calls after an error report the error again.",
  ["inputs"],"every byte string used as a run list and every cluster size",
  "Tests see a few run lists with one- to three-byte fields; sign extension at every width, negative deltas, 8-byte fields and overflow boundaries need all inputs.",
  [A+"attribute_value/non_resident.rs"],[("run decoding","src/attribute_value/non_resident.rs NtfsDataRuns::next, read_variable_length_*"),("run construction","NtfsDataRun::new")],["NtfsNonResidentAttributeValue::data_runs"])
p("C05","Non-resident reads return the mapped bytes for any read/seek history",
  "After any sequence of reads and seeks, successful or failed, a read of a non-resident value at position p returns a non-empty prefix of the value's bytes from p on (empty only at the end or for an empty buffer) and advances the position by exactly that many bytes. The value's bytes are the device bytes of its runs in order, zeros for sparse runs, cut to the data size.",
  ["inputs","histories"],"every run list, data size, device content and every sequence of read sizes and seek targets",
  "Tests do one read/seek script on one fragmented and one sparse file; state carried across run boundaries, backward seeks and errors depends on the history.",
  [A+"attribute_value/non_resident.rs"],[("read and run switching","src/attribute_value/non_resident.rs StreamState, NtfsNonResidentAttributeValue::read, NtfsDataRun::read")],["NtfsAttributeValue::read/seek","NtfsNonResidentAttributeValue"])
p("C06","All value readers follow standard seek semantics",
  "For every value reader, seeking from start, end or current position moves to exactly the requested absolute position - including positions beyond the end, where reads return nothing - and reports it. A target before zero or beyond the 64-bit range is an error that leaves the position unchanged.",
  ["inputs","histories"],"every reader kind, length, current position and 64-bit seek operand",
  "Tests seek within and at the edge of three values; i64/u64 extremes and failing seeks followed by reads are not sampled.",
  [A+"attribute_value/mod.rs",A+"attribute_value/resident.rs",A+"attribute_value/non_resident.rs",A+"attribute_value/attribute_list_non_resident.rs"],[("seek arithmetic","src/attribute_value/mod.rs seek_contiguous"),("run traversal on seek","src/attribute_value/non_resident.rs")],["NtfsReadSeek::seek on all readers"])
p("C07","Resident reads return the attribute's bytes for any read/seek history",
  "After any sequence of reads and seeks, reading a resident value returns exactly min(buffer, remaining) bytes of the attribute's data from the current position, and advances by that number. Nothing beyond the value's own range in the record is ever returned.",
  ["inputs","histories"],"every resident value and every read/seek sequence",
  "One small resident value is read with a fixed script in the tests.",
  [A+"attribute_value/resident.rs"],[("read","src/attribute_value/resident.rs NtfsResidentAttributeValue::read")],["NtfsAttributeValue::read on resident attributes"])
p("C08","A value split over attribute list entries reads as one contiguous value",
  "When an attribute's data runs are spread over several attribute list entries of the same type and instance, a reader returns the concatenation of all extents' runs, cut to the data size, for any sequence of reads and seeks, and rewinding restarts at the first extent. Entries of other attributes never contribute bytes, and errors in an extent are reported without skipping data.",
  ["inputs","histories"],"every attribute list split into extents and every read/seek sequence",
  "No test image contains an attribute whose extents are split over an attribute list with several connected entries and interleaved others.",
  [A+"attribute_value/attribute_list_non_resident.rs"],[("extent switching","src/attribute_value/attribute_list_non_resident.rs next_attribute/read_next_attribute"),("connection","src/attribute_value/attribute_list_non_resident.rs seek/read")],["NtfsAttributeListNonResidentAttributeValue"])
p("C09","Raw attribute enumeration tiles the used part of a file record",
  "Enumerating a record's raw attributes yields attributes that start at the first-attribute offset and follow each other without gap or overlap, each entirely inside the record, until the end marker. An attribute whose declared length is too short or leaves the record is reported as an error instead of being yielded, and enumeration never runs past the record.",
  ["inputs"],"every file record content",
  "Tests enumerate attributes of intact records only; hostile lengths and offsets at the record's edge are not sampled.",
  [A+"attribute.rs",A+"file.rs"],[("iteration","src/attribute.rs NtfsAttributesRaw::next"),("validation","src/attribute.rs NtfsAttribute::validate_attribute_length")],["NtfsFile::attributes_raw"])
p("C10","Attribute header fields, name and value range are those on disk",
  "For every attribute the reported type, flags, instance, name, residency, value length and data position equal the on-disk header fields, and name and resident value are exactly the bytes at the declared offsets. If a name or value does not lie inside the attribute an error is returned instead of other bytes.",
  ["inputs"],"every attribute header content",
  "Tests read a few attributes written by Windows/mkntfs; header field combinations and out-of-range offsets need all inputs.",
  [A+"attribute.rs"],[("header getters","src/attribute.rs NtfsAttribute"),("range checks","src/attribute.rs validate_name_sizes, validate_resident_sizes")],["NtfsAttribute getters and value"])
p("C11","Flattened attribute enumeration yields every attribute exactly once",
  "The flattened enumeration of a file yields its attributes in order, replaces an attribute list by the attributes of its entries from the respective records, yields an attribute split over connected entries once, and never yields the attribute list itself. Errors while reading a list entry are reported and do not hide other attributes' data silently.",
  ["inputs"],"every file with or without attribute lists, resident or not",
  "The test images hold at most one attribute list shape; entry orders, repeated instances and base-record references are not sampled.",
  [A+"attribute.rs"],[("flattening","src/attribute.rs NtfsAttributes::next, AttributeListConnectedEntries")],["NtfsFile::attributes"])
p("C12","Attribute list entries parse to the values on disk and stay in bounds",
  "Iterating an attribute list yields its entries one after another by their declared lengths, each with the type, start number, file reference, instance and name stored on disk. An entry shorter than its header or extending beyond the list, or a name beyond its entry, is an error.",
  ["inputs"],"every attribute list content, resident or non-resident",
  "No unit test inspects attribute list entries; hostile lengths and names need all inputs.",
  [A+"structured_values/attribute_list.rs"],[("entry parsing","src/structured_values/attribute_list.rs NtfsAttributeListEntry::new, NtfsAttributeListEntries::next")],["NtfsAttributeList::entries"])
p("C13","Index node iteration yields exactly the entries stored in the node",
  "Iterating the entries of an index root or index record yields the entries between the declared start and the entry flagged as last, each located at the end of the previous one and entirely inside the node's used part, with key, data, file reference and subnode number as on disk. An entry violating its bounds is reported as an error instead of being yielded, and nothing behind it is yielded.",
  ["inputs"],"every index node content",
  "Tests iterate two well-formed directories; bounds of keys, data, subnode numbers and used-size cut-offs at arbitrary offsets are not sampled.",
  [A+"index_entry.rs"],[("node entry iteration","src/index_entry.rs IndexNodeEntryRanges::next, NtfsIndexNodeEntries::next"),("entry validation","src/index_entry.rs validate_size, key, data, subnode_vcn")],["NtfsIndexRoot::entries","NtfsIndexRecord::entries"])
p("C14","Index root and index records are validated and located as declared",
  "An index root is accepted only if its header and used entries lie inside the attribute, and its record size, large-index flag and entry range are those on disk. An index record is read from the position its number denotes in the allocation, is accepted only with intact signature, fixup, matching number and sizes that fit, and anything else is an error.",
  ["inputs"],"every index root, allocation content and record number",
  "Test images contain only valid nodes of one size.",
  [A+"structured_values/index_root.rs",A+"structured_values/index_allocation.rs",A+"index_record.rs"],[("root validation","src/structured_values/index_root.rs NtfsIndexRoot::new/validate_sizes"),("record validation","src/index_record.rs NtfsIndexRecord::{new,validate_signature,validate_sizes}"),("record lookup","src/structured_values/index_allocation.rs record_from_vcn")],["NtfsIndexRoot","NtfsIndexAllocation::record_from_vcn, records"])
p("C15","Index traversal yields every key of the tree in order exactly once",
  "Traversing an index visits, for every well-formed tree of any depth and fan-out, the entries of each subnode before the entry that points to it and yields every entry carrying a key exactly once, in key order. Until the first error no entry is lost or repeated.",
  ["inputs","histories"],"every tree shape of index nodes",
  "Tests traverse one directory of depth two; the stack discipline matters for deeper trees, empty nodes and last entries with subnodes.",
  [A+"index.rs"],[("in-order stack","src/index.rs NtfsIndexEntries::next")],["NtfsIndex::entries"])
p("C16","Index lookup finds an existing key and reports absent keys",
  "For every index ordered under the comparison in use, looking up a key returns its entry if the tree contains it, at any depth, and nothing if it does not, by following only the subnode whose range contains the key. Bounds or structure errors met on the way are reported.",
  ["inputs","histories"],"every ordered tree and every sought key",
  "Tests look up three names in one directory; the descent decision at each position of each node needs all trees and keys.",
  [A+"index.rs",A+"indexes/file_name.rs"],[("descent","src/index.rs NtfsIndexFinder::find"),("file name lookup","src/indexes/file_name.rs NtfsFileNameIndex::find")],["NtfsIndexFinder::find","NtfsFileNameIndex::find"])
p("C17","Case-insensitive comparison is the upcase-table order on 16-bit units",
  "Comparing names ignoring case equals the lexicographic comparison of their sequences of 16-bit units after mapping each unit through the volume's upcase table, with the shorter of two otherwise equal names first. Characters outside the basic plane are compared by their surrogate units, and the same result is obtained for strings and on-disk names in either role.",
  ["inputs"],"every pair of names and every upcase table",
  "Tests compare a few ASCII and umlaut names with the stock table.",
  [A+"upcase_table.rs",A+"types.rs"],[("comparison","src/upcase_table.rs upcase_cmp_iter and UpcaseOrd impls"),("table reading","src/upcase_table.rs UpcaseTable::read")],["UpcaseOrd::upcase_cmp"])
p("C18","Structured attribute values decode to the on-disk fields",
  "Standard information, file name, object id, volume information and volume name values report exactly the fields stored at their on-disk offsets in little-endian order, with optional parts present exactly when the value is long enough to hold them. Values too short for their mandatory fields or names reaching beyond the value are errors.",
  ["inputs"],"every value content and length",
  "Tests decode single instances; absent optional parts, every length boundary and all field values need all inputs.",
  [A+"structured_values/standard_information.rs",A+"structured_values/file_name.rs",A+"structured_values/object_id.rs",A+"structured_values/volume_information.rs",A+"structured_values/volume_name.rs"],[("decoders","src/structured_values/*.rs new/getters")],["NtfsAttribute::structured_value"])
p("C19","Timestamps convert exactly or report an error",
  "Converting an NTFS timestamp to a calendar or system time denotes exactly its number of 100 ns units since 1601, and converting back yields the same timestamp for every representable instant, truncating sub-interval precision. Instants outside the timestamp range are errors, never wrapped values.",
  ["inputs"],"every 64-bit timestamp and every calendar/system time",
  "Tests convert five instants; range ends and pre-1601 or sub-interval instants need all values.",
  [A+"time.rs"],[("conversions","src/time.rs NtfsTime")],["NtfsTime From/TryFrom impls"])
p("C20","File references split into 48-bit record and 16-bit sequence number",
  "Every 8-byte file reference reports its low 48 bits as record number and its high 16 bits as sequence number, for all 2^64 values and on every platform byte order. Resolving a reference looks up exactly that record number.",
  ["inputs"],"every 64-bit reference value",
  "Tests only see references below 2^32 with small sequence numbers.",
  [A+"file_reference.rs"],[("bit split","src/file_reference.rs NtfsFileReference")],["NtfsFileReference::{file_record_number,sequence_number,to_file}"])
p("C21","Reading exactly fills the buffer or fails",
  "A request to read exactly n bytes succeeds only if the whole buffer was filled with the next n bytes of the value in order, however the underlying reads split them. If fewer bytes remain it reports an unexpected end, and interrupted reads are retried without losing or duplicating bytes.",
  ["inputs","fault_sequences"],"every reader, buffer length and pattern of short reads, interruptions and errors",
  "Tests use readers which never return short reads or interruptions.",
  [A+"traits.rs"],[("read_exact loop","src/traits.rs NtfsReadSeek::read_exact")],["NtfsReadSeek::read_exact"])
p("C22","Arbitrary device contents never cause a panic or arithmetic overflow",
  "Whatever bytes the device returns, short reads and read errors included, opening the volume and exploring files, attributes, runs, indexes and names through the public interface returns values or errors. It never panics, indexes out of bounds or overflows an integer.",
  ["inputs","fault_sequences"],"every device content and failing read",
  "Tests only parse intact images; each unchecked offset or sum shows only for specific hostile values.",
  [A+"attribute.rs",A+"attribute_value/non_resident.rs",A+"record.rs",A+"file.rs",A+"index_entry.rs",A+"index_record.rs",A+"structured_values/file_name.rs",A+"structured_values/attribute_list.rs",A+"boot_sector.rs"],[("bounds and overflow checks","all parsing code in src/")],["the whole public API"])
p("C23","Reported positions point at the bytes they describe",
  "Every absolute device position reported for a volume, file record, attribute, value, run or index node is the position of the corresponding bytes on the device, or is absent when there is no such position (sparse or past the end). After every read or seek a value reader's data position is the device position of the next byte it would return, or, right at the end of a run, that of the byte following the last one returned.",
  ["inputs","histories"],"every structure, run layout and read/seek history",
  "Tests compare a few positions in one image.",
  [A+"attribute_value/mod.rs",A+"attribute_value/non_resident.rs",A+"attribute_value/resident.rs",A+"types.rs",A+"attribute.rs"],[("positions","data_position/position methods, src/types.rs NtfsPosition arithmetic")],["position(), data_position()"])
p("C24","GUID text is the canonical form of the 16 on-disk bytes",
  "A GUID prints as the canonical 8-4-4-4-12 upper-case hexadecimal text with all leading zeros, its first three groups being the little-endian on-disk fields and the last two the remaining bytes in order. Distinct GUIDs print differently.",
  ["inputs"],"every 128-bit GUID",
  "One GUID without leading zeros in its groups is tested.",
  [A+"guid.rs"],[("formatting","src/guid.rs Display for NtfsGuid")],["NtfsGuid Display"])
p("C25","Lookups by type, name or namespace return the first match",
  "The convenience lookups of a file's data stream, name, info, directory index and of the volume's name and information return the first attribute in order that has the requested type, name and (where asked) parent or namespace. If there is none they report its absence or an error, and they never return another attribute.",
  ["inputs"],"every file, set of attributes, requested name, parent and namespace",
  "Tests look up attributes that exist once; several matching or nearly matching attributes, case differences and absence are not sampled.",
  [A+"file.rs",A+"ntfs.rs"],[("find helpers","src/file.rs NtfsFile::{data,name,info,directory_index,find_resident_attribute}"),("volume lookups","src/ntfs.rs Ntfs::{volume_info,volume_name}")],["NtfsFile::data/name/info/directory_index","Ntfs::volume_info/volume_name"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(d)+"\n" for d in P))

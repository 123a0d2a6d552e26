#!/usr/bin/env python3
"""(Re)writes /verif/properties.jsonl; the single place where the property texts are kept."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})
SP, RE, AM = "multibag/split.py", "multibag/restore.py", "multibag/amend.py"
BI, EX, MB = "multibag/access/bagit.py", "multibag/access/extended.py", "multibag/access/multibag.py"
VB, VH, VM, VG = ["multibag/validate/%s.py" % x for x in ("base", "headbag", "member", "bag")]
CO, MK = "multibag/constants.py", "multibag/testing/mkdata.py"

p("C01", "Splitting a bag and restoring it gives the original bag back",
  "For every valid, complete bag (no fetch.txt; BagIt 0.96 or later; any tag file encoding), splitting it with any splitter, size limits, reserved-for-head list and bag naming, and then restoring from the resulting head bag (with the member bags left as directories or serialized), yields a valid bag. "
  "Its files outside BagIt's own root-level tag files are exactly the source's, byte for byte and under the same paths, its empty directories are the source's, and every checksum the source's payload manifests recorded is recorded in it. "
  "Its bag-info tags are the source's, name by name and value by value, except Payload-Oxum and Bag-Size (which describe the restored bag).",
  ["inputs", "configurations"], "all valid source bags (trees, names, sizes, algorithms, bag-info contents) x splitter x limits x naming x serialization of members",
  "The tests split and restore one or two small fixed bags with ASCII names; the guarantee is about every tree, name, algorithm set and limit, and a file lost only for one kind of name is invisible to them.",
  [SP, RE, EX, BI], [("plan creation and application", SP), ("reverse-order member merge", RE), ("nonstandard()/walk()/replicate()", EX)], ["Splitter.split", "restore_bag"])
p("C02", "A split puts every source file, unaltered, in exactly one valid output bag",
  "After a split, every file of the source bag other than BagIt's own root-level tag files (bagit.txt, bag-info.txt, fetch.txt, manifests) is found at the same path with the same bytes in exactly one output bag, every empty directory is found in exactly one, and no output bag contains payload or tag content that does not come from the source (the head bag's multibag directory and BagIt's own files apart). "
  "Every output bag is by itself a valid BagIt bag of the source's BagIt version (0.96 or later; whatever the source's tag file encoding), whose manifests record, for exactly the files it holds, exactly the checksums the source recorded for them. "
  "Files named as reserved for the head bag are in the head bag.",
  ["inputs", "configurations"], "all valid source bags given as directory path, open bag or serialized file x splitters x limits x reserved lists",
  "Tests check membership of a few fixed paths; they never enumerate odd names, nested files that look like BagIt tag files, multiple or partial manifests.",
  [SP, EX], [("apply_iter", SP), ("_record_hash", SP), ("required()/nonstandard()", EX)], ["SplitPlan.apply_iter", "Splitter.split"])
p("C03", "Split bags respect the size limit and target, and are packed full",
  "Not counting the bag that collects reserved files and empty directories, the source files put in one output bag total at most the maximum size, unless the bag holds a single file which alone exceeds it; and a bag's total exceeds the target size by at most its last file (without its largest file it is within the target). "
  "A bag that is still within the target is never closed while some file that went to a later bag would have fitted in it under the maximum. "
  "The neighborly splitter takes files from another directory into a bag only when no remaining file of the directory the bag was started from (that of its largest file) would still fit.",
  ["inputs", "configurations"], "all multisets of file sizes (zero and exact-boundary sizes included), directory layouts, maxima and targets, both splitters",
  "Greedy packing goes wrong at boundaries (size == limit, zero-size files, last index, target crossed on the last file) which a few fixed size lists do not reach.",
  [SP], [("WellPackedSplitter._apply_algorithm", SP), ("NeighborlySplitter._apply_algorithm/_select_from_dir", SP)], ["Splitter.plan", "Splitter.split"])
p("C04", "The head bag of a split lists every member in order and locates every file",
  "The last bag written by a split, and only it, is a head bag: its member list names every output bag once, in output order and itself last, preceded by the source's own members when the source was itself a head bag. "
  "Its file lookup maps every source file placed by the split to the one output bag that holds it, keeps the source head's entries for all other files, and names no output bag for a path it does not hold; paths the source head declared deleted are still declared deleted. "
  "The head bag reports the requested head version, and it passes head bag validation with no errors.",
  ["inputs", "configurations"], "all source bags (plain or already head bags) x splitters x naming",
  "Tests compare the index of one fixed split; a lookup entry that is wrong only for some placement, name or for re-split head bags is not reached.",
  [SP, MB], [("member-bags.tsv / file-lookup.tsv writing", SP), ("HeadBagReadMixin", MB)], ["open_headbag(...).member_bag_names/lookup_file/deleted_paths"])
p("C05", "Split bags carry the source's bag-info, with the documented transformations",
  "Every output bag's bag-info has every source tag that is not Multibag-* and not listed in info_nopass, with the same values in the same order, except: Payload-Oxum gives the output bag's own payload size and count; Bag-Size, Internal-Sender-Identifier and Internal-Sender-Description keep the source's values under Multibag-Source-<name>, the sender identifier becoming the bag's own name; External-Identifier keeps its values under Multibag-Source-External-Identifier and in Bag-Group-Identifier and becomes '<first value>/mbag:<bag name>'. "
  "Tags listed in info_nopass appear in no form, every bag declares the Multibag-Version, and only the head bag has a Multibag-Head-Version or Multibag-Tag-Directory. "
  "The head bag's aggregation-info holds the source's tags unchanged.",
  ["inputs", "configurations"], "all bag-info contents (repeated tags, unicode, long values) x info_nopass lists",
  "Tests use one bag-info; repeated tags, subsets of the special tags and nopass combinations are never varied.",
  [SP], [("bag-info writing in apply_iter", SP)], ["bag-info.txt of each output bag"])
p("C06", "Restoring an aggregation equals merging its members in order, minus deletions",
  "For every aggregation of valid bags, the restored bag contains exactly the union of the files of the bags in the head bag's member list, each path with the content of the last listed bag that has it, minus the paths (or subtrees) listed as deleted by the head bag, and the union of their directories, again minus the deleted ones; it is a valid BagIt bag, its manifests recording for each file the checksums of the bag it came from, and nothing for files not in it. "
  "Its fetch list is the members' fetch lists merged in the same order with later lines overriding earlier ones for the same path, minus deleted paths; its Payload-Oxum is exact. "
  "No multibag tag directory and none of the head-bag tags remain, and its other bag-info tags are those of the head bag's aggregation-info if there is one, otherwise at least those of the head bag.",
  ["inputs", "histories"], "all member lists with overlapping contents, algorithms, deletions, fetch lists, tag directory names and serializations",
  "Tests restore two fixed aggregations; order, overlap, deletion and algorithm combinations are combinatorial.",
  [RE, MB], [("restore/_restore_from/_update_manifests/restore_fetch", RE)], ["restore_bag", "BagRestorer.restore"])
p("C07", "Every way of restoring gives the same bag, and a missing member is an error",
  "Restoring into a new directory, restoring the head bag in place, filling in a partly restored bag, and restoring with members serialized (zip, tar, tar.gz, tar.bz2, tgz), kept in another directory or delivered by a fetcher function all produce the same set of files with the same bytes and the same payload checksums. "
  "The fetcher is called only for members that are not already available, with the member's name and the cache directory. "
  "If a member bag is not available, restoring (the aggregation, that member alone, or the fetch list) raises an error for it rather than returning an incomplete bag, and once the member is there, restoring again into the same destination succeeds with the same result.",
  ["inputs", "configurations"], "aggregations x restore route x per-member form and availability",
  "Each route has at most one fixed test; that they agree with each other for every aggregation is never compared.",
  [RE, BI], [("find_member_bag/get_member_bag/_fetch_member_bag", RE), ("open_bag", BI)], ["restore_bag", "BagRestorer"])
p("C08", "A chain of amendments keeps order, index, deprecations and every version",
  "After any sequence of amendments, the new head bag's member list is the previous head's list in the same order (or the plain amended bag), then the amending bags in the order given, then itself last, each once; each payload file's lookup names the last listed bag that contains it (unless left out by the include and exclude lists given), and the tag files looked up before still are; and every superseded head version is listed as deprecated, oldest first, followed by the one just amended. "
  "Paths the previous head declared deleted stay deleted unless an amending bag supplies them again. "
  "Restoring from any head in the chain, old or new, gives exactly the contents of that version.",
  ["histories", "inputs"], "all sequences of amendments with overlapping contents, deletions, extra member bags, amendee as directory, open bag or serialized file",
  "Tests do one amendment of one fixed bag; accumulation over chains, aliasing between versions, and deletions across versions need histories.",
  [AM, MB, RE], [("Amender", AM), ("HeadBagUpdateMixin", MB)], ["amend_bag_with", "Amender", "restore_bag"])
p("C09", "Converting a bag to a single-bag aggregation is faithful and repeatable",
  "Converting any valid bag makes it a head bag of the given version whose only member is itself (with the given PID), whose file lookup maps exactly its payload files to itself (or exactly the requested include/exclude selection), and which passes BagIt and head-bag validation. "
  "Its payload, manifest checksums, other tag files and other bag-info tags are unchanged (a description of the profile is added to Internal-Sender-Description at most once; Bag-Count is dropped), and Payload-Oxum is not altered. "
  "Converting again gives the same member list, lookup and tags.",
  ["inputs", "histories"], "all valid bags, versions, PIDs, tag directories, repeated conversion, include/exclude lists",
  "One fixed bag is converted in the tests, once.",
  [AM, MB], [("SingleMultibagMaker", AM), ("update_for_member/update_info", MB)], ["make_single_multibag", "SingleMultibagMaker"])
p("C10", "Head bag edits behave like lists and maps, and survive save and reopen",
  "Under any sequence of adding, overriding, replacing and removing member bags, adding and removing file lookups, marking and unmarking deleted paths, registering a bag's files (with include and exclude lists), renaming the tag directory, saving and reopening, the head bag reports exactly what a list of members, an ordered map of lookups and a set of deleted paths would hold. "
  "Removing or overriding a member also removes the lookups that point to it and the deletion marks of the files so removed. "
  "After saving, a newly opened head bag (writable, read-only or serialized) reports the same members with all their fields, lookups in the same order, and deleted paths.",
  ["histories", "inputs"], "all operation sequences and all legal names, URIs, comments and extra fields",
  "Tests call each operation once on one sample bag already loaded in memory; edits made on a freshly opened bag and interleavings with save/reopen are not covered.",
  [MB], [("HeadBagUpdateMixin", MB), ("HeadBagReadMixin", MB)], ["HeadBag", "open_headbag"])
p("C11", "Member and lookup lines parse as the profile says and round-trip",
  "Formatting a member entry and parsing the line gives an equal entry, whatever legal name, URI (or none), extra fields and comment it has. "
  "Any head bag tag file written to the profile's grammar (spaces around TABs, omitted or empty URL column, extra columns, comment column that may itself contain TABs or '#', blank lines, missing final newline, CRLF, either the current or the 0.2 file names and syntax) is read as the profile defines. "
  "A line with no name, or a lookup line without a bag name, raises the multibag error and is never taken as an entry.",
  ["inputs"], "all lines of the grammar", "Tests parse about ten fixed lines.",
  [MB], [("MemberInfo.format/parse_line_*", MB), ("parse_file_lookup_line_03, iter_*", MB)], ["MemberInfo", "open_headbag"])
p("C12", "A serialized bag reads exactly like the same bag as a directory",
  "For every bag, opening it as a directory or as a zip, tar, tar.gz, tar.bz2 or tgz file (whatever the archive is called, with or without directory entries, and whatever nested bags or look-alike files it contains) gives the same name, BagIt version, encoding (and, through it, the same text), bag-info tags, manifest entries, payload file list, fetch entries, directory walk, file sizes, existence answers, text contents and head-bag information, and the same outcome of validation. "
  "These agree with the reference BagIt library on the unpacked directory. "
  "A read-only bag can not be saved.",
  ["inputs", "configurations"], "all bags x all supported serializations and archive layouts",
  "Tests compare a couple of attributes on one sample bag per format.",
  [BI, EX], [("ReadOnlyBag", BI), ("open_bag", BI), ("_ExtendedReadOnlyMixin", EX)], ["open_bag", "ReadOnlyBag", "open_headbag"])
p("C13", "Validation accepts intact bags and detects any damage, in every form",
  "Validating a bag, as a directory or serialized, succeeds on every valid bag and fails on every bag with a payload or listed tag file whose bytes were changed, truncated, extended, removed, or renamed, with an unlisted payload file, a missing manifest or data directory, a wrong or malformed checksum, or a wrong Payload-Oxum; the verdict, for each validation option (fast, completeness only, several processes), and the files reported as damaged, missing or unlisted are those of the reference BagIt library. "
  "The BagIt check in the multibag validators reports such a bag as failed with a comment, and never raises (a bag that can not be opened at all is an error when the validator is created).",
  ["inputs", "fault_sequences"], "all bags x all single and double corruptions x all forms",
  "Tests corrupt one file in one bag.", [BI, VG], [("_validate_* overrides", BI), ("BagValidator", VG)], ["Bag.validate/is_valid", "BagValidator"])
p("C14", "Head and member validators report exactly the profile rules that are broken",
  "For every head bag the validator's outcome is that of the multibag profile: a compliant bag has no failed error or warning, and each departure (missing, repeated or empty version, tag-directory, head-version or deprecates tags; missing tag directory or tag files; member list without this bag, with it not last, with repeated names or bad URLs; lookup with malformed or repeated lines or naming files this bag lacks; self-deprecation; invalid BagIt bag) makes the corresponding rule fail, with the documented severity, and no unrelated rule. "
  "A bag that is not a head bag is reported as failing, not accepted and not a crash. "
  "Where lines of the member list or of the lookup are at fault, the failed rule's comment names those lines. The verdict is the same for serialized forms of the bag.",
  ["inputs"], "all combinations of departures over all head bags", "Tests apply each departure alone to one sample bag.",
  [VH, VM, VG], [("HeadBagValidator.validate_*", VH), ("MemberBagValidator", VM)], ["HeadBagValidator", "MemberBagValidator"])
p("C15", "Validation results are counted and judged consistently",
  "For any recorded collection of test outcomes, the tests reported applied, failed and passed for any combination of severities are exactly those recorded with these severities, in order within a severity, with failed and passed partitioning applied and counts equal to list lengths; the overall verdict is good exactly when no test of a wanted severity failed. "
  "For any bag, validity as a boolean, as the overall verdict of the results, and as the presence or absence of a raised validation error agree for every choice of wanted severities, the raised error carrying the same results; results can be accumulated into a caller's results object. "
  "An issue keeps its label, specification, severity, outcome and comments as recorded, even if the recorder's object is reused afterwards or the issue is converted to a tuple and back, or to a JSON object.",
  ["inputs", "histories"], "all sequences of recorded outcomes x severity masks; all bags x wanted masks",
  "Tests record a handful of outcomes.", [VB, VH, VM, VG], [("ValidationResults", VB), ("Validator.is_valid/ensure_valid", VB)], ["ValidationResults", "Validator"])
p("C16", "Source and member bags are never modified",
  "Splitting (from a directory path with hard links, an open bag or a serialized file), restoring to a new destination, amending, validating and inspecting never change, add or remove any file or directory of the bags they read: the split source, the members and head being restored, the amended bag and the additional amending bags, the validated bag. "
  "The same holds when a source or head bag is itself a head bag that is split again, and when a restored or split bag is later modified through this library. "
  "In-memory bag objects passed as inputs keep their tag data.",
  ["inputs", "histories"], "all bags x all operation sequences",
  "Tests never compare sources before and after; hard links make damage depend on the form of the source and on later operations.",
  [SP, RE, AM, EX], [("replicate with hard links", EX), ("apply_iter head-file writing", SP), ("Amender._init_multibag_info", AM)], ["file tree snapshots"])
p("C17", "Paths that leave the bag are refused, and nothing is written outside",
  "A bag whose manifest or fetch list names an absolute path, a path that climbs out of the bag (including into a sibling directory whose name extends the bag's name), or a home-directory path is refused with a bag error when opened through this library's readers (open_bag, ReadOnlyBag) or when its fetch list is read, as a directory or serialized. "
  "Asking an open bag about, or to replicate, a path outside of its root directory answers that it does not exist, and copies nothing. "
  "No restore, split or amendment creates, changes or removes a file outside its destination (and cache) directory, whatever the member lists, deleted lists, tag-directory tags, manifests or archives contain.",
  ["inputs"], "all path spellings (.., sibling prefixes, absolute, ~, redundant separators) in all places a path is read from",
  "Tests try two or three dangerous spellings in one place.", [BI, EX, RE], [("_path_is_dangerous", BI), ("_canon_path", EX), ("skip handling", RE)], ["open_bag", "exists/isfile/isdir/replicate", "restore_bag"])
p("C18", "The extended bag interface agrees with the file system",
  "For every bag and path, existence, is-file, is-directory, size, modification time, text content and directory walks (from the root or a subdirectory) reported by the extended interface of writable, read-only and serialized bags equal what the bag's directory tree holds, paths being relative, '/'-separated and each reported once. "
  "The list of non-standard contents is exactly every file that is not one of BagIt's root-level tag files plus every empty directory. "
  "Replicating a path reproduces the file's bytes, or the directory, at the same relative path under the destination and changes nothing else there.",
  ["inputs"], "all bag trees, names, forms, starting directories and destination names",
  "Tests check ten fixed paths of one sample bag.", [EX, BI], [("_ExtendedReadWritableMixin", EX), ("_ExtendedReadOnlyMixin", EX)], ["as_extended(bag)"])
p("C19", "Split plans account for every file, and their names are the names used",
  "For every plan, complete or partial, the paths reported missing are exactly the required paths not assigned to any planned bag; a plan is complete exactly when none is missing; looking up a path's destination gives the last planned bag that lists it, or none; completing a plan adds a final bag holding exactly the missing paths and changes nothing else (and nothing at all when none is missing). "
  "Planned bags are reported in order with only the last flagged as head, as copies that callers can not use to corrupt the plan. "
  "Names from any naming iterator are used in order (in reverse when asked), for the plan and for the directories written; an iterator that runs out is an error when naming the plan, and when applying it the remaining bags keep their planned names.",
  ["inputs", "configurations"], "all source trees x partial assignments x naming iterators of any length",
  "Tests use one bag, one partition and one kind of iterator.", [SP], [("SplitPlan", SP), ("SimpleNamer", SP)], ["SplitPlan", "Splitter.plan"])
p("C20", "Profile versions are totally ordered by their numeric fields",
  "Comparing any two versions, given as version objects, strings or tuples in either role, agrees with comparing their dot-separated numeric fields left to right as numbers: exactly one of <, ==, > holds, <= >= != are consistent with them, equality is symmetric and ordering transitive. "
  "The text of a version is the text it was made from.",
  ["inputs"], "all pairs and triples of versions and representations", "Tests compare six pairs.",
  [CO], [("Version", CO)], ["Version"])
p("C21", "A failed write or unreadable source is an error, never a silently bad result",
  "If any single file system operation (creating, writing, closing, copying, linking, making a directory, removing, reading a file or listing a directory of a source bag), or every one from some point on as on a full disk, fails while a bag is split, restored, amended or converted, the operation raises an error, or its result is exactly the one a fault-free run gives; it never returns normally leaving a missing, empty or truncated file or index. "
  "If a member's serialized file is damaged, restoring either raises, or the restored payload equals the undamaged result or the restored bag fails BagIt validation (unless the damaged file still reads as a bag that does not list what is missing). "
  "In either case the bags that were only read are left intact.",
  ["fault_sequences", "crash_points", "inputs"], "every single fault position (k-th write, open, close, link, mkdir, send, rename, remove, utime, read call) x error kind x small aggregations; byte damage anywhere in serialized members",
  "No test injects any I/O error.", [EX, SP, RE, MB, AM], [("replicate", EX), ("apply_iter's existence check", SP)], ["process-level fault injection"])
p("C22", "Generated test datasets have exactly the requested files and sizes",
  "Creating a dataset of a given total size and number of files makes exactly that many files whose sizes sum to exactly that total, and differ by at most one byte (total and count at least 1); an inventory plan makes exactly the listed number of files of each size, and a plan with sub-directories puts each directory's share in its own directory. "
  "Creating a file of any size makes a file of exactly that size, of ASCII lines of at most 100 bytes.",
  ["inputs"], "all totals, counts, inventories and directory plans", "Tests try a few sizes.",
  [MK], [("UniformSizeIterator", MK), ("DatasetMaker", MK), ("create_file", MK)], ["mkdataset", "DatasetMaker", "create_file"])
p("C23", "Size tags written into bags are true",
  "The payload octet count and file count computed for a bag, and the Payload-Oxum tag derived from it, equal the sum of sizes and the number of files under data. "
  "The Bag-Size tag written when a bag is converted, amended or restored is the bag's actual total size in bytes to four significant digits (give or take the tag's own text and directory overhead), in the unit (B, kB, MB, ... up to TB) that keeps the number below 1000 before rounding. "
  "Recomputing the payload counts of an unchanged bag, or converting it again, gives the same tags.",
  ["inputs"], "all bag sizes (unit boundaries included) and trees", "Tests check two sizes.",
  [EX, MB], [("calc_oxum/calc_bag_size/_format_bytes", EX), ("_bag_size/_format_bytes", MB)], ["update_oxum", "update_bag_size", "update_info"])
p("C24", "Restored files keep the modification times they have in the members",
  "Every file of a restored bag other than BagIt's own root-level tag files has the modification time it has in the member bag it comes from (the last listed one that has it), whether that member is a directory (to the fraction of a second) or serialized (to what the serialization records), whatever the time zone; and restoring in place or into a partly restored bag leaves the times of the files that are already there.",
  ["inputs", "configurations"], "all aggregations, modification times, member forms, restore routes and time zones",
  "No test looks at the modification times of restored files.", [RE, EX], [("_restore_from", RE), ("timesfor", EX)], ["restore_bag", "BagRestorer.restore"])
p("C25", "Any mixture of operations keeps the collection and all its versions",
  "Take any valid bag and apply any sequence of conversions to a single-bag aggregation, splits (of the plain bag or of the head bag reached so far), amendments, deletion marks, serializations of member bags or the head, and restorations (to a new bag or in place, going on with the restored bag). "
  "After every step, restoring the head bag reached gives exactly the files of the collection: those of the bag before, with what amendments added or replaced and without what was marked as deleted since. "
  "The head bag reports the members of all steps in order, the latest version and exactly the deleted paths, looks up every payload file in the last member that has it, and passes head bag validation; and every earlier head bag still restores its own version.",
  ["histories", "inputs"], "all sequences of operations over all collections", "Tests run single operations on fixed bags, and two splits or one amendment after the other at most.",
  [SP, RE, AM, MB], [("SplitPlan.apply_iter", SP), ("BagRestorer.restore", RE), ("Amender", AM), ("HeadBagUpdateMixin", MB)],
  ["make_single_multibag", "WellPackedSplitter.split", "amend_bag_with", "restore_bag", "HeadBag.set_deleted"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

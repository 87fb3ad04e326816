#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

DB="src/types/database.rs"; KW="src/format/kdb2_writer.rs"; KR="src/format/kdb2_reader.rs"
XW="src/format/kdb2_xml_writer.rs"; XR="src/format/kdb2_xml_reader.rs"; XM="src/format/xml.rs"
GR="src/types/group.rs"; EN="src/types/entry.rs"; CK="src/types/composite_key.rs"
KFR="src/format/kf_reader.rs"; KFW="src/format/kf_writer.rs"; KF="src/types/key_file.rs"

p("C01","Save then open gives back the whole database",
  "For every database whose text consists of characters XML can carry, saving it and opening the result with the same key yields the same content: every group and entry at every depth in order, every string and custom field with its protected or plain class (empty, whitespace-only and multi-line text included), attachments, icons, colours, associations, one level of history, tri-state flags, identifiers, timestamps to the nanosecond and all database settings, comment, compression and key-transformation rounds. Only the generator name (always rewritten), parent links (recomputed) and history nested inside history items are exempt. Field names are compared the way the library compares them (a well-known name in any case is the well-known field, unless that field is there as well: then both are kept).",
  ["inputs","configurations"],
  "all databases the public fields and setters can build (any tree shape, any Unicode text legal in XML 1.0, any byte content, any dates chrono prints in RFC 3339, both compressions, all key kinds)",
  "The integration test reopens one saved sample; it exercises one tree shape, no hostile text, no empty values, no multi-block payloads, and compares a handful of fields.",
  [DB,KW,KR,XW,XR,XM],
  [("XML writer/reader pair per element",XW+" write_*_section / "+XR+" read_*"),("value conversions",XM)],
  ["Database::save output","Database::open result (all public fields)"])

p("C02","Save never reports success for a file that cannot be opened",
  "Whenever saving a database returns success, the bytes produced open with the same key and give back content equal to what was saved. Content the format cannot carry (control and other non-XML characters in plain text or attribute ids, protected strings that are not UTF-8, a header comment over 65535 bytes, two fields under one name) makes save return an error instead of silently losing the database.",
  ["inputs"],
  "all databases, including hostile text (NUL, control characters, lone CR, noncharacters, markup-like text) in every text field, oversize comments and protected values of arbitrary bytes",
  "Tests save only well-behaved values; nothing samples characters outside plain ASCII words or the size limits of the header encoding.",
  [KW,XW,XM],
  [("text escaping and validation",XM+" write_string"),("header size field",KW+" write_comment")],
  ["result of Database::save","result of Database::open on its bytes"])

p("C03","Edit, save and reopen histories never lose or invent content",
  "Over any history of edits (adding, changing, moving and removing groups, entries, fields, attachments, history items and settings) interleaved with saves, reopens and key changes, the database read back always equals the model of the edits applied so far. Saving does not change the in-memory database, and saving twice gives two files with equal content.",
  ["histories"],
  "all interleavings of edits through the public API and fields with save/open generations",
  "Tests perform at most one edit and one generation; drift, accumulation or staleness across generations is never sampled.",
  [DB,GR,EN,KW,KR,XW,XR],
  [("fresh XML and header per save",KW+" write"),("state rebuilt from file only",DB+" open_kdb2")],
  ["in-memory Database after each operation","reopened Database after each generation"])

p("C04","Only the right key opens a database",
  "A database file opens with exactly the composite key it was saved with: every other password (including prefixes, extensions, case or whitespace variants, and empty), key file or combination of them is rejected with an error and yields no database. After the key of an open database is replaced and the database saved, the new key opens the file and the old one does not.",
  ["inputs","histories"],
  "all pairs of saved key and tried key, near-miss and unrelated, for password-only, key-file-only and combined keys, with all rounds settings",
  "Tests try one wrong password on one sample file.",
  [CK,"src/types/transformed_key.rs","src/types/master_key.rs",KR,"src/crypto/aes256.rs"],
  [("start-bytes comparison",KR+" read"),("key hashing",CK)],
  ["result of Database::open with each tried key"])

p("C05","A modified file is rejected or means the same",
  "Any change to the bytes of a saved database file (bit flips, byte substitutions, insertions, deletions, swapped or duplicated blocks, header edits, appended data, and - for someone holding the key - alteration of payload blocks or the recorded header hash) makes opening fail with an error, unless the opened database is identical in content and header settings to the original. No modified file ever opens to different content.",
  ["inputs","fault_sequences"],
  "every byte of the header exhaustively and every region of the payload, over all databases and tampering operations",
  "Tests contain no corruption at all.",
  [KR,DB],
  [("header hash over all header bytes",KR+" read, "+DB+" open_kdb2"),("block hash and id check",KR+" read_xml_bytes"),("padding and start-bytes check",KR+" read")],
  ["result of Database::open on the modified bytes"])

p("C06","A truncated or torn file never opens",
  "If only a prefix of a saved database file reaches the disk, or a crash leaves a mix of its blocks with zeros or an older file, opening it returns an error and never a database with missing or mixed content. The same holds for a payload cut at any hashed-block boundary by someone holding the key.",
  ["crash_points"],
  "every proper prefix of the file, and torn writes at every sector boundary mixing zero fill or a previous generation",
  "No test truncates a file; the quantifier is over all crash points.",
  [KR],
  [("final-block requirement",KR+" read_xml_bytes"),("cipher-block and padding check","src/crypto/aes256.rs decrypt")],
  ["result of Database::open on each prefix and torn image"])

p("C07","Save reports every write failure and never skips bytes",
  "Whatever pattern of partial writes, interruptions and errors the destination produces, save returns success only if the destination has received, in order and without gaps or repeats, one complete valid database file; a write error other than an interruption makes save return an error. The same holds when saving key files of every type.",
  ["fault_sequences"],
  "every write call as a failure point, every short-write pattern (1 byte at a time up to whole buffers), interrupted writes and zero-length writes",
  "Tests write only to in-memory vectors, which never fail or accept less than offered.",
  [KW,KFW,"src/io/log_writer.rs"],
  [("write-all of each field",KW+" write_*"),("logging of the header for its hash","src/io/log_writer.rs write")],
  ["bytes received by the destination","result of Database::save / KeyFile::save"])

p("C08","Opening does not depend on how the source delivers bytes",
  "Opening gives the same result for every way the source splits its bytes into reads, including one byte at a time and interrupted reads, and does not need the source to know its length. A read error from the source is returned as an error and never yields a database or a key file.",
  ["fault_sequences","schedules"],
  "every chunking pattern and every read call as an error point, for database files of every layout and key files of every type",
  "Tests read only from complete in-memory buffers or files, where every read is filled.",
  [KR,DB,"src/io/log_reader.rs",KFR],
  [("exact-length reads",KR+" read_bytes_*"),("logging only what was read","src/io/log_reader.rs read")],
  ["result of Database::open / KeyFile::open over scripted readers"])

p("C09","Arbitrary bytes never crash the openers",
  "Opening a database or a key file from any byte string whatsoever returns either a value or an error within time proportional to the input and the declared transformation rounds; it never panics, aborts, hangs or exhausts memory. This includes empty input, files of other formats, headers with any field sizes, and payloads that decrypt to garbage.",
  ["inputs"],
  "all byte strings, in particular mutated and truncated database and key files, with declared transformation rounds bounded (the cost of those is inherent in the format)",
  "Tests feed only well-formed files; panics hide in lengths and paddings no sample has.",
  [KR,DB,KFR,"src/crypto/aes256.rs","src/types/color.rs"],
  [("length checks before slicing",KR+" read"),("padding removal","src/crypto/aes256.rs decrypt")],
  ["return, panic or abort of Database::open and KeyFile::open"])

p("C10","Malformed content inside a valid container never crashes",
  "For a file correctly encrypted under the key but with any payload inside - wrong block framing, invalid compression, invalid XML, missing, repeated, misplaced or wrongly typed elements and attributes, bad base64, numbers, dates, colours, icons or identifiers - opening returns a value or an error; it never panics, aborts or hangs, and values of the wrong type are reported as errors rather than replaced by invented data. (Groups nested thousands deep abort the process, a listed known finding; payloads that decompress to more than the memory there is are outside this statement.)",
  ["inputs"],
  "all decrypted payloads: structural, lexical and type mutations of every element of the document",
  "The tests have no encrypted malformed content, because building it needs an independent writer.",
  [KR,XR,XM,"src/compression/gzip.rs","src/types/color.rs"],
  [("typed parsing with errors",XM+" read_*"),("block framing checks",KR+" read_xml_bytes")],
  ["return, panic or abort of Database::open"])

p("C11","Saved files are standard KDBX 3.1",
  "Every saved file is a well-formed KDBX 3.1 file that an independent implementation of the published format decodes with the same key to the same content: signatures and version, all mandatory header fields, the requested rounds and compression, header hash, hashed payload blocks, well-formed XML with protected values enciphered by one Salsa20 stream in document order and attachments compressed as marked. Nothing follows the final block, and every value is in the standard element with the standard encoding.",
  ["inputs","configurations"],
  "all databases and key kinds; the decoder shares no code with the library",
  "Tests read files back only with the library itself, so a symmetric mistake in writer and reader goes unseen.",
  [KW,XW,XM,"src/crypto/salsa20.rs","src/crypto/sha256.rs","src/crypto/aes256.rs"],
  [("header layout",KW+" write_*"),("XML layout",XW),("key schedule","src/types/master_key.rs, src/types/transformed_key.rs")],
  ["bytes produced by Database::save"])

p("C12","Standard KDBX 3.1 files by other programs open correctly",
  "A standard KDBX 3.1 file written by another program opens to exactly the content it describes, whatever legal choices that program made: header field order and optional comment, compression on or off, payload split into any number of hashed blocks, absent or recorded header hash, XML declaration, indentation, character references and CDATA, element order, unknown elements, protected or merely protect-in-memory values, protected attachments, plain or compressed or shared attachments, empty elements and second-resolution dates. Settings the file leaves out take the library's documented defaults.",
  ["inputs","configurations"],
  "all files an independent KDBX 3.1 writer can produce over those legal choices",
  "Three sample files from one program version fix all of those choices.",
  [KR,XR,XM,"src/types/xml_data.rs"],
  [("order-independent header loop",KR+" read"),("element dispatch",XR),("defaults","src/types/xml_data.rs")],
  ["Database::open result on independently written files"])

p("C13","Saved files reveal no secrets",
  "No text or binary content of the database, no password and no key material appears in a saved file outside the encrypted payload, whatever the compression; the header comment, which the format stores in the clear, is the one exception. Inside the decrypted document every protected string and every attachment held inline as protected is stored only enciphered and marked as protected, and no such value is ever downgraded to plain by saving or opening. (Attachments of the shared pool have no protection class in the library.)",
  ["inputs","histories"],
  "all databases, keys and compressions, over save/open generations",
  "Tests never inspect the bytes written.",
  [KW,XW,XM],
  [("payload encryption",KW+" write"),("inner stream encryption",XW+" write_string_section, write_binary_section")],
  ["bytes produced by Database::save","decrypted inner document"])

p("C14","Every save uses fresh random keys",
  "No two saves - of the same or different databases, in the same or different threads or processes - share a master seed, transform seed, initialisation vector, inner-stream key or start bytes, none of them are constant, zero, partly fixed or equal to each other, and newly generated key files and identifiers are likewise never repeated. Consequently two saves of the same database have unrelated ciphertexts.",
  ["histories","schedules"],
  "all sequences of saves and key-file or identifier generations, across threads and processes",
  "Tests compare two random draws in one process at most.",
  [KW,"src/crypto/random_gen.rs",KF,"src/types/entry_uuid.rs","src/types/group_uuid.rs"],
  [("OS randomness per save",KW+" write / src/crypto/random_gen.rs")],
  ["header fields and decrypted start bytes of saved files","KeyFile::new*","Entry::new / Group::new"])

p("C15","Printing and errors never reveal secrets",
  "Formatting any library value for debugging (database, entry, group, composite key, key file, string and attachment values) or displaying any error never prints a protected string, a protected attachment, a password, key-file bytes or a derived key in any common encoding, nor any part of one: values that differ only in a secret of the same length are printed alike, however short it is. The library writes none of these to standard output or standard error. Failed opens and failed saves are included.",
  ["inputs"],
  "all databases and keys holding distinctive secrets, all printable types and all reachable errors",
  "Tests print nothing.",
  [CK,KF,"src/types/string_value.rs","src/types/binary_value.rs",XM,"src/types/error.rs"],
  [("secret string type in all secret fields","src/types/*.rs (SecStr)")],
  ["Debug/Display output","stdout and stderr of a process using the library"])

p("C16","Composite keys are derived exactly as KeePass derives them",
  "A key made from a password, a key file, or both opens exactly the files an independent implementation encrypts for that password and that key file: the password contributes the SHA-256 of its UTF-8 bytes, the key file its 32 key bytes, the hash of their concatenation is the composite key, and it is transformed by exactly the declared number of AES rounds with the file's seeds. The same key bytes in a binary, hex or XML key file give the same key, and equal inputs always give equal keys while different ones give different keys.",
  ["inputs","configurations"],
  "all passwords (empty, long, non-ASCII, with NUL and whitespace), all 32-byte keys in all three file types, all three combinations, and rounds from zero up",
  "Three sample files with one password fix all inputs to the derivation.",
  [CK,"src/types/transformed_key.rs","src/types/master_key.rs","src/types/stream_key.rs",KFR],
  [("hash chain",CK+" from_password/from_key_file/from_both"),("round loop","src/types/transformed_key.rs")],
  ["which files open with which CompositeKey","equality of CompositeKey values"])

p("C17","Key files survive save and open and are read strictly",
  "A key file of any type (32 key bytes in a binary or hexadecimal one, any number from one in an XML one) saved and opened again has the same key bytes and type, and so opens the same databases. Binary, hexadecimal (either case) and XML key files written by other programs are recognised and give their exact key bytes, while a hex file with non-hex characters, an XML file of an unsupported version, or one lacking or garbling its key data is an error, never a different key.",
  ["inputs"],
  "all 32-byte keys in all file types, XML key data of any length, all legal XML layouts of a key file and all corruptions of the three formats",
  "Tests read one sample per type.",
  [KFR,KFW,KF],
  [("type by length",KFR+" read"),("XML key parsing",KFR+" read_xml_*"),("encodings",KFW)],
  ["KeyFile::open result","bytes produced by KeyFile::save"])

p("C18","Search returns exactly the matching items in order",
  "Searching entries returns exactly those active entries, at any depth, one of whose plain text fields contains the query ignoring case, and searching groups exactly the groups, root included, whose name contains it; each match appears once, in breadth-first group order and stored order within a group, and the empty query matches everything that has such text. Protected values, field names, group names (for entries) and history never cause a match, a text always matches its own verbatim substrings, and the mutable searches find the same items as the immutable ones and let each be edited in place.",
  ["inputs"],
  "all trees and all queries, including multi-byte, case-folding special and empty queries",
  "Tests search one fixed tree with ASCII words.",
  [DB,GR],
  [("iteration and filter",DB+" find_*"),("string match",DB+" entry_contains_string")],
  ["results of find_entries(_mut) and find_groups(_mut)"])

p("C19","Lookup and iteration reach every group and entry exactly once",
  "Iterating a group visits it and every descendant exactly once, breadth first with siblings in stored order, for trees of any width and depth, and mutable iteration visits the same groups in the same order, including children added to a group while it is being visited, whichever iterator methods (nth, skip, count, ...) advance it. Looking up an entry or group by identifier finds the first such item in that order at any depth and nothing when there is none (history items are never found), and edits through a mutable lookup change that item and no other.",
  ["inputs","programs"],
  "all tree shapes, identifiers present, absent, duplicated and nil, and programs that edit while iterating",
  "Tests iterate one seven-node tree and look up one item at depth one.",
  [GR,DB],
  [("queue-based iterators",GR+" Iter/IterMut next"),("lookup",DB+" get_*")],
  ["order of Group::iter / iter_mut","get_entry(_mut) / get_group(_mut) results and effects"])

p("C20","Adding and removing changes exactly the named item",
  "Adding an entry or group appends it, unchanged, after the existing ones; removing by identifier takes out and returns exactly the first direct child with that identifier, with all its content, and leaves every other item in its order; removing an absent identifier returns nothing and changes nothing. This holds over any sequence of operations, with duplicate identifiers and at every level of the tree.",
  ["histories"],
  "all sequences of add and remove operations on trees, with unique, duplicate, nested and absent identifiers",
  "Tests add and remove a single item in an otherwise empty group.",
  [GR],
  [("position and remove",GR+" remove_entry/remove_group"),("append",GR+" add_entry/add_group")],
  ["contents of the group after each operation","returned items"])

p("C21","Entry fields read back what was last set",
  "For every sequence of setter calls each getter returns the last text set for that field and nothing if none was, setting one field never changes another, passwords are always held protected while title, user name, URL, notes and custom fields set through the setters are plain, and values inserted directly as protected are readable through the getters. Field names map to well-known fields ignoring case and back to their standard spelling, and every other name is preserved exactly.",
  ["inputs","histories"],
  "all sequences of setter, getter and direct insert operations over all texts and field names",
  "Tests set and get one ASCII value per field once.",
  [EN,"src/types/string_key.rs","src/types/string_value.rs"],
  [("strings map",EN+" other/set_*"),("name mapping","src/types/string_key.rs")],
  ["getter results","Entry::strings"])

p("C22","Safe use of the library is free of undefined behaviour",
  "No program that uses the library only through its safe public interface causes an invalid memory access, use after free, data race or broken aliasing guarantee: in particular iterating mutably over groups while editing, growing or shrinking the visited group, mutable lookups and mutable searches, and opening and saving any file. (Using a group of a mutable group iteration after asking for the next one, or using at once groups of one mutable search that contain each other, is a listed known finding; the insides of the crypto and compression dependencies are outside this statement.)",
  ["programs","inputs"],
  "all safe programs over the group and entry tree, and all open/save inputs",
  "Ordinary tests pass in spite of undefined behaviour; only instrumentation of the execution can see it.",
  [GR,DB,KR],
  [("pointer duplication in the mutable iterator",GR+" IterMut")],
  ["Miri (tree borrows, uninitialised and dangling memory checks)","AddressSanitizer reports"])

p("C23","Concurrent use behaves like sequential use",
  "Databases, keys and key files can be used from many threads at once - shared reading, searching and saving of one database, and independent opening, editing and saving of several - with the same results as running the operations one after another, and without data races.",
  ["schedules"],
  "all interleavings of reader, searcher, saver and opener threads",
  "Tests are single-threaded.",
  [DB,KW,KR,GR],
  [("no shared mutable state","whole crate"),("per-call cipher and random state",KW+" write, "+KR+" read")],
  ["results per thread","ThreadSanitizer reports"])

p("C24","Opened trees have correct parent links",
  "After opening any file, every active entry's parent and every subgroup's parent is the identifier of the group that directly contains it, the root group has no parent, and history items carry no parent, at every depth and wherever in the group element its identifier is stored. This still holds after the tree is edited, saved and opened again, whatever the links were before.",
  ["inputs","histories"],
  "all trees, including duplicate identifiers, wrong or stale links before saving, and identifier elements in any position",
  "No test looks at parent links below the first level.",
  [XR,GR,EN],
  [("links set after the group is read",XR+" read_group")],
  ["Entry::parent and Group::parent after open"])

p("C25","Unsupported or malformed files are refused with the right error",
  "A file that is not a supported KDBX file is refused with the error that names the reason: wrong signature, KeePass 1 or unknown database type, unknown header, wrong header size (with id, expected and actual size), unsupported cipher, compression or inner stream, missing mandatory header, wrong key, bad block id, block hash or final-block hash, and mismatching header hash; a saved KeePass 1 database is refused as unimplemented. The reported details (offending bytes, identifiers and sizes) are those found in the file.",
  ["inputs"],
  "every header identifier, size and value, alone and combined with otherwise valid files of any header order",
  "No test opens a file with a bad header.",
  [KR,DB,"src/types/error.rs"],
  [("header validation",KR+" read_*"),("signature check",DB+" open")],
  ["Error value returned by Database::open / save"])

p("C26","Colour, icon and obfuscation codes convert exactly",
  "Every colour prints as a seven-character hash-and-lowercase-hex string that parses back to it; every seven-character hash-and-hex string in either case parses to its colour and every other string is rejected with the error for its defect, without crashing, whatever characters it contains. Icon and obfuscation codes 0-68 and 0-1 convert to distinct values and back, and every other integer is rejected.",
  ["inputs"],
  "all 2^24 colours, all strings, all 32-bit integers",
  "Tests sample single colours and a table of icons; malformed strings beyond wrong length are unsampled.",
  ["src/types/color.rs","src/types/icon.rs","src/types/obfuscation.rs"],
  [("hex parsing","src/types/color.rs from_hex_string"),("code tables","src/types/icon.rs, src/types/obfuscation.rs")],
  ["results of from_hex_string, to_hex_string, from_i32, to_i32"])

p("C27","The work factor and settings chosen by the user are the ones used",
  "The number of key-transformation rounds, the compression, the comment, the format version and every database setting in effect are exactly those of the database being saved: the file declares them, deriving the key really takes that many rounds, and after opening they are those of the file, never silently replaced by defaults, even after repeated reopening. A new database starts with the documented defaults: 10000 rounds, gzip, protected passwords only, a root group named Root.",
  ["configurations","histories"],
  "all rounds, compressions, comments and settings over save/open generations",
  "Tests check the defaults of a new database in memory only.",
  [DB,KW,KR,"src/common.rs"],
  [("rounds written and used",KW+" write"),("settings copied on open",DB+" open_kdb2")],
  ["header fields of saved files","Database fields after open","Database::new"])

p("C28","Times and counts set on entries and groups read back unchanged",
  "Through the Times trait every entry and group, history items included, gives back exactly the creation, expiry, last-access, last-modification and location-change time, expiry flag and usage count that were last set, by setter or directly, over the whole range of dates and counts. Setting one of them changes no other field, no other item and no copy, whether the trait is used directly, generically or as an object, and what was set is what the getters give after saving and opening.",
  ["inputs","histories"],
  "all sequences of the seven setters with direct assignments on any items of any tree, all dates and counts the types hold",
  "The tests have one call of some setters on a default item and never look at the other fields.",
  ["src/types/times.rs",EN,GR,XW,XR],
  [("trait implementations",EN+" / "+GR+" impl Times"),("times written and read",XW+" write_times_section / "+XR)],
  ["Times getters","public fields","Database::open result"])

p("C29","Values are equal exactly when their content is, and copies are independent",
  "Two databases, groups, entries, key files, keys or values compare equal exactly when all of their content is equal - every field at every depth, order of lists, history, protected or plain class, text to the character and time to the nanosecond - and unequal otherwise, in both directions and whatever order their maps were filled in. A copy equals its original, and editing, saving or dropping either leaves the other as it was. Names and identifiers are totally ordered consistently with equality, hash alike when equal, and are found again as map keys.",
  ["inputs","histories"],
  "all pairs of values that are equal or differ in one place of any kind at any depth; all edits of a value or its copy",
  "Tests use equality to judge other things and sample few values; none checks that a difference is seen.",
  [DB,GR,EN,"src/types/string_key.rs","src/types/string_value.rs","src/types/binary_value.rs",KF,CK],
  [("equality and copies",DB+", "+GR+", "+EN+" PartialEq and Clone"),("field identity","src/types/string_key.rs Eq, Ord, Hash")],
  ["==, !=, cmp, hash and clone of public types"])

p("C30","New items start with the documented content and a fresh identity",
  "A new entry, group, database or key file starts exactly as documented - empty, with the default icon, flags, limits and rounds, the name or key it was given, times of the moment it was made, no parent, and for new items a never-used identifier (nil for default ones) or a fresh 32-byte key of the type asked for - whatever was built, edited, saved, opened, refused or dropped before, in whichever thread. Making one changes nothing made before, and saving and opening keeps it.",
  ["histories","schedules"],
  "all histories of uses between which items are made, in one or several threads; all names and keys",
  "Tests make single items in a fresh process.",
  [EN,GR,DB,KF,"src/types/entry_uuid.rs","src/types/group_uuid.rs","src/common.rs"],
  [("starting content",EN+", "+GR+" Default; "+DB+" new"),("fresh identity","src/types/entry_uuid.rs, src/types/group_uuid.rs new_random"),("new key files",KF+" new_*")],
  ["public fields of new items"])

p("C31","Cost grows with the content only, and nothing is kept afterwards",
  "The processor time and peak memory of building, saving, opening, iterating, searching, looking up, copying and comparing grow in proportion to the content, whichever part of it is large - many groups, entries, fields, history items, attachments, icons, associations or settings, long texts, large attachments, any tree shape, or a foreign document of many pieces, comments, unknown elements or small blocks (the indentation of deep nesting counts as content). After any sequence of uses, successful or refused, and the end of what they made, no memory, open file or thread is kept.",
  ["inputs","histories"],
  "all shapes of content at growing size; all sequences of uses repeated",
  "Tests use databases of a few items, in which no cost or leak can be seen.",
  [DB,GR,KW,KR,XW,XR,XM,"src/crypto/salsa20.rs","src/io/log_reader.rs","src/io/log_writer.rs"],
  [("iteration queues",GR+" Iter, IterMut"),("search and lookup",DB),("payload blocks",KR+" / "+KW),("text assembly",XM)],
  ["thread CPU time","bytes allocated and freed","/proc/self/fd and task"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")

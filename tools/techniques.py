# id -> (technique, level, level note)
EX = "exploration"
M = "runtime monitoring: "
T["C01"] = (M + "model-based round-trip oracle over generated databases", EX,
  "Every generated database is compared field by field with an independent model after save and open; sampled, not exhaustive.")
T["C02"] = (M + "save/reopen oracle over hostile values in every text field", EX,
  "Every character class that XML or the header cannot carry is put in every text field in turn; combinations are sampled.")
T["C03"] = (M + "lock-step model over random edit/save/open histories", EX,
  "After every edit and every generation the database equals the model; histories are sampled.")
T["C04"] = (M + "near-miss key oracle, cross-checked with an independent decoder", EX,
  "Every systematic near miss of each generated key is tried; keys are sampled.")
T["C05"] = (M + "tamper injection with reject-or-same-meaning oracle", "fault_enumeration",
  "Every header byte and every bit of small files is changed exhaustively, other regions and databases are sampled; includes changes by key holders.")
T["C06"] = (M + "crash-point injection (every prefix, torn sector mixes)", "fault_enumeration",
  "Every proper prefix of the generated files and every hashed-block boundary; databases are sampled.")
T["C07"] = (M + "scripted destinations injecting every write failure point", "fault_enumeration",
  "Every write call of each workload is failed, shortened and interrupted in turn; databases are sampled.")
T["C08"] = (M + "scripted sources injecting chunkings, interruptions and read errors", "fault_enumeration",
  "Every read call of each workload is failed in turn, chunkings are exhaustive for small sizes; files are sampled.")
T["C09"] = (M + "crash monitor (panic hook, memory cap, CPU watchdog) over mutated files", EX,
  "Mutations are sampled; every header field size and every truncation of the seeds is tried.")
T["C10"] = (M + "crash and typed-error monitor over malformed payloads made by an independent writer", EX,
  "Each element of the document is mutated structurally, lexically and by type; combinations are sampled.")
T["C11"] = (M + "independent KDBX 3.1 decoder as the oracle on saved files", EX,
  "Every saved file is decoded and checked by a second implementation and a second XML parser; databases are sampled.")
T["C12"] = (M + "independent KDBX 3.1 writer as the workload, model as the oracle", EX,
  "Each legal choice of a writer is taken alone and in random combinations.")
T["C13"] = (M + "planted-secret scan of saved bytes and of the decrypted document", EX,
  "Distinctive secrets in every field are searched for in several encodings; databases are sampled.")
T["C14"] = (M + "freshness monitor over all random draws of threads and processes", EX,
  "All draws of a run are kept and compared, bit statistics included, also in processes with a frozen clock; cannot show unpredictability as such.")
T["C15"] = (M + "planted-secret scan of debug output, errors, stdout and stderr, and a non-interference monitor on pairs", EX,
  "Distinctive secrets in every field and key, several encodings, all printable types; pairs that differ only in a secret; inputs are sampled.")
T["C16"] = (M + "differential test of the key derivation against an independent implementation", EX,
  "Both directions (files of the library, files of the reference) over generated keys and rounds.")
T["C17"] = (M + "round-trip and strictness oracle over key files of all types and their corruptions", EX,
  "Single-byte corruptions are exhaustive for the seeds; keys and layouts are sampled.")
T["C18"] = (M + "reference search as the oracle for all four searches", EX,
  "Trees and queries are sampled, with queries cut from the texts themselves and all case-folding specials.")
T["C19"] = (M + "reference traversal as the oracle for iteration and lookups", EX,
  "Small tree shapes are exhaustive, larger ones and editing programs are sampled.")
T["C20"] = (M + "lock-step model over add/remove histories", EX,
  "Histories are sampled, with duplicate, nested and absent identifiers.")
T["C21"] = (M + "lock-step model over setter/getter histories", EX,
  "Histories are sampled; name mapping is exhaustive over letter cases.")
T["C23"] = (M + "ThreadSanitizer plus an equality oracle on results of concurrent threads with injected delays", EX,
  "Interleavings are sampled, with delays and yields injected; the evidence counts overlapping calls.")
T["C24"] = (M + "parent-link invariant checked after every open", EX,
  "Trees, identifier positions and stale links are sampled.")
T["C25"] = (M + "expected-error oracle over systematically broken headers and blocks", EX,
  "Every header field is broken in every listed way; files and details are sampled.")
T["C26"] = (M + "exhaustive enumeration with a reference conversion", EX,
  "Exhaustive over all 2^24 colours and all 2^32 integers; damaged strings are sampled.")
T["C27"] = (M + "settings oracle with measured work factor", EX,
  "Each setting alone and in combination over generations; the rounds really made are confirmed by the independent decoder.")
T["C22"] = (M + "Miri (Stacked and Tree Borrows) and AddressSanitizer over random safe programs", EX,
  "Programs and files are sampled; dependencies are replaced or trusted under Miri and instrumented only by AddressSanitizer.")
T["C28"] = (M + "lock-step model of the seven fields beside the real setters and getters", EX,
  "Sequences are sampled; the fields, ways of calling and kinds of item are all covered.")
T["C29"] = (M + "equality oracle from independently kept plain data, one change at a time", EX,
  "Every field is changed alone at varying depth; combinations of differences and map orders are sampled.")
T["C30"] = (M + "comparison of new items with a fixed record over histories and threads", EX,
  "Histories and schedules are sampled; all kinds of new item and all fields are compared.")
T["C31"] = (M + "CPU-time and allocation monitors at two sizes, leak monitor over repeated uses", EX,
  "Growth is judged between two sizes a factor of eight apart per shape: an excess below three times proportional, or below a quarter of a second or 64 MiB, is not seen.")

t("C01", "runtime monitoring: random histories with a reference-map oracle over every read and the raw key space",
  "Every observed read and key space of the executed histories equals the map model; nothing is shown about histories not run. Trusts the harness's row comparison and its independent key encoder.")
t("C02", "runtime monitoring: raw index key space compared after every call with entries computed independently from the stored rows",
  "Exact key-space equality after every write call of the executed histories. Trusts the harness's independent key encoder.")
t("C03", "runtime monitoring: fault injection at every row, user call-back, context look-up and storage write of generated write calls, raw key space compared before and after",
  "Every injected fault of the executed cases left the key space unchanged or completely applied; faults at points the generated calls do not reach are not covered.", "fault_enumeration")
t("C04", "runtime monitoring: crash injection (storage cut at sampled and enumerated sync points, SIGKILLed writer processes) with an acknowledged-prefix oracle after recovery",
  "Every crash state produced recovered to a prefix containing all acknowledged calls. Crash states are those of pebble's strict in-memory file system and killed processes, not of real power loss.", "fault_enumeration")
t("C05", "runtime monitoring: model-based interleavings of batches, every read path and the raw key space compared with the committed state overlaid with each batch's own writes",
  "All reads of the executed interleavings equal the overlay model. Keys are owned by one batch at a time; conflicting unordered writes are out of the property.")
t("C06", "runtime monitoring: random queries over random content with an oracle computing the meaning of the clauses from the row set",
  "Every executed query (incl. derived ones) equals its meaning. After rows are only used where the property defines them (parts not overlapping).")
t("C07", "runtime monitoring: random selections read through every scan, get and iterator interface with an oracle over the independently encoded positions",
  "Every executed selection yields the entries described. Seeks of multi-part iterators are not implemented in bond and not exercised.")
t("C10", "runtime monitoring: random intersections with an oracle intersecting the selected sets",
  "Every executed intersection equals the set intersection; unsupported clauses observed refused.")
t("C11", "runtime monitoring: random page walks compared with the unpaged query, with writes between pages and a visit-exactly-once monitor",
  "Every executed walk visits each (unchanged) row exactly once.")
t("C08", "runtime monitoring: an encoding monitor comparing every encoded key with an independent encoder, recorded vectors, value order and the decoded parts",
  "Every compared pair and key of the executed cases is ordered, distinct and decodable as documented (16-bit values exhaustively). Multi-field keys with a variable-length field before others are not ordered or injective and are out of the property.")
t("C09", "runtime monitoring: index listings and order encodings observed against a comparison of the field values themselves",
  "Every executed listing and pair sorts as the values do (16-bit values exhaustively). Two limits of the stored format are recorded in KNOWN_FINDINGS.")
t("C12", "runtime monitoring: spoiled index key spaces rebuilt or added, the whole key space compared with entries computed from the rows",
  "Every rebuild and addition of the executed cases left exact indexes and nothing else changed. Rebuilds concurrent with writers are out of the property.")
t("C13", "runtime monitoring: race detector plus a map oracle over sequential and concurrent lookups with bloom filters and with a filter free of false positives",
  "No executed lookup hid a row and no race was observed. Interleavings are those the scheduler and injected delays produced.")
t("C14", "runtime monitoring: store fault injection over sequences of process lives; all rows looked up after every initialization and load, other users' store entries compared",
  "Every initialization and load of the executed histories kept all rows except the stale saves listed in KNOWN_FINDINGS. Store faults are failed operations, missing and damaged entries.", "fault_enumeration")
t("C15", "runtime monitoring: dumps restored through API and command line tool, raw key spaces of source and target compared; dumps with concurrent writers checked against the commit history; storage read faults and damaged dumps",
  "Every executed dump and restore was exact or reported an error; dumps under concurrent writers were single snapshots of rows and indexes for the interleavings produced.")
t("C16", "runtime monitoring: race detector plus an offline snapshot-consistency checker over recorded call/return histories of concurrent readers and disjoint writers",
  "Every read of the recorded histories is explained by one moment respecting real-time order; no race, deadlock or error observed. Interleavings are those the scheduler and injected pauses produced.")
t("C17", "runtime monitoring: neighbouring key spaces, sentry entries and user keys compared byte for byte around every operation",
  "No executed operation changed a key outside its own part of the key space or read from one. Filter prefixes that are prefixes of one another are out of the property.")
t("C18", "runtime monitoring: storage read fault injection at sampled reads of every operation, outcomes compared with a model of the content, key space compared after failed writes",
  "Every injected read fault of the executed cases gave an error or the correct result and left the database usable. Table.Exist can't report errors (KNOWN_FINDINGS). Faults are failed reads of pebble's files, not silently damaged data.", "fault_enumeration")
t("C19", "runtime monitoring: contexts cancelled at every kind of look-up and call-back, outcome, later call-backs and key space monitored",
  "Every injected cancellation of the executed calls stopped them with the context's error and no effect, or they had nothing left to do. Point reads don't look at the context and are out of the property.", "fault_enumeration")
t("C28", "runtime monitoring: scan functions with random row-taking patterns, nested scans and writes inside, stops and errors; every call compared with the selected entries",
  "Every executed for-each scan made exactly the calls described with the right key and row and ended as its function said.")
t("C20", "runtime monitoring: race detector plus round-trip and held-bytes monitors over random call sequences on shared serializers, directly and through tables",
  "Every value written in the executed sequences read back equal and no bytes in someone's hands changed. JSON and CBOR text is valid UTF-8; values are read into fresh variables.")
t("C21", "runtime monitoring: race detector plus an offline uniqueness and real-time order checker over every identifier drawn concurrently",
  "Every drawn identifier of the executed runs was unique and ordered, across changes of the second, exhaustion and clocks going back (set up through the sequence's state).")
t("C22", "runtime monitoring: the batch call-back sequence of every batch life (commit, apply, close, repeat, storage faults, panicking and failing call-backs) compared with the documented one",
  "Every executed batch life ran exactly the due call-backs once, in order. Sync faults are injected at the storage layer.", "fault_enumeration")
t("C23", "runtime monitoring: histories of open, refused open, migration and close on real directories with directory and key-space monitors, plus databases recorded by the pinned commit",
  "Every executed opening gave the recorded content or was refused without effect, for every storage format and recorded database. Migrating to an older format is out of the property.")
t("C24", "runtime monitoring: every answer of the inspection interface, HTTP handler, remote client and command line compared with the direct query mapped independently, concurrent requests under the race detector",
  "Every executed request got the direct query's rows or was refused as due through each transport. Values of requests through HTTP are scalars or null.")
t("C25", "runtime monitoring: condition trees evaluated against an independent evaluation, repeatedly and concurrently under the race detector, and as query filters",
  "Every executed comparison and tree had its truth value; no race, no changed record.")
t("C26", "pool monitor (hook in the buffer pools: poison, double hand-out, double return, write after return) + race detector + comparison of every value handed in and out", "1-5 goroutines on their own tables, batches and user keys in one database, with failing, cancelled, stopped and nested operations and values longer than the buffers")
t("C27", "runtime monitoring: race detector plus a presence counter around every function given to a synchronized batch, a model of what the functions wrote, and a watchdog for functions that never run; look-ups in trees of derived contexts compared with an independent reading of the tree",
  "Every executed function was alone in its batch, saw what the earlier ones wrote, and ran even after others had failed, panicked or exited; every look-up gave the batch the context was derived with.")
t("C29", "runtime monitoring: census of recycled buffers (hook in the pools), batches, iterators, snapshots, value closers, open files, descriptors and goroutines after every operation made successful, refused, cancelled, stopped or failing at a sampled point, and of failed openings and migrations",
  "After every executed operation nothing made inside was left, Close reported nothing and the directory opened again at once. Faults inside pebble's own opening and background work are not judged.", "fault_enumeration")

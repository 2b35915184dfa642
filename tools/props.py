# The source of properties.jsonl and MANIFEST.json (tools/gen.py writes them).
P = []


def p(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, observe=observe or []))


p("P01", "The log is a faithful ordered sequence, in memory and on disk",
  "Every entry accepted by a log is assigned the next index and a timestamp strictly above the head, stays readable unchanged under that index by any index range, time range, raw or parsed read, and survives closing and reopening the file. "
  "A write whose timestamp does not advance the head is rejected and changes nothing observable, and head updates survive reopening just as entries do. "
  "The in-memory and the file logs behave identically, and a log file written for another type or name is refused and left untouched.",
  ["histories", "inputs"], "all histories of publishes (default, explicit, stale and equal timestamps), head updates, reopenings and range reads, over all entry contents",
  "Tests replay a few fixed histories with hand-picked timestamps; the property is about every interleaving of rejected writes, head updates, reopenings and ranges.",
  ["blocks/persistence/file.h", "blocks/persistence/memory.h", "blocks/ss/persister.h", "blocks/ss/idx_ts.h"],
  [("offsets and timestamps pushed under one lock together with the appended line", "blocks/persistence/file.h FilePersister::PersisterPublishUnsafe"), ("replay of the file on open", "blocks/persistence/file.h ValidateFileAndInitializeHead")],
  "model-based stateful PBT against a list model, memory vs file differential", "Random histories up to 31 operations over two entry types, under AddressSanitizer; trusts the harness's list model and the OS file system.")

p("P02", "A log file torn or damaged at any byte never yields wrong entries",
  "If writing stops after any byte of the log file, opening that file either succeeds and shows exactly the entries whose lines were completely written, or reports a malformed or interrupted file; a head update cut short loses at most itself. "
  "It never shows a truncated, merged, reordered or invented entry, and writing after a successful opening never corrupts what was there. "
  "An arbitrarily damaged file is opened consistently or rejected with an exception, never crashing; a write which the file system refuses is reported and leaves the log as it was, and a log which can not be written to is not opened.",
  ["crash_points", "inputs"], "every byte prefix of files written by random histories, and random edits of their bytes",
  "Tests check a handful of malformed files; there are as many crash points as bytes.",
  ["blocks/persistence/file.h"],
  [("signature, index and timestamp validation on open", "blocks/persistence/file.h"), ("head directive offset reuse", "blocks/persistence/file.h")],
  "crash-point enumeration over random histories plus mutation fuzzing of the file, with a line-model oracle", "Each case cuts or edits the file of a random history; crash = prefix of the byte stream (no reordering of sectors).", level="fault_enumeration")

p("P03", "Every subscriber sees every entry exactly once, in order, until it ends",
  "A stream subscriber, starting from any index, receives each entry from its starting point exactly once, in publication order, unchanged and with its true index and timestamp and a truthful last-published position, however publishers, head updates and other subscribers interleave, whether it reads parsed or raw entries. "
  "A subscriber to one case of a variant receives exactly the entries of that case, and head updates it is told of never run ahead of entries not yet delivered to it. "
  "Subscribing ends when the subscriber says so, when its scope is cancelled or when the stream goes away; after that no more calls are made, and the completion callback runs exactly once.",
  ["schedules", "histories"], "all interleavings of publishers, head updates and subscribers joining and leaving, all starting indices",
  "Tests use one publisher with sleeps; the claim is over all interleavings and starting points.",
  ["stream/stream.h", "blocks/ss/pubsub.h", "stream/stream_impl.h"],
  [("subscriber thread loop over the persister with wait on publish", "stream/stream.h SubscriberThreadInstance"), ("type filter dispatch", "blocks/ss/pubsub.h / ss.h")],
  "randomized concurrent histories with delivery-log oracle", "Real threads with randomised pauses; schedules are sampled, not enumerated.")

p("P04", "The HTTP view of a stream returns exactly the requested slice",
  "For any combination of the documented query parameters (first index, tail, count, since, recent, period, byte limit, no-wait, array, checked or unchecked, entries only, size only, schema), an HTTP read of a stream returns exactly the lines or the array a reference selection over the log gives, and the documented status and headers. "
  "Malformed or contradictory parameters never crash or hang the server, and methods other than GET and HEAD are refused; a waiting read keeps receiving later entries in order until its limits are met, the stream ends or it is terminated.",
  ["inputs", "histories"], "all combinations of parameters over all logs",
  "Tests check a couple of dozen fixed URLs against one log; combinations are not covered.",
  ["stream/pubsub.h", "stream/stream.h"],
  [("query parsing", "stream/pubsub.h ParsePubSubHTTPRequest"), ("entry filter and termination", "stream/pubsub.h PubSubHTTPEndpointImpl")],
  "PBT over parameter combinations and logs against a reference selector, over real loopback HTTP", "The reference selector re-implements the documented parameters; real sockets on loopback.")

p("P05", "A remote replica converges to exactly the leader's log",
  "A follower subscribed to another stream over HTTP ends up with exactly the leader's entries: same order, indices, timestamps and bytes, whichever index it starts from, wherever the transfer is cut into chunks, and however the leader's publishes and head updates interleave with it. "
  "A malformed, out-of-order or truncated feed is never accepted as entries; entries already replicated stay intact and replication resumes after the last good one.",
  ["inputs", "schedules", "fault_sequences"], "all logs, all ways of splitting the feed into chunks, all cut and corruption points of the feed",
  "Tests replicate one log over an unbroken connection; splitting and corruption points are not explored.",
  ["stream/replicator.h", "stream/stream.h", "blocks/ss/pubsub.h"],
  [("carried-over partial lines between chunks", "stream/replicator.h RemoteStreamSubscriber::PassChunkToSubscriber"), ("re-subscription from the next index", "stream/replicator.h")],
  "PBT over chunk splittings, feed corruptions and full loopback replications, against the leader's log", "Splittings are driven directly; whole replications run over loopback HTTP.")

p("P06", "A stream has one writer, and handing it over loses nothing",
  "At any time at most one party can publish to a stream; once the publisher has been handed to a follower, publishing through the stream itself fails and changes nothing, and taking it back restores it. "
  "Across any history of borrowing, moving and returning the publisher, becoming follower or master, and publishing from whoever holds it, the log holds exactly the successfully published entries in order. "
  "A borrowed object stays alive and usable until its last borrower is gone, and the owner's destruction waits for exactly that.",
  ["histories", "schedules"], "all histories of hand-overs between master and follower roles with publishes in between",
  "Tests walk through one hand-over in each direction.",
  ["stream/stream.h", "stream/stream_impl.h", "bricks/sync/owned_borrowed.h"],
  [("publisher borrowing", "stream/stream.h"), ("reference counted ownership", "bricks/sync/owned_borrowed.h")],
  "model-based stateful PBT over ownership operations", "Single-threaded histories checked against a model, threaded ones against ownership invariants.")

p("P07", "Storage containers behave as the maps and matrices they declare",
  "For any sequence of additions, updates, removals and lookups, each storage container (ordered and unordered dictionaries, and the many-to-many, one-to-many and one-to-one matrices) holds exactly what its mathematical counterpart holds: lookups, membership, sizes, key ordering where promised, row and column views and every iteration agree. "
  "Adding or removing in a matrix keeps the row view, the column view and the cell view consistent, and one-to-many and one-to-one containers never hold two cells that break their uniqueness. "
  "The last modification time of each key reflects its latest addition or removal.",
  ["histories", "inputs"], "all operation sequences over all key and value contents",
  "Tests use a few fixed sequences on a few keys.",
  ["storage/container/dictionary.h", "storage/container/many_to_many.h", "storage/container/one_to_many.h", "storage/container/one_to_one.h"],
  [("double indexing by row and column", "storage/container"), ("last modified bookkeeping", "storage/container")],
  "model-based stateful PBT of every container against std::map models", "Small key domains so that collisions are frequent; under AddressSanitizer.")

p("P08", "A storage transaction is all or nothing",
  "A read-write transaction that throws, or is rolled back explicitly, leaves every field, last-modified time and the transaction log exactly as they were; one that completes appends exactly one log entry, containing exactly its net mutations and metadata, and leaves memory equal to what the transaction built. "
  "Read-only transactions see a committed state and never change it, values returned from transactions arrive intact, and concurrent transactions are equivalent to running them one after another.",
  ["histories", "schedules", "fault_sequences"], "all transaction bodies over all fields, with exceptions or rollback at every point, and concurrent transactions",
  "Tests roll back a handful of fixed transactions.",
  ["storage/storage.h", "storage/transaction.h", "storage/base.h", "storage/persister/stream.h", "storage/container/dictionary.h", "storage/container/many_to_many.h", "storage/container/one_to_many.h", "storage/container/one_to_one.h"],
  [("mutation journal with rollback closures", "storage/base.h MutationJournal"), ("commit to the stream under the storage lock", "storage/persister/stream.h")],
  "model-based stateful PBT with injected exceptions at random points, snapshot oracle", "Exceptions are injected at every operation boundary; concurrency is sampled with counters.", level="fault_enumeration")

p("P09", "Replaying the transaction log rebuilds the storage exactly",
  "Restarting a storage from its file, following its stream live or taking over as master yields, for every field, exactly the state the original has after the same transactions, including keys, values and last-modified times. "
  "Transactions keep their log order, and after taking over the new master continues the same log without loss, duplication or overlap.",
  ["histories", "crash_points"], "all histories of transactions, restarts at any point, followers and take-overs",
  "Tests replay one short log per container.",
  ["storage/storage.h", "storage/persister/stream.h", "storage/base.h"],
  [("replay of persisted mutations", "storage/persister/stream.h"), ("master/follower flip", "storage/storage.h")],
  "model-based stateful PBT: original vs restarted vs following storages, over random histories", "State compared through full dumps of all fields with last-modified times.")

p("P10", "The REST interface acts on the storage exactly as HTTP verbs promise",
  "Every GET, POST, PUT, PATCH and DELETE over the generated REST interface has exactly the effect on the addressed record that a reference dictionary would show, and no effect on any other; its status code and reply agree with whether the record existed, and a rejected request changes nothing. "
  "Conditional requests honour the supplied modification time, keys survive the round trip through the URL, and listing a collection returns exactly its current records. "
  "Malformed bodies, keys and methods get an error status, never a crash.",
  ["histories", "inputs"], "all request histories over all keys, bodies, headers and fields",
  "Tests issue a fixed list of requests.",
  ["storage/api.h", "storage/rest/plain.h", "storage/rest/simple.h", "storage/rest/hypermedia.h", "storage/rest/structured.h", "storage/api_types.h"],
  [("handlers per verb inside a transaction", "storage/rest/*.h"), ("key parsing from URL", "storage/rest/*.h")],
  "model-based stateful PBT over loopback HTTP against a dictionary model", "Real HTTP over loopback; dictionaries and matrices.")

p("P11", "Serialising then parsing any value returns the same value",
  "For every supported type and value, parsing the JSON it serialises to, in the same format, gives back an equal value, and serialising again gives the same bytes; this covers integers at their limits, floating point numbers, arbitrary strings, optionals, variants, enumerations, times, nested and inherited structures, and every container. "
  "The produced text is always valid JSON, and in the two formats meant for other languages its documented encoding of variants, optionals and missing fields is followed.",
  ["inputs", "programs"], "all values of all supported type shapes, in all JSON formats",
  "Tests round-trip a few literals per type.",
  ["typesystem/serialization/json.h", "typesystem/serialization/json"],
  [("type-directed serialisers and parsers", "typesystem/serialization/json/*.h")],
  "round-trip PBT with an independent JSON validator", "Random values over a schema covering each supported construct, in four formats.")

p("P12", "Parsing any text as any type accepts it correctly or throws",
  "Given arbitrary bytes, the JSON parser for any type either returns a value that the text really describes or throws one of its documented exceptions; it never crashes, reads uninitialised or out-of-bounds memory, or silently leaves parts of the target unset. "
  "Required fields that are missing, values of the wrong kind, integers out of range of the field, arrays of a wrong fixed size and unknown variant cases are rejected with an error naming where, and field order and unknown extra fields never matter.",
  ["inputs"], "all byte strings, in particular all mutations of valid documents, for all type shapes",
  "Tests try a dozen malformed literals.",
  ["typesystem/serialization/json.h", "typesystem/serialization/json"],
  [("kind checks at each leaf", "typesystem/serialization/json/*.h"), ("path tracking for errors", "typesystem/serialization/json/json.h")],
  "grammar-aware mutation fuzzing with an independent reference decoder", "Sanitized build; a generic JSON model decides acceptance.")

p("P13", "Patching an object changes exactly the fields the patch names",
  "Applying a JSON patch to a value of any type replaces exactly the fields present in the patch, recursively through nested structures, leaves every other field as it was, and equals what a reference merge predicts; an empty patch changes nothing and applying the same patch twice equals applying it once. "
  "A patch that does not fit the type is rejected with an exception.",
  ["inputs"], "all pairs of values and patches",
  "Tests patch a few fields of one structure.",
  ["typesystem/serialization/json.h", "typesystem/serialization/json"],
  [("patch mode of field deserialisation", "typesystem/serialization/json/json.h PatchObjectWithJSON")],
  "metamorphic PBT with a reference merge", "Patches are derived from a second random value by keeping random subsets of its fields.")

p("P14", "Optionals, variants and structures obey value semantics",
  "Copying, moving, assigning, swapping, comparing, emptying and visiting optionals, variants and structures behave as they do for plain values: a copy is equal and independent, assignment (to itself included) preserves the value, reading an absent one throws rather than yields garbage, and exactly one visitor case runs, the one of the held type. "
  "No sequence of such operations leaks, double-frees or touches freed memory.",
  ["histories", "inputs"], "all sequences of constructions, assignments, moves, resets, visits over a pool of objects",
  "Tests try each operation once, on fresh objects.",
  ["typesystem/optional.h", "typesystem/variant.h", "typesystem/struct.h", "typesystem/helpers.h"],
  [("type-erased owned objects with dynamic dispatch", "typesystem/variant.h"), ("optional holding a pointer", "typesystem/optional.h")],
  "model-based stateful PBT over a pool of objects, under AddressSanitizer", "Compared to std::variant / std::optional models.")

p("P15", "Type descriptions are faithful and stable",
  "The type identifier of a structure depends on its name and on the names and types of its fields and bases, and on nothing else: the same declaration gives the same identifier in any program, in any thread, and in any order of first use, and a declaration with one name, field or base changed, added, removed or moved gives a different one. "
  "A reflected schema survives the round trip through JSON, and the source code generated from it, compiled again, reflects to the same schema and identifiers and reads and writes the same JSON.",
  ["programs", "inputs"], "all structure declarations the macros can express",
  "Tests pin identifiers of a few structures.",
  ["typesystem/reflection/reflection.h", "typesystem/reflection/types.h", "typesystem/schema/schema.h"],
  [("hash over reflected fields", "typesystem/reflection/types.h CalculateTypeID"), ("language syntaxes", "typesystem/schema/schema.h")],
  "random type-declaration programs: generate, compile, reflect, compare with a reference", "Programs are random sets of declarations compiled per run; fewer but larger cases.")

p("P16", "Schema evolution carries every value over unchanged where it can",
  "Evolving a value from one version of a schema to another with the generated default evolvers carries over every field, through vectors, pairs, maps, optionals, variants, templates and inheritance, whatever their order, and a custom evolver's result is used exactly where its type occurs and nowhere else, all else being carried over. "
  "Evolution into an identical schema is the identity, and the result does not depend on what the destination held before.",
  ["inputs", "programs"], "all values of all evolved schemas",
  "Tests evolve a few literal values.",
  ["typesystem/evolution/type_evolution.h", "typesystem/schema/schema.h"],
  [("per-type evolvers", "typesystem/evolution/type_evolution.h")],
  "PBT over random values of related schemas", "The evolvers are generated by the schema exporter and compiled; values are random.")

p("P18", "URLs decompose and recompose without loss",
  "Any URL is split into scheme, host, port, path, parameters and fragment exactly as written, composing the parts gives back an equivalent URL, and resolving against a previous URL keeps what is omitted. "
  "Any parameter names and values, of arbitrary bytes, survive encoding into a query string and decoding from it, and decoding never reads outside its input.",
  ["inputs"], "all URLs, all parameter maps, all bytes",
  "Tests try a list of plain ASCII URLs.",
  ["blocks/url/url.h"],
  [("percent encoding and decoding", "blocks/url/url.h"), ("query parameter extraction", "blocks/url/url.h URLParametersExtractor")],
  "round-trip PBT and a reference parser", "Under AddressSanitizer.")

p("P19", "HTTP messages mean the same however the bytes arrive",
  "Parsing a request or response gives the same method, URL, headers and body for every way its bytes are split into reads, for plain and chunked bodies of any content and size, pipelined or not. "
  "Replies written by the server, plain, chunked or with arbitrary headers and codes, are received by the client exactly as sent. "
  "Malformed, truncated or oversized input is refused with an exception, never crashing, hanging, or being taken for a complete message.",
  ["inputs", "schedules", "fault_sequences"], "all messages, all segmentations, all truncation points, all corruptions",
  "Tests send a few messages, most in one write.",
  ["blocks/http/impl/posix_server.h", "blocks/http/impl/posix_client.h", "blocks/http/request.h", "blocks/http/response.h", "blocks/http/chunked_response_parser.h", "bricks/net/http/impl/server.h", "bricks/net/http/codes.h", "bricks/net/tcp/impl/posix.h"],
  [("incremental header and body parsing", "bricks/net/http/impl/server.h"), ("chunk parser", "blocks/http/chunked_response_parser.h")],
  "differential PBT over segmentations on socket pairs, mutation fuzzing of messages", "Real loopback sockets plus the in-process parsers; under AddressSanitizer.", level="exploration")

p("P20", "Requests reach exactly the handler registered for their path",
  "Over any history of registering and removing handlers, a request reaches the handler of the longest registered path that matches it with an admitted number of remaining path arguments, receives exactly those arguments in order, and gets a not-found reply when there is none. "
  "Conflicting registrations are refused and change nothing, and removing a scope removes exactly what it added, as does leaving it.",
  ["histories", "inputs"], "all histories of registrations and removals, all request paths",
  "Tests register a few handlers.",
  ["blocks/http/impl/posix_server.h", "blocks/url/url.h"],
  [("map from path and argument count to handler", "blocks/http/impl/posix_server.h")],
  "model-based stateful PBT over loopback HTTP", "Compared to an independent routing model.")

p("P21", "HTTP headers and cookies behave as a case-insensitive map",
  "For any sequence of setting, emplacing, reading, removing, copying and moving, the headers container holds exactly what a case-insensitive map with insertion order would, including cookies and their attributes, and copies are independent. "
  "Header and cookie values survive being sent over the wire and parsed back.",
  ["histories", "inputs"], "all sequences of operations over all names and values",
  "Tests perform a few operations on a few names.",
  ["bricks/net/http/headers/headers.h"],
  [("list plus index by lower-cased name", "bricks/net/http/headers/headers.h")],
  "model-based stateful PBT, under AddressSanitizer", "Compared to a case-insensitive map model.")

p("P22", "String helpers obey their algebra",
  "Splitting and joining are inverse up to the documented dropping of empty pieces, for any separators, in every form the helpers come in; formatting, trimming, case changes, key-value splitting, grouping by lines, escaping, rounding, time intervals, named groups of regular expressions, chunks and the string distances agree with direct reference definitions on all inputs. "
  "None of them reads outside its input or alters it unless it says so.",
  ["inputs"], "all strings, separators and option combinations",
  "Tests try a few short strings.",
  ["bricks/strings"],
  [("the helpers themselves", "bricks/strings/*.h")],
  "PBT against naive reference definitions", "Under AddressSanitizer.")

p("P23", "Values convert to text and back unchanged",
  "Converting any integer, boolean, string, enumeration or duration to its text form and back yields the same value, in the general and the fixed-width forms; floating-point numbers keep the six decimals their text form has; the fixed-width forms of unsigned numbers and of durations that are not negative sort as text exactly as the values do. "
  "Of a text that is more than a value the leading number is taken, and text that is not a value gives zero, never garbage.",
  ["inputs"], "all values of all supported types, and arbitrary text",
  "Tests try a few numbers.",
  ["bricks/strings/util.h", "bricks/strings/fixed_size_serializer.h", "typesystem/reflection"],
  [("from/to string conversions", "bricks/strings/util.h")],
  "round-trip and order-preservation PBT", "All integral widths, boundary-biased.")

p("P24", "Encodings and digests match their standards on every input",
  "Base64 in both alphabets, SHA-256, CRC-32 and bit rotation give what their standards define for every input, at once or in pieces, decoding inverts encoding, and text with bytes foreign to the alphabet is rejected rather than decoded to something else. Random numbers stay within the range asked for and are reproducible by the seed.",
  ["inputs"], "all byte strings",
  "Tests check a few vectors.",
  ["bricks/util/base64.h", "bricks/util/sha256.h", "bricks/util/crc32.h", "bricks/util"],
  [("table driven codecs", "bricks/util/*.h")],
  "differential PBT against independent implementations", "Reference implementations written from the standards in the harness.")

p("P25", "Times format and parse consistently",
  "Formatting any time point and parsing it back with the same format returns the same second, in UTC, including the standard internet formats and ISO 8601, across leap years, day and month boundaries, centuries, and the era before 1970; text that does not start as the format requires gives the zero time. "
  "The clock never reports the same or an earlier time twice.",
  ["inputs", "schedules"], "all time points and formats, all interleavings of clock readers",
  "Tests check a few dates.",
  ["bricks/time/chrono.h"],
  [("format and parse helpers", "bricks/time/chrono.h"), ("monotonic now", "bricks/time/chrono.h")],
  "round-trip PBT against a reference calendar; concurrent clock readers", "Reference calendar by civil-day arithmetic.")

p("P26", "Command line flags are parsed exactly as given",
  "For any set of declared flags and any command line mixing the accepted spellings, each flag ends with the last value given or its default, the positional arguments remain in order, and any malformed, unknown or mistyped flag ends the program with an error rather than being ignored.",
  ["inputs"], "all command lines over all declared flag types",
  "Tests parse a few command lines.",
  ["bricks/dflags/dflags.h"],
  [("parse loop and typed setters", "bricks/dflags/dflags.h")],
  "model-based PBT over random command lines", "Each case runs with a mock registerer.")

p("P27", "Waiting on shared state never misses or invents a change",
  "A waiter on shared state returns exactly when its predicate holds or its scope is cancelled or its time is up; updates made under the lock are atomic and none is lost, and every waiter whose predicate holds after the last update is woken. "
  "Destroying shared state tells every client still using it, waits until all of them are gone, and never lets it be used afterwards; exclusive uses never overlap; a borrower declared to be outlived by its owner which is not, however it was moved, is reported and fatal.",
  ["schedules"], "all interleavings of mutators, waiters, timed waiters, clients and owners",
  "Tests have one waiter and one mutator.",
  ["bricks/sync/waitable_atomic.h", "bricks/sync/owned_borrowed.h", "bricks/sync/locks.h"],
  [("notify after locked mutation", "bricks/sync/waitable_atomic.h")],
  "randomized concurrent schedules with invariants, under ThreadSanitizer", "Schedules are sampled.")

p("P28", "Queues deliver every message once, in order",
  "Under any number of concurrent publishers, the message queues deliver to their consumer each accepted message exactly once, unchanged, with consecutive indices and increasing timestamps, in an order consistent with each publisher's; a dropping queue drops only when full and counts precisely what it dropped, and a blocking one never drops. "
  "The priority variant delivers in timestamp order and never loses or repeats a message.",
  ["schedules", "histories"], "all interleavings of publishers and consumer at all buffer sizes",
  "Tests use fixed patterns with sleeps.",
  ["blocks/mmq/mmq.h", "blocks/mmq/mmpq.h", "blocks/ss"],
  [("circular buffer with states under a mutex", "blocks/mmq/mmq.h")],
  "randomized concurrent histories with a delivery oracle, under ThreadSanitizer", "Schedules are sampled.")

p("P29", "File helpers do what they say and nothing else",
  "Writing, appending, reading, renaming, removing, listing and recursive removal act on exactly the files named and give back exactly the bytes written; joining a directory with a name gives the path of that name in it; scanning lists every entry exactly once. "
  "Failures raise exceptions and leave other files alone, and removing a directory tree never touches anything outside it.",
  ["histories", "inputs"], "all sequences of operations over all names, contents and tree shapes, symbolic links included",
  "Tests use one directory and a few names.",
  ["bricks/file/file.h"],
  [("file system wrappers", "bricks/file/file.h")],
  "model-based stateful PBT inside a scratch directory as an unprivileged user", "Runs unprivileged inside the scratch directory.")

p("P31", "Differentiation and compiled functions agree with the function",
  "For any expression built from the supported operations, evaluating the recorded expression gives what the plain function gives (up to the sign of zero), the symbolic gradient agrees with the exact derivative where there is one, and just-in-time compiled functions and gradients agree with interpreted ones. "
  "The machine code generator emits instructions which do what they are named after, for any sequence, operands, offsets and callees, and optimisation never ends at a value worse than where it started.",
  ["inputs", "programs"], "all expressions, all points of their domains",
  "Tests differentiate a few fixed functions.",
  ["fncas/fncas/node.h", "fncas/fncas/differentiate.h", "fncas/fncas/jit.h", "fncas/fncas/optimize.h", "fncas/x64_native_jit/x64_native_jit.h", "fncas"],
  [("expression tree", "fncas/fncas/node.h"), ("chain rule", "fncas/fncas/differentiate.h"), ("assembly or C code generation", "fncas/fncas/jit.h")],
  "differential PBT over random expressions, dual numbers as the derivative oracle", "Compared within tolerance away from singularities.")

p("P32", "The compact tabular encoding restores every row",
  "Packing any rows within the documented limits and unpacking them returns exactly the same rows, whatever the contents, repetition or widths, and rows of a wrong width or beyond the limits fail the assertion that guards them.",
  ["inputs"], "all tables within the limits",
  "Tests pack a few rows.",
  ["compact_tsv/compact_tsv.h"],
  [("back-reference encoding of repeated fields", "compact_tsv/compact_tsv.h")],
  "round-trip PBT", "Under AddressSanitizer.")

p("P33", "Replaying an operational-transformation log gives the edited text",
  "Replaying any sequence of insertions and deletions at any positions in a document, in any language, yields the text that applying them to a plain string yields, and a malformed log is rejected with an exception.",
  ["inputs", "histories"], "all edit sequences and all malformed logs",
  "Tests replay two recorded logs.",
  ["utils/operational_transformation/ot.h"],
  [("rope of pieces", "utils")],
  "model-based PBT against direct string editing", "Under AddressSanitizer.")

p("P35", "An inferred schema describes every record it was inferred from",
  "The schema inferred from any JSON records (other than ones with empty arrays where others hold something else) accepts all of them: it is valid source code, every record parses into the type it declares and serialises back with the same content, a field is optional exactly if it was ever missing or null, and numbers get the narrowest kind that holds all of them. "
  "Neither acceptance nor the types depend on the order of the records, ignored paths are as if they were not there, records which no type can describe are refused in every order, and the report counts the values the records hold.",
  ["inputs"], "all JSON documents, all permutations of their records",
  "Tests infer from a handful of files.",
  ["utils/json_schema/infer.h"],
  [("schema lattice reduction", "utils")],
  "metamorphic PBT with a structural acceptance oracle", "Acceptance is decided by interpreting the inferred schema.")

p("P38", "Pipelines deliver every record to every stage",
  "A dataflow built by chaining and uniting sources, transformations and sinks delivers to each sink exactly the records the composition of the stage functions gives, each once and in per-source order, no block is entered by two threads at a time, and joining waits until everything in flight is delivered. "
  "What is posted or scheduled with a time is delivered in the order of time as the head reaches it, and a message whose time does not advance the head, a block which is never used and a run which is left hanging are reported.",
  ["programs", "schedules"], "all pipelines, all inputs, all thread schedules",
  "Tests run a few fixed pipelines.",
  ["ripcurrent/ripcurrent.h"],
  [("per-block message queue and thread", "ripcurrent/ripcurrent.h")],
  "PBT over random pipelines against function composition", "Pipelines from a fixed set of shapes with random stage parameters.")

p("P39", "Generic JSON is the document it was parsed from",
  "Parsing a text as a generic JSON value succeeds exactly on JSON documents (the numbers of which fit into a double), and gives the value that document denotes: each string, each number to the nearest double, each array in its order, each object with its keys in order, each once, with one of its values if it is repeated. "
  "Printing the value gives a document which denotes the same value, and any history of insertions, replacements, removals and look-ups in an object or an array leaves it the same as that history leaves a plain list.",
  ["inputs", "histories"], "all documents, all texts, all histories of operations",
  "Tests parse and print a few dozen fixed documents.",
  ["blocks/json/json.h"],
  [("the generic JSON value, and its parser and printer", "blocks/json/json.h")],
  "PBT: random documents and texts against an independent parser, and random histories of operations against a model", "Documents of up to a hundred or so nodes, histories of up to 40 operations.")

p("P43", "Karl's picture of the fleet is the one the keepalives give",
  "After any history of keepalives, deregistrations, silences and restarts, Karl reports of each service exactly what its last accepted keepalives imply: whether it is up, timed out or gracefully shut down within the queried interval, on which machine, with which codename, build, dependencies and runtime status, and how skewed its clock is. "
  "Keepalives which are malformed or contradict their source are refused and change nothing; the stored records, the snapshots and the notifications tell the same history, a restart changes nothing, and requests served at the same time do not interfere.",
  ["histories", "schedules"], "all histories of requests and moments, all schedules",
  "Tests start a few services and query Karl once or twice.",
  ["karl/karl.h", "karl/schema_karl.h", "karl/respond_with_schema.h"],
  [("GenericKarl: AcceptKeepaliveViaHTTP, BuildStatus, DeregisterViaHTTP", "karl/karl.h")],
  "PBT, stateful, over HTTP on mock time, against a model of the fleet", "Up to 30 requests from up to three machines (loopback addresses) and a few services per history; the concurrent part also under TSan.")

p("P44", "Claire keeps Karl informed, and tells the truth",
  "A Claire sends a keepalive upon registration and whenever it is asked to, each with its current codename, boilerplate status, dependencies and runtime status, to the Karl it is currently configured to report to; when it is destroyed it deregisters, exactly once. "
  "What it serves about itself is the same, and reflects what has been confirmed and what has failed; registration with confirmation succeeds exactly if Karl has accepted. "
  "A Karl which refuses or is not there does no harm, and neither do changes made at the same time from other threads.",
  ["histories", "schedules", "fault_sequences"], "all histories of operations, all answers of Karl, all schedules",
  "Tests use one Claire with one Karl which always answers.",
  ["karl/claire.h", "karl/schema_claire.h"],
  [("GenericClaire: Register, ForceSendKeepalive, Thread, HTTP handler", "karl/claire.h")],
  "PBT, stateful, with stand-in Karls which record what they are sent", "Up to 15 operations per history, stand-in Karls which accept, refuse, or are not there; the concurrent part also under TSan.")

p("P41", "The collector of events logs each event, once, as it is",
  "The HTTP server which collects the events passes to its consumer, in the order they arrive and never from two threads at once, exactly one entry per each line of each batch of mobile events and per each web event: the event itself, field by field, if it is one, and the request as it is otherwise; a line which is not an event does not affect the others, and the request is answered. "
  "A tick is passed exactly when the interval has elapsed since the last event or tick.",
  ["inputs", "histories", "schedules"], "all requests, all histories, all schedules",
  "Tests send a dozen well-formed events.",
  ["midichlorians/server/server.h", "midichlorians/server/schema.h", "midichlorians/midichlorians_data_dictionary.h"],
  [("midichloriansHTTPServer: ProcessRequest, TimerThreadFunction", "midichlorians/server/server.h")],
  "PBT, stateful, over HTTP on mock time, against the expected log", "Up to 12 requests and moments per history; the concurrent part also under TSan.")

p("P42", "The data kept in small files is what was put there",
  "A self-modifying config is, in memory and on disk, what it was last successfully updated or reloaded to, through restarts, failures to write and the process being killed at any moment, and each update leaves the previous one in the history. "
  "A vector written as a blob is read back as it was, and a file which is not such a blob, or a failure to write one, is reported; the cells of a CSV file are read as they are, each in its column, and a file the rows of which do not match its header is refused. "
  "The text of an nginx config denotes the very tree of directives it was built as.",
  ["inputs", "histories", "crash_points", "fault_sequences"], "all configs, tables, vectors and trees, all histories of updates and failures, all moments of being killed",
  "Tests update a config twice, and read a few CSV files.",
  ["blocks/self_modifying_config/config.h", "blocks/blobs/blobs.h", "utils/csv/csv.h", "utils/nginx/config.h"],
  [("SelfModifyingConfig: Reload, Update", "blocks/self_modifying_config/config.h"), ("WriteBlob, ProcessBlob", "blocks/blobs/blobs.h"), ("CSV::ReadFile", "utils/csv/csv.h"), ("ConfigPrinter", "utils/nginx/config.h")],
  "PBT, stateful, against a model of the files, with file size limits and SIGKILL; round trips; an independent parser", "Histories of up to 15 operations; tables of up to five rows of up to five columns without quoting, which is not supported.")

p("P45", "A query matches a schema in exactly the ways its grammar denotes",
  "For any schema built of the terms and the operations of the NLP grammar (sequences in both directions, alternatives, conjunctions, maps, filters, discarded parts, optional parts), the matches of any query are exactly the ones the grammar denotes, with the values and in the order it denotes, and the first match is the first of them. "
  "The annotated query keeps each word, in order, as it was and normalized, with the annotations of this very word.",
  ["inputs", "programs"], "all queries, all schemas of the grammar",
  "Tests match a couple of dozen fixed queries against a few schemas.",
  ["nlp/nlp.h", "nlp/nlp_schema_begin.inl", "nlp/nlp_schema_end.inl"],
  [("AbstractBlock and its combinations", "nlp/nlp.h")],
  "PBT: random queries against an interpreter of the grammar written independently, over some sixty schemas", "Queries of up to seven words, a fixed set of schemas.")

p("P46", "The profiler reports what has been executed, how many times, for how long",
  "After any history of scopes entered and left by any number of threads, nested and recursive, and of resets, the report of the profiler is the tree of calls which have been made since the reset, per thread: each scope under the scope it was entered from, with the exact number of times, and with the time really spent there, the current one included. "
  "The time of the subscopes is no more than the time of the scope, they are listed from the longest, and the ratios are those of the times reported.",
  ["histories", "schedules"], "all histories of calls, all moments of reporting",
  "There are no tests of the profiler.",
  ["profiler/profiler.h"],
  [("StateMaintainer: EnterScope, LeaveScope, Report, Reset", "profiler/profiler.h")],
  "PBT, stateful, over threads and HTTP, against a model with bounds of each time measured from the outside", "Up to three threads and thirty operations per history.")

p("P47", "Generated HTML is balanced, complete, and goes where it belongs",
  "The output of any nesting of HTML tags, attributes and raw pieces is the text this nesting denotes: each tag is opened and closed exactly once, at the right place, including as an exception leaves the scope, and the attributes set, and only they, are listed. "
  "It goes to the only scope active in this very thread; another scope, or a tag with no scope, is refused with no effect, and the scope which responds over HTTP responds once, with all of it.",
  ["programs", "schedules"], "all nestings, all points to leave them at, any threads",
  "Tests generate a dozen fixed pages.",
  ["blocks/html/html.h", "blocks/html/tags.h", "blocks/html/html_http.h"],
  [("HTMLGeneratorThreadLocalSingleton", "blocks/html/html.h"), ("the tags", "blocks/html/tags.h")],
  "PBT: random trees emitted through the macros against the text they denote", "Trees of up to five levels; attribute values free of quotes, which are not escaped.")

p("P48", "The command line tools compute what their descriptions say",
  "For any input within their descriptions, the executables convert it exactly: `tsv2json` keeps every value in its row and under its name, with the type the column has; what `pack` has packed, each of the three ways to unpack gives back, row by row; and the operational transformation tools give the very text, and the very history of texts, the edits denote. "
  "An input they can not take is refused, with a non-zero exit code.",
  ["inputs"], "all tables and logs of edits",
  "There are no tests of these executables.",
  ["utils/json_schema/tsv2json.cc", "compact_tsv/pack.cc", "compact_tsv/unpack.cc", "utils/operational_transformation/convert.cc"],
  [("main()", "utils/json_schema/tsv2json.cc"), ("main()", "compact_tsv/pack.cc")],
  "PBT: the executables are built from the tree and run on random files, against an independent computation", "Tables of up to a dozen rows and columns.")

p("P49", "Senders tell a success from a refusal, and both from a disaster",
  "The sender of push notifications makes exactly one request per notification which is not empty, with exactly its recipient, text and badge, and returns true exactly if it was sent to this one recipient, false if it was refused or could not be sent, and throws if the response makes no sense or tells it was sent to several. "
  "The sender of conversion events makes one request per event and tells whether it was accepted, and neither can be made unless the proxy is what it should be.",
  ["inputs", "fault_sequences"], "all notifications and events, all responses",
  "There are no tests of the senders: under continuous integration they are stubs.",
  ["integrations/onesignal/ios_notifications_sender.h", "integrations/adwords/conversion_tracking.h"],
  [("IOSPushNotificationsSender::Push", "integrations/onesignal/ios_notifications_sender.h"), ("SendConversionEvent", "integrations/adwords/conversion_tracking.h")],
  "PBT over HTTP with a local stand-in for the third party and generated responses, refusals and failures", "Up to five notifications or events per case.")

p("P50", "Graphs, plots, progress lines and commands show what they were given",
  "For any graph, the DOT text generated is one whose title, parameters, nodes with their labels and attributes, groups and edges, whatever characters are in them, are exactly those of the graph, an edge to a node which is not in the graph leading to none of those which are; and for any set of plots, the input of gnuplot is the one which draws them. "
  "After any history of updates of one or several progress lines, from any threads, the terminal shows, on each line, its last status and nothing of the earlier ones, and the caret is where it was. "
  "The lines read from a command are all the lines of its output, in order, and its exit code is the one reported.",
  ["inputs", "histories", "schedules"], "all graphs, all plots, all histories of updates",
  "A dozen golden files of small graphs and plots; the progress lines are only looked at by a human.",
  ["bricks/dot/graphviz.h", "bricks/graph/gnuplot.h", "blocks/xterm/progress.h", "blocks/xterm/vt100.h", "bricks/system/syscalls.h"],
  [("GenericGraph::AsDOT", "bricks/dot/graphviz.h"), ("GNUPlot", "bricks/graph/gnuplot.h"), ("ProgressLine, MultilineProgress", "blocks/xterm/progress.h"), ("SystemCallReadPipe", "bricks/system/syscalls.h")],
  "PBT: the DOT and the plots are parsed back, the progress lines are played on a model of a terminal", "Neither `dot` nor `gnuplot` are run; backslashes are not used in plots; the statuses are of one line.")

p("P51", "Values, functions and promises cross between C++ and JavaScript unchanged",
  "Each number, boolean, string, null and object passed between C++ and JavaScript, as an argument, a result, or a field by name or by nested names, in either direction, arrives as the same value, and one of a wrong type is an error in JavaScript and never some value. "
  "Functions of either side are callable from the other one with their arguments in order, keep their state and survive garbage collections while held; asynchronous work is done first, aside, and then its callback runs exactly once where JavaScript may be called, in which order promises are resolved with the values given. "
  "A loop of calls from a thread runs each in order and returns its result, ends, whichever side ends it, and releases all it has captured where this is allowed.",
  ["inputs", "histories", "schedules"], "all values of the types supported, all histories of calls",
  "There is one example of each kind, not among the tests which are run.",
  ["integrations/nodejs"],
  [("CPP2JS, JS2CPP", "integrations/nodejs/javascript_cpp2js.hpp"), ("JSObject", "integrations/nodejs/javascript_object.hpp"), ("functions", "integrations/nodejs/javascript_function_cont.hpp"), ("JSAsync", "integrations/nodejs/javascript_async.hpp"), ("JSAsyncEventLoop", "integrations/nodejs/javascript_async_eventloop.hpp")],
  "PBT: random plans run by node on an addon made of these headers, the transcript against a model", "Built with the API headers and the version of node installed; names of fields have no zeros, as node itself takes them up to the first zero.")

p("P40", "What is deferred, shared or dispatched is done exactly once, by the right party",
  "Through any history of moves, merges, assignments and exceptions, each scope guard and each accumulated deleter runs exactly once, in the documented order, when the last party to hold it is done, and a future gives its value or its exception to the party which asks for it. "
  "A delayed instantiation makes each object when asked to, with the values captured and the references as they are by then; a singleton is made once per process or per thread; and a call dispatched by type reaches the handler of the exact run-time type, with its arguments as they are, or is refused.",
  ["histories", "programs", "schedules"], "all histories of operations, all sequences of calls",
  "Tests exercise each helper once or twice.",
  ["bricks/util/make_scope_guard.h", "bricks/util/accumulative_scoped_deleter.h", "bricks/util/future.h", "bricks/util/lazy_instantiation.h", "bricks/util/singleton.h", "bricks/template/rtti_dynamic_call.h", "bricks/template/combine.h", "bricks/util/iterator.h", "bricks/util/random.h"],
  [("ScopeGuard", "bricks/util/make_scope_guard.h"), ("AccumulativeScopedDeleter", "bricks/util/accumulative_scoped_deleter.h"), ("FutureImpl", "bricks/util/future.h"), ("RTTIDynamicCall", "bricks/template/rtti_dynamic_call.h")],
  "PBT, stateful, against models which record who has to be called, with what, and when", "Histories of up to 40 operations over up to eight holders; fixed type hierarchies.")

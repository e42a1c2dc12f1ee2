#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one dict per property). Run to regenerate."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop("P01", "Each store provider is a faithful ordered byte map across reopen",
 "Through either storage provider, a key reads back exactly the value of its last completed write (an empty or nil value reads back as nil and still exists), and as not-found, with the dedicated not-found error and a false existence answer, when it was never written or was deleted last. One key's operations never affect another key, whatever bytes the keys share. Closing and reopening the store preserves all of this. A read the store cannot carry out reports an error, never an absent key or another value.",
 ["histories","inputs","configurations"], "all histories of set/delete/get/exists/reopen over arbitrary byte keys and values, for both providers",
 "The provider test writes one key once per provider; key-prefix overlaps, overwrites, delete/re-set histories and reopen are never combined.",
 ["provider/badger.go","provider/badger_txn.go","provider/leveldb.go"],
 [("Badger single operations wrap one transaction each","provider/badger.go: Set/Get/Exists/Delete"),("LevelDB single operations and nil normalisation","provider/leveldb.go: Get")],
 ["KVDB.Set/Get/Exists/Delete","KVDB.Open/Close"])

prop("P02", "Range scans return exactly the live keys in the requested range, in order",
 "A scan, on a store or inside a transaction with pending writes, visits exactly the live keys that have the requested prefix and lie at or beyond the requested offset in the scan direction, each once with its current value, in ascending order, or descending when reverse. It stops as soon as the visitor declines, and reports an error when it could not read everything. The provider without reverse support refuses a reverse scan with an error and visits nothing.",
 ["inputs","histories","configurations"], "all store contents, pending writes, prefixes (also 0xFF-ended), offsets inside or outside the prefix, directions and stop points",
 "Tests iterate a fixed handful of keys forward; the combination prefix x offset x direction x pending writes x early stop is not sampled.",
 ["provider/badger.go","provider/badger_txn.go","provider/leveldb.go","provider.go"],
 [("badger iterator set-up and loop","provider/badger.go: scanByBadgerTxn"),("leveldb iterator","provider/leveldb.go: Scan")],
 ["KVDB.Scan","ProviderTxn.Scan"])

prop("P03", "Local transactions are atomic, isolated snapshots with conflict detection",
 "A transaction reads the store as of its start plus its own pending writes; others see none of its writes before a successful commit and all of them, together, after it, and a discarded or failed transaction leaves no trace. If another transaction committed after its start a key it read, an updating transaction fails to commit; a transaction with no such conflict commits. A read-only transaction rejects mutation.",
 ["histories","schedules"], "all interleavings of the steps of several concurrently open transactions over shared keys, plus real goroutine races",
 "No test opens two transactions at once; isolation and conflicts depend on the interleaving.",
 ["provider/badger_txn.go","provider/badger.go","provider.go"],
 [("transaction wrapper","provider/badger_txn.go: Txn"),("read-set conflict check","badger oracle behind Commit")],
 ["KVDB.NewTransaction","ProviderTxn.*"])

prop("P04", "A killed process loses no acknowledged write and tears no transaction",
 "If the process is killed at any point, reopening the same directory through the provider succeeds and yields the state produced by a prefix of the operations issued that contains every operation that had returned successfully. A transaction or committed batch that fits one store transaction is present entirely or not at all.",
 ["crash_points","histories"], "all kill points of a writer process issuing sets, deletes, transactions and batches on either provider",
 "No test ever terminates a process without an orderly close.",
 ["provider/badger.go","provider/leveldb.go","provider/leveldb_wb.go","provider/badger_wb.go"],
 [("open with default options and recovery","provider/badger.go: Open; provider/leveldb.go: Open")],
 ["store contents after SIGKILL and reopen"])

prop("P05", "Per-value tag and time-to-live are stored, returned and enforced",
 "A value written with metadata reads back, through get and scan, locally, in transactions and after reopen, with exactly the tag given; with a positive time-to-live it reports an expiry that far after the write and disappears from get, exists and scan once that time passes and not before; with a zero time-to-live, or no metadata, it never expires. Overwriting replaces both. A provider that cannot store metadata refuses it and writes nothing.",
 ["inputs","histories","configurations"], "all tags, TTLs and overwrite/delete/reopen histories",
 "No test passes metadata at all.",
 ["provider/badger_txn.go","provider/leveldb.go","provider.go"],
 [("metadata mapping","provider/badger_txn.go: Set/Get"),("refusal","provider/leveldb.go: Set")],
 ["Set with metadata, Get/Scan metadata"])

prop("P06", "Write batches apply exactly their operations, in order, at commit",
 "After a batch commit succeeds the store equals its previous state with all of the batch's sets and deletes applied in issue order (the last operation on a key wins), touching no other key, whatever the size of the batch. A batch discarded before commit, of a size that fits one store transaction, changes nothing.",
 ["inputs","histories","configurations"], "all batches (repeated keys, deletes of present/absent keys, thousands of entries), for both providers",
 "The batch test writes a few distinct keys.",
 ["provider/badger_wb.go","provider/leveldb_wb.go"],
 [("batch wrappers","provider/badger_wb.go, provider/leveldb_wb.go")],
 ["KVDB.WriteBatch"])

prop("P07", "A remote client sees the store exactly as local calls would",
 "Every set, get, exists, delete and scan issued through a network client has the same effect and returns the same value, metadata, existence answer and entries as the same call on the store the server holds, including binary and empty values and not-found. A remote scan returns the first entries up to the requested limit, never more than the documented maximum, and none for a non-positive limit; a store failure surfaces as an error of the call.",
 ["histories","inputs","fault_sequences"], "all operation sequences over the wire on badger- and memory-backed servers, with injected store errors",
 "The server test performs one set and get.",
 ["client/client.go","server/common.go","server/cmd_set.go","server/cmd_get.go","server/cmd_exists.go","server/cmd_delete.go","server/cmd_scan.go"],
 [("request encoding/response parsing","client/client.go"),("handlers","server/common.go: handle*")],
 ["mondis.Client calls vs direct KVDB calls"])

prop("P08", "Remote transactions behave exactly like local transactions",
 "A remote update or view runs all its operations in one server-side transaction: each operation returns what the same sequence on a local transaction returns, all writes become visible together when the update function returns nil and the commit succeeds, and none do if it returns an error or panics, the commit fails, or the connection is lost before commit. View transactions refuse mutation. Conflicts and over-size failures are reported to the caller, the latter as the dedicated too-big error on the write that hit it.",
 ["histories","schedules","fault_sequences"], "all multi-operation remote transactions, interleaved with each other and with direct writes, with store failures and disconnects",
 "Tests run one short remote transaction; a second operation of the same kind in a transaction is rarely exercised.",
 ["client/client_txn.go","client/client.go","server/common.go"],
 [("stream per transaction","client/client_txn.go: request/getRespFrame"),("continued frames loop","server/common.go: handleTxnContinuedFrame")],
 ["Client.Update/View"])

prop("P09", "Bad network input never harms the server, the data or other clients",
 "Whatever bytes a peer sends, in whatever frames, in or out of a transaction, the server keeps running and keeps serving other clients correctly, and stored data changes only by requests that are themselves well formed. A well-framed request whose body is malformed or incomplete is answered with an error or its connection is closed; it is never left unanswered. A client whose connection or transaction dies gets an error, never a crash.",
 ["inputs","fault_sequences"], "all byte strings as request payloads, frame sequences with truncation, unknown commands and disconnects",
 "Tests only use the well-behaved client.",
 ["server/cmd_set.go","server/cmd_scan.go","server/common.go","client/client_txn.go","pb/mondis.pb.go"],
 [("payload decoding and rejection","server/cmd_*.go: Unmarshal error path"),("scan option handling","server/common.go: handleScan")],
 ["raw socket frames; a second client's results"])

prop("P10", "Wire messages round-trip and arbitrary bytes decode without crashing",
 "Every protocol message, with any field values, decodes from its own encoding to an equal message, its announced size equals its encoding's length, and any field not understood is skipped. Decoding arbitrary, truncated or corrupted bytes either succeeds or returns an error and never panics or reads outside the input; what decodes successfully re-encodes to a message that decodes equal.",
 ["inputs"], "all messages of every type and all byte strings",
 "No test touches the generated codec directly.",
 ["pb/mondis.pb.go"],
 [("Marshal/Unmarshal/Size","pb/mondis.pb.go")],
 ["pb message Marshal/Unmarshal/Size"])

prop("P11", "Comparable encodings preserve order, are self-delimiting and invert exactly",
 "For byte strings, signed and unsigned integers and non-NaN floats, comparing encodings bytewise gives the same order as comparing the values (the reverse order for the descending forms). Decoding an encoding followed by any bytes returns the original value and exactly those following bytes, and encoding appends to the given buffer without altering what it holds; the announced encoded length is exact. Malformed or truncated input yields an error, never a panic or a wrong value.",
 ["inputs"], "all values, all pairs of values, all trailing bytes, all malformed inputs",
 "Tests check a table of values; order over all pairs (group boundaries, sign, subnormals) cannot be enumerated.",
 ["kv/memcomparable/bytes.go","kv/memcomparable/number.go","kv/memcomparable/float.go"],
 [("grouped byte encoding","kv/memcomparable/bytes.go"),("sign-flip","kv/memcomparable/number.go"),("float mapping","kv/memcomparable/float.go")],
 ["Encode*/Decode*"])

prop("P12", "Compact and numeric codecs round-trip and reject malformed input",
 "Decoding what the compact byte-string, variable-length integer, fixed binary and human-readable integer codecs produced returns the original value, for the compact forms together with exactly the bytes that followed. Empty, truncated, over-long or otherwise malformed input yields an error, never a panic, an out-of-range read or a silently wrong value.",
 ["inputs"], "all values and all byte strings",
 "There are no tests for these packages.",
 ["kv/compact/bytes.go","kv/compact/number.go","kv/numeric/binary.go","kv/numeric/human.go"],
 [("varint framing","kv/compact"),("fixed/human","kv/numeric")],
 ["Encode*/Decode*"])

prop("P13", "Key successor and range algebra is exact",
 "The successor of a key is the smallest byte string greater than it. The prefix successor is the next larger byte string of the same length, hence greater than every key having the prefix, or the plain successor if the key is empty or all 0xFF. A range is reported as a point exactly when its end is the successor, or a same-length prefix successor, of its start; comparing, prefix-testing and cloning agree with byte semantics and never modify or share the key.",
 ["inputs"], "all keys and pairs of keys, including 0xFF runs and empty keys",
 "Two small tables in the tests.",
 ["kv/key.go"],
 [("Next/PrefixNext/IsPoint","kv/key.go")],
 ["kv.Key methods"])

prop("P14", "Lists behave as double-ended sequences under every operation history",
 "For every history of pushes and pops at either end, positional reads and writes (also with negative indexes), length, enumeration and clearing, inside one or across many transactions, each operation returns what the same operation on a plain double-ended sequence returns, with the not-found error for an absent list or out-of-range write. Enumeration lists elements from the right end to the left. An operation that reports success while the store under it fails has the same result and effect as without the failure.",
 ["histories"], "all operation histories over several lists, with commits and discards in between",
 "One scripted list test.",
 ["structure/list.go","structure/keys.go"],
 [("index window metadata","structure/list.go: listMeta")],
 ["TxStructure list operations"])

prop("P15", "Hashes behave as sorted field maps under every operation history",
 "For every history of field sets, reads, integer increments, deletions, first-N/last-N/all enumeration in field order, length and clearing, inside one or across many transactions, a hash behaves as an ordered map from fields to values: a set field, even to an empty value, exists; the reported length equals the number of fields enumerated; ascending and descending enumerations return the right fields with their values; clearing or deleting all fields leaves nothing behind. An operation that reports success while the store under it fails has the same result and effect as without the failure.",
 ["histories"], "all operation histories over several hashes, with commits and discards in between",
 "One scripted hash test.",
 ["structure/hash.go","structure/keys.go"],
 [("field count metadata","structure/hash.go: updateHash/HDel"),("ordered iteration","structure/hash.go: iterateHash/iterateReverseHash")],
 ["TxStructure hash operations"])

prop("P16", "Values, hashes and lists never interfere across keys, kinds or namespaces",
 "Strings, integers, hashes and lists with arbitrary byte names, living in the same or in different namespaces of one store, are independent: an operation on one never changes or reveals another, even when names are prefixes of each other or the same name is used for different kinds. String and integer values read back as last written, increments add exactly, reading a non-integer as an integer errors, and a cleared value is not found.",
 ["histories","inputs"], "all mixed histories over adversarially related names, kinds and non-nested namespaces",
 "Tests use one name and one kind at a time.",
 ["structure/string.go","structure/keys.go","kv/util.go"],
 [("self-delimiting key layout","structure/keys.go"),("integer helpers","kv/util.go")],
 ["TxStructure operations on all kinds"])

prop("P17", "Sequences never hand out an identifier twice",
 "All identifiers handed out for one sequence name, singly or as ranges, by any number of holders, concurrently, across restarts without release and across failed store commits, are distinct and increase within a holder, except that an identifier explicitly returned by its receiver may be reissued once. A failed request hands out nothing and later requests still work. Releasing by the only holder returns the unused tail so that the next holder continues without a gap; clearing restarts the sequence and affects no other data; a closed sequence refuses to issue. An empty name or a zero bandwidth is refused. A collection has at most one registered id sequence: another is refused until it is dropped, and dropping closes it.",
 ["histories","schedules","crash_points","fault_sequences"], "all histories of single/range requests, put-backs, renewals, releases, restarts, clears and injected commit failures, over string- and hash-backed sequences",
 "No test covers these sequences.",
 ["document/meta/sequence/sequence.go","document/meta/sequence/string.go","document/meta/sequence/hash.go","document/dml/sequence.go"],
 [("lease renewal","renewLeaseFunc in string.go/hash.go"),("ranges across leases","sequence.go: NextN")],
 ["Sequence.Next/NextN/PutBack/ReNew/ReleaseRemaining/Clear/Close"])

prop("P18", "Legacy document sequences never repeat and release their unused tail",
 "All identifiers issued for one keyword, by any number of holders, concurrently, across restarts and failed commits, are distinct and increase within each holder. After the sole holder releases, the next holder continues exactly after the last identifier issued. Invalid keyword or bandwidth is refused.",
 ["histories","schedules","crash_points","fault_sequences"], "all histories of next/release/restart/failed commit with several holders",
 "The document test inserts a couple of documents.",
 ["document/sequence.go"],
 [("lease update","document/sequence.go: updateLease"),("release","document/sequence.go: ReleaseRemaining")],
 ["document.Sequence Next/ReleaseRemaining"])

prop("P19", "The catalog stores databases, collections, versions and jobs faithfully",
 "Databases and collections created, updated and dropped through the catalog read and list back exactly as last written, with the documented error for creating an existing or touching a missing one, and dropping a database removes its collections and nothing else. The sequence of document identifiers of a collection goes with its database, or with the collection when the drop asks for it, and with nothing else. Global identifiers and schema versions strictly increase; schema diffs, reorganisation handles and job history read back as stored, the latest N history jobs newest first. The job queue is first-in first-out, with positional reads and updates, independent per queue. A call under which the store fails reports an error, never an answer made up from what it could not read, or else has exactly the outcome it would have had.",
 ["histories"], "all histories of catalog operations, grouped in committed or discarded transactions",
 "No test covers the catalog.",
 ["document/meta/meta.go","document/meta/did_sequence.go"],
 [("hash-of-JSON catalog","document/meta/meta.go"),("job queue list","document/meta/meta.go: EnQueueDDLJob/DeQueueDDLJob/UpdateDDLJob")],
 ["meta.Meta methods"])

prop("P20", "Schema creation takes effect exactly once, whatever crashes or fails",
 "A successful schema creation call returns only after the database with exactly the requested collections and indexes is visible and usable; a failing one reports an error and leaves nothing; of any number of requests for one name at most one succeeds. If the process dies at any point, after restart every enqueued request is completed or failed exactly once, and the queue keeps making progress whatever earlier requests did. All identifiers assigned to databases, collections, indexes and jobs are distinct. A request to add an index that is there already, or to a missing database or collection, a request lacking a name or an index's columns, and a schema creation requested while more than 100 jobs wait, is refused and changes nothing.",
 ["crash_points","histories","schedules","fault_sequences"], "all sequences of creation requests (duplicate database names, collections with indexes), concurrent callers, restarts and process deaths at every store operation, commit failures",
 "No test runs the schema engine.",
 ["document/ddl/ddl_api.go","document/ddl/ddl_worker.go","document/domain/domain.go","document/ddl/util.go"],
 [("enqueue","document/ddl/ddl_api.go: CreateSchema"),("queue worker","document/ddl/ddl_worker.go: handleJobQueue/onCreateSchema"),("schema reload","document/domain/domain.go: reloadSchema")],
 ["Domain.Init/DDL/DB, catalog contents"])

prop("P21", "Documents read back exactly, per collection, with honest reports",
 "For every history of inserts (automatic or chosen id), updates, upserts, deletes, single and bulk reads, counts, id-range queries and delete-all over several collections and databases, each call returns what a map from ids to documents per collection would, including the not-found, already-exists and missing-collection errors and reported existence; an operation on one collection never shows in another. Inside an explicit transaction operations see its own writes and take effect together on commit or not at all.",
 ["histories","inputs"], "all histories of document operations, implicit and explicit transactions",
 "The document tests insert one document in the older API only.",
 ["document/dml/collection.go","document/dml/db.go","document/dml/base.go","document/txn/txn.go","document/dml/keys.go"],
 [("document keys","document/dml/keys.go"),("CRUD","document/dml/collection.go")],
 ["dml.Collection methods"])

prop("P22", "Automatic document ids are never reused and no acknowledged insert is lost",
 "Concurrent inserts into a collection, with failed or conflicting commits, discarded transactions and restarts in between, each that reports success stores its own document under an id no other successful insert got; inserts that report failure store nothing. After a restart every successfully inserted document is still there and new ids never collide with existing ones.",
 ["schedules","fault_sequences","crash_points","histories"], "all interleavings of inserts in implicit and explicit transactions, commit failures, process deaths and restarts",
 "No concurrency, failure or restart in the tests.",
 ["document/dml/collection.go","document/dml/sequence.go","document/txn/txn.go","document/meta/sequence/sequence.go"],
 [("id allocation and put-back on failed commit","document/dml/collection.go: InsertOne; document/txn/txn.go: Commit")],
 ["InsertOne results and stored documents"])

prop("P23", "The schema cache equals the catalog and commits only safe transactions",
 "Applying schema diffs step by step to a cached schema yields the same visible databases, collections, indexes and version as loading the catalog afresh, and inconsistent diffs are refused. A transaction commits against the schema it started from unless a collection it referred to was changed since, or too many changes passed to tell; then it is refused, its identifiers are returned, and nothing is written. Neither outcome ever blocks later schema updates or commits.",
 ["histories","schedules"], "all histories of schema versions, cached starting points, referred collections and refresh batches (also beyond the history limit)",
 "The handle test only stores and loads once.",
 ["document/schema/handle.go","document/schema/metacache.go","document/txn/txn.go"],
 [("diff application and trimming","document/schema/metacache.go: ApplyDiffs"),("commit-time check","document/schema/handle.go: Check")],
 ["schema.MetaCache/Handle, txn.Commit"])

prop("P24", "The legacy document store keeps documents and index catalogue faithfully",
 "For every history of document operations over several collections each call returns what a per-collection map would, and automatic ids are distinct, across close and reopen of the document store. Created indexes are listed with exactly the definition given until dropped, before and after reopen; a second index on the same columns (with the same directions, in any order) or a reuse of a name is refused, and a refused or repeated call changes nothing; the same holds when several goroutines work on one collection at once. After closing, every operation is refused.",
 ["histories","schedules","fault_sequences"], "all histories of document and index operations with reopen and close, all interleavings of concurrent calls, with failing commits",
 "One scripted document test.",
 ["document/db.go","document/collection.go","document/keys.go"],
 [("collections registry","document/db.go: Collection/getCollectionID"),("index catalogue","document/collection.go: CreateIndex/DropIndex/getIndexes"),("close protocol","document/db.go: Close")],
 ["document.DB / document.Collection"])

prop("P25", "Transaction helpers run callbacks and commit exactly when they must",
 "The run-in-transaction helpers commit exactly when the function succeeds, return the function's or the commit's error, leave nothing behind otherwise (also when the function panics), and never return with their transaction still open; the after-commit callback runs exactly once if and only if the commit succeeded, the cancel callback exactly once if and only if the commit failed. The too-big retry helper commits what was done, retries in a fresh transaction until the work fits or a fixed number of tries is exhausted, and returns the transaction still to be committed. The read-only helper never changes the store.",
 ["histories","fault_sequences"], "all sequences of operations, function errors, commit failures and too-big failures",
 "The helpers have no tests.",
 ["util/util.go"],
 [("helpers","util/util.go")],
 ["util.RunInNew*/TryCommitWhenTxnTooBig"])

prop("P26", "Storage keys are unambiguous, ordered and decode exactly",
 "Keys built for documents, index names, column sets, sequences and other metadata are different whenever what they name differs, keep document keys of a collection contiguous and in id order under the collection's prefix, and never fall under another kind's or collection's prefix. Decoding a document or index-name key returns the exact parts it was built from, and decoding anything that is not such a key reports an error. Building a key leaves the caller's arguments and buffer contents intact.",
 ["inputs"], "all ids, names, field lists and arbitrary byte strings",
 "The key tests check nothing about layout.",
 ["document/keys.go","document/dml/keys.go"],
 [("key builders/decoders","document/keys.go, document/dml/keys.go")],
 ["Encode*/Append*/Decode* key functions"])

prop("P27", "Schema model copies are deep and jobs and diffs survive encoding",
 "A copy of a database, collection or index description equals the original and shares nothing mutable with it. Jobs, including failed ones with their error text, and schema diffs decode from their encoding with every field and argument intact, also when updated and re-encoded; input validation accepts exactly the inputs with all required names present, and converting an index input keeps name, columns and uniqueness. Adding, updating and looking up collections and indexes in a description is consistent.",
 ["inputs","histories"], "all model values, mutations of copies and re-encodings",
 "The model has no tests.",
 ["document/model/model.go","document/ddl/input.go"],
 [("Clone","document/model/model.go"),("Encode/Decode","document/model/model.go"),("validation","document/ddl/input.go")],
 ["model types; ddl inputs"])

prop("P28", "Concurrent remote clients observe one consistent store",
 "When several network clients issue single operations and multi-operation transactions at the same time, the results are those of some one-at-a-time execution consistent with real-time order: no acknowledged update is lost, no client sees a partial transaction, and responses are never mixed up between requests or clients.",
 ["schedules","histories"], "all interleavings of concurrent clients' operations and transactions on one server",
 "Tests use a single sequential client.",
 ["client/client.go","client/client_txn.go","server/server.go","server/common.go"],
 [("request/response matching and per-stream transaction","client + server")],
 ["concurrent client histories"])

prop("P29", "Stopping a server loses nothing acknowledged and harms nothing being served",
 "A server can be stopped at any moment while clients of every kind are active: Stop returns, the process keeps running, requests being served still find their store, and every client call ends with its true result or an error. Afterwards no connection is accepted, the directory opens again, every write or commit that was acknowledged is there, a transaction is there entirely or not at all, and nothing is there that no client wrote or committed. A server that cannot open its store or listen reports that from Start and can be stopped.",
 ["schedules","histories","fault_sequences"], "all moments of stopping relative to all concurrent requests and transactions, on badger and leveldb",
 "No test stops a server while it is used.",
 ["server/server.go","server/common.go","client/client.go","client/client_txn.go"],
 [("Start/Stop","server/server.go"),("request handlers","server/cmd_*.go, server/common.go"),("client calls on a dying connection","client/")],
 ["server lifetimes under load"])

prop("P30", "Every transaction the code begins is ended",
 "Whatever a document operation, a function run in a new transaction, a sequence operation, a schema request and the jobs and refreshes behind it, or a remote call or transaction ends with - success, a refusal, a conflict, a failing store, a panic of the caller's function - the transactions begun on the store for it have each been committed or discarded once it is over; what is open then is exactly what the caller itself has begun and not ended.",
 ["histories","fault_sequences"], "all histories of operations on every layer above the providers, with a store failure at any store operation",
 "An open transaction shows in no result: it pins old versions, and a server collects them until it dies. Tests look at results of successful calls.",
 ["util/util.go","document/dml/base.go","document/dml/collection.go","document/collection.go","document/db.go","document/sequence.go","document/meta/sequence/hash.go","document/meta/sequence/string.go","document/domain/domain.go","document/ddl/ddl_worker.go","server/common.go"],
 [("deferred Discard","document/dml/base.go: RunInNewUpdateTxn, RunInNewTxn; util/util.go"),("end of a remote transaction","server/common.go")],
 ["transactions open on a counting KVDB"])

prop("P31", "Starting a domain succeeds completely, or fails and can be tried again",
 "Starting the document layer on a store reports an error only if the store fails, and is then not left half done: the same or another domain can be started in the same process as soon as the store works. When a start reports success the domain shows every database, collection and index of the store with its documents, inserts into every collection get fresh identifiers, and schema requests are carried out. A start without any schema, or with the jobs of an earlier process still waiting, is no different.",
 ["fault_sequences","histories"], "all sequences of starts, schema requests, inserts and process ends, with the store failing at any operation of a start",
 "Tests start a domain once, on an empty store that works.",
 ["document/domain/domain.go","document/ddl/ddl.go","document/dml/sequence.go","document/meta/meta.go"],
 [("Domain.Init","document/domain/domain.go"),("DDL.Init","document/ddl/ddl.go"),("CreateSequence","document/dml/sequence.go")],
 ["domain lifecycle"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))

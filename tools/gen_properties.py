#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that wording stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None,
                          **({"state": state} if state else {})}})

prop("P01", "A committed layer never changes what it says",
  "Once a layer is committed, every query on it (all triples, by subject, subject+predicate, predicate, object, existence, counts, parent, layer stack) returns exactly its parent's triples with the builder's net removals taken out and net additions put in. This is true on every handle of every store kind (memory, archive, cached archive, directory), freshly loaded or held for long, and whatever commits, label updates, rollups, cache evictions or reloads run concurrently or happened before.",
  ["schedules", "histories", "inputs", "configurations"],
  "for every store kind, every sequence of builder inputs, every interleaving of concurrent builders, readers and maintenance on any number of store handles",
  "The unit tests build a few fixed layers sequentially and query each once; they never run readers, builders and rollups concurrently, through several store handles, or compare all query paths with each other.",
  ["src/store/mod.rs", "src/layer/simple_builder.rs", "src/layer/internal/mod.rs", "src/layer/internal/child.rs", "src/layer/internal/base.rs", "src/layer/internal/subject_iterator.rs", "src/layer/internal/predicate_iterator.rs", "src/layer/internal/object_iterator.rs", "src/layer/builder.rs", "src/storage/layer.rs", "src/storage/cache.rs"],
  [("sorted, deduplicated change lists turned into succinct immutable files", "src/layer/simple_builder.rs commit"), ("add/remove filtered against the parent", "src/layer/internal/child.rs"), ("indexes built by parallel tasks", "src/layer/builder.rs build_indexes"), ("layers are write-once and loaded by name", "src/storage/layer.rs get_layer_with_cache")],
  ["Store::get_layer_from_id", "StoreLayer query methods", "NamedGraph::head"])

prop("P02", "A committed layer survives every crash",
  "When committing a layer has returned success on a store kept on disk, then after a process kill or power loss at any later instant, reopening the store finds that layer and all its ancestors by id, complete and with unchanged contents. This includes layers produced by squashing, merging and importing.",
  ["crash_points", "schedules", "histories"],
  "for every crash instant (every file-system call and every torn write inside one), every subset of not-yet-synced data surviving, every interleaving of concurrent work, for archive and directory stores",
  "No test crashes anything; what is lost without fsync of file or directory cannot be seen on a live file system at all.",
  ["src/storage/archive.rs", "src/storage/directory.rs", "src/storage/file.rs", "src/storage/layer.rs", "src/store/mod.rs"],
  [("layer file written to a temporary name, synced, renamed into place", "src/storage/archive.rs store_layer_file"), ("file contents synced on write", "src/storage/directory.rs / tdb-succinct FileBackedStore")],
  ["StoreLayerBuilder::commit", "Store::get_layer_from_id after reopening"])

prop("P03", "An acknowledged label update survives every crash",
  "When creating a named graph, setting its head (plain, forced or version-checked) or deleting it has returned success, then after a crash or power loss at any later instant, reopening the store shows exactly that state (or a later acknowledged or in-flight one). A later version is never rolled back to an earlier one and a deleted graph does not reappear.",
  ["crash_points", "schedules", "histories"],
  "for every crash instant and every subset of unsynced data surviving, over all histories of create, set, force, delete and recreate on several graphs by concurrent clients",
  "No test crashes the process or models unsynced data and directory entries.",
  ["src/storage/directory.rs", "src/storage/label.rs", "src/storage/locking.rs", "src/store/mod.rs"],
  [("label file written and synced under an exclusive lock", "src/storage/directory.rs set_label_option"), ("label file creation", "src/storage/directory.rs create_label"), ("label file removal", "src/storage/directory.rs delete_label")],
  ["Store::create", "NamedGraph::set_head", "NamedGraph::force_set_head_version", "Store::delete", "NamedGraph::head_version after reopening"])

prop("P04", "Label updates are atomic: old or new, never garbage",
  "At every instant, and after a crash or failed write at any instant, reading a named graph or listing all graphs gives its state before or after each update: never an error, an unparsable or empty label, a mixture of two values, or a change to another graph. A creation interrupted by a crash leaves the graph either absent and creatable or present and usable.",
  ["crash_points", "schedules", "fault_sequences"],
  "for every crash instant (including inside a write), every I/O error or short write during an update, and every interleaving of readers with writers in the same or other store handles",
  "Tests read a label only after its update has finished, alone, on a healthy disk.",
  ["src/storage/directory.rs", "src/storage/label.rs", "src/storage/locking.rs"],
  [("shared and exclusive file locks", "src/storage/locking.rs"), ("label text parsing", "src/storage/directory.rs get_label_from_data")],
  ["NamedGraph::head_version", "Store::open", "Store::labels"])

prop("P05", "Named-graph updates are linearizable compare-and-swap",
  "Concurrent operations on a named graph, from any number of tasks and store handles on the same data, take effect one at a time at some instant between call and return. Every successful update raises the version by one over the state it replaced; a version-checked update succeeds only against exactly that version; a plain head update succeeds only if the graph was empty or its head is the new layer itself or one of its ancestors; of concurrent updates based on one version exactly one wins and no acknowledged update is lost.",
  ["schedules", "histories", "configurations"],
  "for every interleaving of create, open, head reads, plain, forced and version-checked updates, and deletes by concurrent clients through one or several store handles, for all label stores",
  "Tests call these operations one after another from a single task; a lost update needs two writers between read and write.",
  ["src/store/mod.rs", "src/storage/directory.rs", "src/storage/memory.rs", "src/storage/label.rs", "src/storage/locking.rs", "src/storage/layer.rs"],
  [("version compared under the exclusive lock before writing", "src/storage/directory.rs set_label_option"), ("retry loop", "src/store/mod.rs force_set_head"), ("ancestor check", "src/storage/layer.rs layer_is_ancestor_of")],
  ["NamedGraph::set_head", "NamedGraph::force_set_head", "NamedGraph::force_set_head_version", "NamedGraph::head_version", "Store::create", "Store::delete"])

prop("P06", "A graph's head is always a complete, loadable layer",
  "Whenever a named graph's head is observed, on any store handle and also after a crash, the layer it names can be loaded with its whole ancestry and has the contents that were committed under that id. No interleaving or crash leaves a graph pointing at a missing, partial or different layer.",
  ["crash_points", "schedules", "histories"],
  "for every crash instant and interleaving of commit followed by set-head in concurrent clients and handles",
  "It relates two files written at different times; tests never crash between them nor read one handle's head from another while it is written.",
  ["src/store/mod.rs", "src/storage/archive.rs", "src/storage/directory.rs", "src/storage/layer.rs"],
  [("layer made durable before the label can name it", "src/store/mod.rs commit then set_head"), ("head resolution", "src/store/mod.rs head_version")],
  ["NamedGraph::head", "NamedGraph::head_version"])

prop("P07", "Commit is atomic: a layer is absent or complete",
  "Until its commit takes effect a layer is absent for everyone looking it up by id, and from then on it is complete. After a crash, a failed or cancelled commit, a lookup of that id gives either no layer or the complete layer with the committed contents: never an error, a panic or partial contents.",
  ["crash_points", "schedules", "fault_sequences"],
  "for every instant at which a reader looks, a crash strikes, an I/O error hits or the commit future is dropped, for every disk store kind",
  "Tests look up a layer only after its commit has succeeded.",
  ["src/storage/archive.rs", "src/storage/directory.rs", "src/storage/layer.rs", "src/storage/memory.rs", "src/store/mod.rs"],
  [("construction files kept in memory until finalize, then renamed into place", "src/storage/archive.rs finalize_layer"), ("existence checks before loading", "src/storage/layer.rs get_layer_with_cache")],
  ["Store::get_layer_from_id", "StoreLayerBuilder::commit"])

prop("P08", "Rollups are invisible except for speed",
  "Rolling up a layer (fully, up to an ancestor, or imprecisely), in any order, repeatedly and concurrently with readers, writers and other rollups, never changes any answer about any layer: its triples, identifiers, additions, removals, counts, parent and ancestor names. A rollup interrupted by a crash, error or cancellation leaves every layer loadable with unchanged answers, and can be retried.",
  ["schedules", "crash_points", "histories", "fault_sequences"],
  "for every order and combination of rollups over layer stacks of any shape, every interleaving with readers and loaders on several handles, every crash and error instant inside a rollup",
  "Tests roll up a small stack once, sequentially, and check it on a healthy disk.",
  ["src/storage/layer.rs", "src/storage/delta.rs", "src/storage/archive.rs", "src/storage/directory.rs", "src/storage/cache.rs", "src/layer/internal/rollup.rs", "src/layer/internal/mod.rs", "src/layer/id_map.rs", "src/store/mod.rs"],
  [("rollup layer built under its own id, then registered for the original", "src/storage/layer.rs perform_rollup*"), ("original id and original parent kept", "src/layer/internal/rollup.rs"), ("identifier map keeps original numbering", "src/layer/id_map.rs construct_idmaps*")],
  ["StoreLayer::rollup", "StoreLayer::rollup_upto", "StoreLayer::imprecise_rollup_upto", "Store::get_layer_from_id"])

prop("P09", "Squash and merge keep exactly the same triples",
  "Squashing a layer gives a new base layer whose triples (as strings and typed values) are exactly those of the source; squashing up to an ancestor gives a child of that ancestor with exactly the source's triples; merging base layers gives exactly the union of their triples. The sources are unchanged, and concurrent activity, rolled-up sources, crashes or failures never yield a result with other contents.",
  ["schedules", "inputs", "histories", "fault_sequences", "crash_points"],
  "for every layer stack, combination of sources, interleaving with rollups and commits, and fault during the operation",
  "Tests squash or merge one or two fixed stacks in isolation.",
  ["src/storage/delta.rs", "src/storage/layer.rs", "src/layer/internal/base_merge.rs", "src/layer/internal/mod.rs", "src/store/mod.rs"],
  [("dictionary merge with identifier maps", "src/storage/delta.rs"), ("streaming merge of base layers via temporary directory", "src/layer/internal/base_merge.rs")],
  ["StoreLayer::squash", "StoreLayer::squash_upto", "Store::merge_base_layers"])

prop("P10", "Export and import reproduce layers exactly",
  "Importing an exported pack into any store makes each requested layer that is in the pack retrievable under its id with the same triples, identifiers, parent and changes; requested ids that are not in the pack are ignored and leave no trace. Importing again, importing concurrently, importing layers the store already has, or retrying after a failed, interrupted or crashed import never changes existing layers, never panics, and ends with the layers complete.",
  ["schedules", "crash_points", "histories", "fault_sequences", "configurations"],
  "for every set of exported and requested layers, source and target store kind, interleaving of concurrent imports and readers, and crash, error or damaged pack during import",
  "Tests export one stack and import it once into an empty directory or memory store.",
  ["src/storage/pack.rs", "src/storage/archive.rs", "src/storage/directory.rs", "src/storage/memory.rs", "src/storage/layer.rs", "src/store/mod.rs"],
  [("tar of layer files per id", "src/storage/pack.rs"), ("import through the layer construction path", "src/storage/pack.rs import_layers")],
  ["Store::export_layers", "Store::import_layers", "Store::get_layer_from_id"])

prop("P11", "I/O errors are reported, never turned into wrong data",
  "If any file-system call fails or is cut short (cannot open, read, write, sync, rename, lock; disk full; short read or write), the operation either still succeeds with its correct effect or returns an error: it never panics, hangs, reports success for work not done, or returns wrong data. Data committed before stays intact and readable, and once the fault is gone the same store handle serves new operations correctly.",
  ["fault_sequences", "schedules", "histories"],
  "for every file-system call of every operation failing with any plausible error, singly or in bursts, combined with any interleaving",
  "The tests never make a file-system call fail.",
  ["src/storage/archive.rs", "src/storage/directory.rs", "src/storage/locking.rs", "src/storage/file.rs", "src/storage/layer.rs", "src/storage/pack.rs", "src/store/mod.rs"],
  [("io::Result propagation", "all storage functions"), ("caches filled only from successful loads", "src/storage/archive.rs LruArchiveBackend, src/storage/cache.rs")],
  ["every Store, StoreLayer, NamedGraph operation"])

prop("P12", "Caches are coherent, self-healing and bounded",
  "With caching on, for any cache size, every operation gives the same answer as on an uncached store of the same data, whatever is evicted, loaded concurrently, added by another handle, rolled up, or failed or cancelled while loading; a failed or cancelled load never makes later loads of that layer fail or crash. The memory retained by the archive cache stays within its configured size (plus bookkeeping), however many layers are written or read.",
  ["schedules", "configurations", "histories", "fault_sequences"],
  "for every cache size and layer size, every interleaving of concurrent loads, stores and evictions, and failures or cancellations in a load",
  "Tests use a cache large enough never to evict, one loader at a time, and no failing load.",
  ["src/storage/archive.rs", "src/storage/cache.rs", "src/store/mod.rs"],
  [("LRU of archive bytes with in-flight entries", "src/storage/archive.rs LruArchiveBackend"), ("weak layer cache", "src/storage/cache.rs LockingHashMapLayerCache"), ("invalidation on rollup", "src/storage/cache.rs rollup")],
  ["open_archive_store(path, cache_size)", "Store::get_layer_from_id", "heap held by the store"])

prop("P13", "Abandoned operations leave no damage",
  "Dropping the future of any operation at any await point leaves the store as if the operation had either not happened or happened completely (possibly shortly afterwards), with no panic, no lock left held, no half-written label or layer and no cache or builder left unusable. Every other task, and a retry of the same operation, then works normally.",
  ["schedules", "fault_sequences"],
  "for every operation, every await point at which its future may be dropped, and every interleaving with its own background I/O and with other clients",
  "Tests always await every future to completion.",
  ["src/storage/locking.rs", "src/storage/archive.rs", "src/storage/directory.rs", "src/storage/cache.rs", "src/store/mod.rs"],
  [("lock released when the locked file is dropped", "src/storage/locking.rs Drop"), ("in-flight cache entries", "src/storage/archive.rs LruArchiveBackend")],
  ["select!/timeout/abort around any Store operation, then any further operation"])

prop("P14", "A shared layer builder commits once, with all accepted changes",
  "When several tasks or threads share a layer builder, exactly one commit can succeed and every other commit and every later change is refused with an error. The committed layer contains exactly the changes whose calls returned success, with no change lost, duplicated or taken from a refused call, and builders do not influence each other.",
  ["schedules", "histories"],
  "for every interleaving of additions, removals and commits by concurrent holders of one builder and of sibling builders on the same parent",
  "Tests use each builder from one task.",
  ["src/store/mod.rs", "src/layer/simple_builder.rs"],
  [("builder taken out of a lock on commit", "src/store/mod.rs commit_no_load"), ("changes made under the write lock", "src/store/mod.rs with_builder")],
  ["StoreLayerBuilder::add_value_triple and siblings", "StoreLayerBuilder::commit", "StoreLayerBuilder::committed"])

prop("P15", "Applying a delta or diff transplants exactly those changes",
  "Applying a layer's delta to a builder on any parent and committing gives that parent's triples minus the layer's removals plus its additions; applying a diff to a layer gives exactly that layer's triples. The outcome does not depend on how the parallel workers interleave, on rollups of either layer, or on concurrent activity.",
  ["schedules", "inputs", "histories"],
  "for every pair of layers (related or not, rolled up or not), every schedule of the worker threads that feed the builder",
  "Tests apply one small delta; the parallel workers' order is up to the machine.",
  ["src/store/mod.rs", "src/layer/simple_builder.rs", "src/storage/layer.rs"],
  [("parallel iteration into the locked builder", "src/store/mod.rs apply_delta, apply_diff")],
  ["StoreLayerBuilder::apply_delta", "StoreLayerBuilder::apply_diff"])

prop("P16", "Every operation finishes: no deadlock or livelock",
  "Under every fair schedule, with any number of clients and store handles, worker threads and operations in flight, every operation completes in a bounded number of steps once faults have stopped, in both the asynchronous and the synchronous interface. No lock, cache entry, builder or background task is left waiting for something that will not happen.",
  ["schedules", "configurations", "fault_sequences"],
  "for every schedule of workers, blocking threads and clients on single- and multi-threaded runtimes, for every mix of operations and lock holders",
  "A deadlock shows only in particular interleavings; the tests run each operation alone.",
  ["src/storage/locking.rs", "src/storage/archive.rs", "src/storage/cache.rs", "src/storage/memory.rs", "src/storage/pack.rs", "src/layer/builder.rs", "src/store/mod.rs", "src/store/sync.rs"],
  [("file locks taken in blocking tasks", "src/storage/locking.rs"), ("async locks around in-memory state", "src/storage/memory.rs, src/storage/archive.rs"), ("retry loop", "src/store/mod.rs force_set_head")],
  ["completion of every call"])

prop("P17", "A layer's own changes stay exact for ever",
  "For every layer, the additions and removals reported for it (all, by subject, subject+predicate, predicate, object, existence of one, and the counts) are exactly the net changes of its commit against its parent: nothing already present counts as added, nothing absent counts as removed. This stays so on every store kind, before and after rollups, restarts, eviction, export and import, and during concurrent activity.",
  ["histories", "schedules", "inputs", "configurations"],
  "for every stack of changes (re-adding, removing twice, removing what is absent, add-and-remove), every history of rollups and restarts, every interleaving",
  "Tests query changes of one fixed stack, usually of a layer that was just written.",
  ["src/storage/layer.rs", "src/storage/delta.rs", "src/layer/internal/mod.rs", "src/layer/internal/child.rs", "src/storage/cache.rs", "src/store/mod.rs"],
  [("change files read independently of rollups", "src/storage/layer.rs triple_additions and siblings"), ("net changes computed on commit", "src/layer/internal/child.rs")],
  ["StoreLayer::triple_additions*", "StoreLayer::triple_removals*", "StoreLayer::triple_layer_addition_count", "StoreLayer::triple_layer_removal_count"])

prop("P18", "Identifiers are stable and round-trip",
  "In every layer each known node, predicate and value has exactly one identifier; identifier to text and back are inverse, and unknown texts and identifiers are reported as unknown. Every descendant keeps its ancestors' identifiers, and they are unaffected by rollups, restarts, eviction, export and import, and concurrency.",
  ["histories", "schedules", "inputs", "configurations"],
  "for every stack of layers with any dictionary contents (typed values, empty, long, non-ASCII strings, a text used as node, predicate and value), every history of rollups and restarts, every interleaving",
  "Tests look up a handful of identifiers in freshly made layers.",
  ["src/layer/internal/mod.rs", "src/layer/id_map.rs", "src/layer/simple_builder.rs", "src/storage/layer.rs", "src/storage/delta.rs"],
  [("identifier ranges offset by the parent's counts", "src/layer/internal/mod.rs"), ("identifier maps for squashed and rolled-up layers", "src/layer/id_map.rs")],
  ["Layer::subject_id, predicate_id, object_node_id, object_value_id, id_subject, id_predicate, id_object, id_object_is_node"])

prop("P19", "Enumeration lists exactly what exists",
  "Listing the named graphs gives exactly the graphs created and not deleted, and listing a persistent layer store's layers gives every committed layer and no layer that cannot be loaded. This is so after any history of commits, rollups, imports and deletions, while others work concurrently, and after a crash at any instant.",
  ["histories", "crash_points", "schedules"],
  "for every history and crash instant, for every store kind",
  "Tests list a store with one or two entries that was just written.",
  ["src/storage/archive.rs", "src/storage/directory.rs", "src/storage/memory.rs", "src/storage/layer.rs", "src/storage/cache.rs"],
  [("directory scan by file-name pattern", "src/storage/archive.rs get_layer_names, src/storage/directory.rs directories, labels"), ("temporary files excluded by name", "src/storage/archive.rs")],
  ["Store::labels", "LayerStore::layers"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and suites.py."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin")); sys.dont_write_bytecode = True
import suites

C = "src/ferryd/core/"
J = "src/ferryd/jobs/"
L = "src/libeopkg/"
TESTS_CORE = "The existing tests create one manager, a few repositories and check a couple of error returns; no test runs a sequence of operations or looks at pool, index and files together."
TESTS_JOBS = "No test exercises the job store, the workers or the daemon at all."
TESTS_IO = "No test injects a failure or a crash anywhere; this needs every point of an operation, for many operations and states."

P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, level="exploration", observe=None):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, level=level, observe=observe or []))


prop("C01", "Pool reference counts equal the number of repositories holding each file",
     "After any sequence of repository operations, every package or delta in the shared pool carries a reference count equal to the number of repositories that hold it. A file no repository holds is in the pool neither as an entry nor on disk, and one that some repository holds is there as both.",
     ["histories", "inputs"], "every sequence of create, import, index, clone, pull, copy, remove, trim, delta and delete operations over several repositories and overlapping package sets, with restarts in between",
     TESTS_CORE, [C + "pool.go", C + "repo.go"], [("reference counting of pool entries", C + "pool.go"), ("references taken and dropped with the repository entry", C + "repo.go")],
     "stateful model-based testing (rapid): reference model of repositories, exact comparison of pool entries and pool files",
     "Random histories of up to about 30 operations over 4 repository names and families of related package names; shrunk on failure. Trusts the model in harness/vcore and the package builder in harness/vh.")
prop("C02", "Every file a repository lists exists, intact, and nothing unlisted is left",
     "Whatever operations ran, each package and delta a repository lists exists in that repository and in the pool with exactly the bytes that were imported, and the repository advertises its true size and digest at its true relative location. No package file that the repository does not list remains in it, and an operation on one repository never damages a file that another one lists.",
     ["histories", "inputs"], "every sequence of operations over repositories that share pool files by hard link, including removal and re-adding of the same package",
     TESTS_CORE, [C + "repo.go", C + "pool.go", C + "util.go", C + "repo_index.go"], [("link-or-copy into the tree", C + "util.go"), ("removal of unreferenced files", C + "repo.go")],
     "stateful model-based testing (rapid): full scan of repository and pool trees against the model after each operation",
     "Compares digests of every file in the trees with the bytes given to the import. Trusts sha1/sha256 of the Go library.")
prop("C03", "The published build of a package is the one with the highest release",
     "For each package name in each repository, the published build is the one with the highest release number among those the repository holds, regardless of the order in which builds were added, copied, pulled or removed. The index advertises exactly that build for each name.",
     ["histories", "inputs"], "every order of adding and removing builds of a package, with release numbers of different lengths and versions that sort differently from releases",
     TESTS_CORE, [C + "repo.go", L + "metadata.go"], [("selection of the published build", C + "repo.go"), ("release of a package is that of its newest history entry", L + "metadata.go")],
     "stateful model-based testing (rapid): tip computed by the model as maximum release, compared with stored entry and index",
     "Two builds of the same release in one repository are excluded: the code reports them as an operator error and keeps either.")
prop("C04", "The index lists exactly the published, non-obsolete packages, always up to date",
     "After every successful operation that changes a repository, its index contains one entry per package name the repository holds, describing its published build with its metadata, apart from names (and their debug packages) that the distribution description marks obsolete. It also carries the distribution, components and groups currently configured for that repository, and the deltas that lead to each published build.",
     ["histories", "inputs"], "every sequence of operations and of edits to the repository's asset files, and every package metadata",
     TESTS_CORE, [C + "repo_index.go", C + "repo.go", C + "api.go", L + "distribution.go", L + "components.go", L + "groups.go"], [("index emission", C + "repo_index.go"), ("index after every change", C + "api.go")],
     "stateful model-based testing (rapid): independent XML parse of the emitted index compared with the model",
     "The index is re-parsed by an independent decoder of the harness, compared field by field.")
prop("C05", "Compressed indexes and checksum files always match the plain index",
     "After any successful indexing, the compressed copies of the index decompress to exactly the plain index, and each published checksum file contains the digest of the file it accompanies. No temporary file of the indexing remains.",
     ["histories", "inputs"], "every repository content, including an empty one, and every earlier state of the index directory",
     "No test indexes a repository and decompresses what came out.", [C + "repo_index.go", C + "util.go", L + "util.go"], [("compression and checksums of the index", C + "repo_index.go")],
     "property-based testing (rapid) with the real compressors: decompress/digest differential on the artefacts",
     "Runs the real xz and zstd of the sandbox; digests recomputed by the harness.")
prop("C06", "The index depends only on what the repository holds, not on its history",
     "Two repositories that hold the same packages, deltas and asset files publish byte-identical indexes, whatever sequence of operations led there. Indexing again without a change leaves the index as it was.",
     ["histories"], "every pair of histories that end in the same repository content",
     TESTS_CORE, [C + "repo_index.go", "src/libdb/leveldb.go", C + "repo.go"], [("packages are emitted in the order of their names", C + "repo_index.go")],
     "metamorphic testing (rapid): rebuild the final content from scratch in another order, compare index bytes",
     "Same content is produced through a different order of imports and removals.")
prop("C07", "Text of package metadata reaches the index unchanged and as valid XML",
     "Whatever text a package's metadata contains, in any language, the published index is well-formed XML of which a reader recovers the same text, where symbols and special spaces may be written as numeric character references and white space around summaries and descriptions does not count. How the text falls into the pieces in which the index is written makes no difference.",
     ["inputs"], "every Unicode text of a name, summary, description, packager, URI or licence field, and every way of splitting the output into writes",
     "The one escaping test feeds a handful of fixed strings in single writes.", [C + "escape.go", C + "repo_index.go", L + "metadata.go"], [("escaping of the index text", C + "escape.go")],
     "property-based testing (rapid): round trip through an independent XML reader, and split/whole metamorphic relation on the escaper",
     "Characters XML cannot carry at all are excluded, as are carriage returns and literal hexadecimal character references (the index writes symbols as such references in CDATA too, where the reader of the harness resolves them).")
prop("C08", "Readers always find a complete index, whatever happens while indexing",
     "At every moment of an indexing run, also if it fails or the machine stops at that point, the published plain index is complete: it is the old one or the new one. A failed indexing reports an error and, unless it failed while putting finished files in place, leaves the old index and its companions; the next indexing succeeds.",
     ["crash_points", "fault_sequences", "inputs"], "every file-system step at which indexing can be cut short or fail, and every malformed asset file",
     TESTS_IO, [C + "repo_index.go"], [("index is written aside and renamed in place", C + "repo_index.go")],
     "fault-injection property testing: every file-system step of an indexing is cut or failed, oracle old-or-new index plus recovery",
     "File-system calls are intercepted in a rewritten copy of the sources; crash means process stop with completed calls durable (no reordering of un-synced writes).", "fault_enumeration")
prop("C09", "Cloning makes a repository with the same packages, full or tip only",
     "A full clone holds every package build and delta of its source with the same published builds; a tip clone holds exactly the published build of each name and no deltas. The source is unchanged, the clone carries the source's asset files and is indexed, and cloning onto an existing name is refused without an effect.",
     ["histories", "inputs"], "every source repository state reachable by a history and both clone modes",
     TESTS_CORE, [C + "repo.go", C + "api.go"], [("clone from a source repository", C + "repo.go")],
     "stateful model-based testing (rapid): clone expected from the model, source compared before/after",
     "Evaluated on random histories; independent model.")
prop("C10", "Pulling brings in whatever the source publishes newer, and nothing else",
     "After a pull, each name published by the source that the target lacked or held in a lower release is published in the target at the source's release; the builds and deltas the target already had stay, and names with the same release are unchanged. The target takes over the source's asset files, the changed names are reported exactly, the source is unchanged, and a pull into a target that publishes something newer is refused without changing any package.",
     ["histories", "inputs"], "every pair of repositories reachable by histories, including pulls of a repository that is ahead, behind, or both",
     TESTS_CORE, [C + "repo.go", C + "api.go"], [("pull from a source repository", C + "repo.go")],
     "stateful model-based testing (rapid): pull computed by the model and compared with target, source and reported names",
     "A pull between repositories whose tips conflict at the same release is refused by the code; the model expects the refusal.")
prop("C11", "Removing a source removes exactly the matching builds",
     "Removing a source at a release (at every release, if none is given) removes from that repository every package built from it, debug packages included, with the deltas from or to them, and nothing else. If none matches, the request fails and nothing changes; the published builds and the index follow.",
     ["histories", "inputs"], "every repository state and every source name and release, among names that are prefixes of others",
     TESTS_CORE, [C + "repo.go", C + "api.go"], [("removal by source and release", C + "repo.go")],
     "stateful model-based testing (rapid): removal computed by the model",
     "Random histories.")
prop("C12", "Copying a source copies exactly the matching builds",
     "Copying a source at a release from one repository to another adds every package built from that source at that release (at every release, if none is given) to the target and nothing else, and leaves the origin unchanged. Copying again changes nothing, and the target's index is updated unless the request says to skip it.",
     ["histories", "inputs"], "every pair of repositories, source name, release and skip flag",
     TESTS_CORE, [C + "repo.go", C + "api.go"], [("copy by source and release", C + "repo.go")],
     "stateful model-based testing (rapid): copy computed by the model",
     "Random histories; the exact treatment of the release argument follows the documented command.")
prop("C13", "Trimming keeps the newest builds of each package and removes the others",
     "Trimming a repository to N builds leaves, for each name, exactly the N builds with the highest releases (all if there are no more than N), removes the deltas that touch removed builds, and leaves other names and repositories alone. A published build never disappears by it.",
     ["histories", "inputs"], "every repository state and number of builds to keep",
     TESTS_CORE, [C + "repo.go"], [("sorting by release and trimming", C + "repo.go"), ("ordering of packages", L + "metadata.go")],
     "stateful model-based testing (rapid): trim computed by the model",
     "N of at least 1, as the command line asks.")
prop("C14", "Trimming obsoletes removes every obsolete package and only those",
     "Trimming obsoletes removes every build of each name the distribution description marks obsolete, and of its debug package, and nothing else. Other names, including those that contain an obsolete name, stay.",
     ["histories", "inputs"], "every set of obsolete names and every repository state",
     TESTS_CORE, [C + "repo.go", L + "distribution.go"], [("obsolete lookup", L + "distribution.go"), ("removal of obsolete names", C + "repo.go")],
     "stateful model-based testing (rapid): trim computed by the model",
     "Names related by prefix and by the debug suffix are generated on purpose.")
prop("C15", "Repositories are created empty and deleted without a trace",
     "Creating a repository gives an empty, indexed one and is refused, without an effect, if the name is taken or is no plain name. Deleting one removes its entry, its files and its hold on pool files and nothing of any other repository, after which the name can be used afresh; operations on a name that does not exist fail without an effect.",
     ["histories", "inputs"], "every sequence of creations and deletions mixed with the other operations, and every repository name",
     TESTS_CORE, [C + "repo.go", C + "api.go", C + "manager.go"], [("creation and deletion", C + "repo.go")],
     "stateful model-based testing (rapid): life cycle in the model, tree scan after deletion",
     "Random histories.")
prop("C16", "An operation on one repository never changes another",
     "Contents, published builds, deltas, files and index of every repository other than the target of an operation are the same before and after it. This holds also for repositories whose names resemble each other, such as one being a prefix of the other.",
     ["histories", "inputs"], "every operation in every state with several repositories whose names are prefixes, differ in case, or contain separators",
     TESTS_CORE, [C + "repo.go", C + "pool.go", "src/libdb/leveldb.go"], [("separate key ranges per repository", "src/libdb/leveldb.go"), ("hard links, never writes in place", C + "util.go")],
     "stateful model-based testing (rapid): byte comparison of all other repositories around each operation",
     "One pair of names that the stored key format cannot tell apart is a listed known finding and is not generated otherwise.")
prop("C17", "Importing adds exactly the named packages, once",
     "Importing adds each given package to the repository with its metadata, whatever the order, leaves what was there, and indexes it. Importing a package again, into the same or another repository, changes nothing beyond the reference of the other repository.",
     ["histories", "inputs"], "every batch of packages, with repetitions, in every repository state",
     TESTS_CORE, [C + "repo.go", C + "pool.go", L + "package.go"], [("import of a package file", C + "repo.go")],
     "stateful model-based testing (rapid): import computed by the model",
     "Random histories.")
prop("C18", "A transit upload is all-or-nothing in validation and strict about releases",
     "An upload is accepted only if its manifest names a known target and packages that came with it, below its own directory, which all exist with the stated digests; otherwise it fails and changes nothing. An accepted upload adds exactly its packages to the target and removes the upload; a package that is not newer than the published build is refused and leaves the published builds as they were.",
     ["inputs", "histories"], "every manifest, well-formed or not (missing or wrong fields, digests, missing files, path names), against every repository state",
     "The manifest tests parse three fixed files and never process an upload.", [C + "transit_manifest.go", J + "transit_job.go", C + "repo.go"], [("manifest validation", C + "transit_manifest.go"), ("processing of an upload", J + "transit_job.go")],
     "property-based testing (rapid): generated manifests with injected defects, model of acceptance, state before/after",
     "Which packages of a refused upload precede the refused one is not restricted: the code adds packages one by one.")
prop("C19", "A delta package carries exactly what changed between two builds",
     "A delta between two builds contains everything of the newer one except its payload, and a payload of exactly its directories and those of its files whose content the older build does not have, with their contents, types and modes; applying it to the older build gives the newer one. Builds of which nothing can be saved, or that are not an older and a newer release of the same package for the same distribution and architecture, yield no delta but an error, and an interrupted attempt does not prevent a later one. The delta job of a name produces or reuses exactly the possible deltas to its newest build, recorded with the builds they lead between.",
     ["inputs"], "every pair of package contents: files added, removed, moved, changed in content or type, directories, links",
     "The delta test builds one delta of two fixed packages and checks that a file appears.", [L + "delta.go", C + "util.go", L + "package.go", L + "files.go"], [("selection of changed files by digest", L + "delta.go")],
     "property-based testing (rapid): generated package pairs, reconstruct newer = apply(delta, older)",
     "Runs the real tar and xz tools where the producer does.")
prop("C20", "Deltas are attributed to the right package, counted, and dropped when useless",
     "A delta added to or shared into a repository is listed under its package exactly once, with the builds it leads from and to, keeps a pool reference, and is published only while it leads to the published build. When either build leaves the repository the delta goes with it; a delta recorded as failed is never reported as available. A job that adds deltas, made by it or already stored, reindexes the repository if it was asked to.",
     ["histories", "inputs"], "every sequence of delta additions, sharing between repositories, failures, imports and removals",
     TESTS_CORE, [C + "repo.go", C + "pool.go", C + "repo_index.go"], [("delta bookkeeping", C + "repo.go"), ("record of failed deltas", C + "pool.go")],
     "stateful model-based testing (rapid): deltas in the model; delta jobs run against the index they should leave",
     "Random histories.")
prop("C21", "Queued jobs are handed out first in, first out, each exactly once, and survive",
     "Every accepted job is handed out exactly once, in the order in which it was queued within its queue, with its type, parameters and queueing time intact. Jobs not yet finished when the daemon stops are still there after a restart and are handed out again, in the same order, and finished ones are not.",
     ["histories", "crash_points"], "every sequence of push, claim, finish and restart on both queues, up to hundreds of queued jobs",
     TESTS_JOBS, [J + "store.go", J + "main.go", "src/libdb/leveldb.go"], [("sequence keys and claiming", J + "store.go"), ("unclaiming at start", J + "store.go")],
     "stateful model-based testing (rapid): queue model with restarts",
     "Restarts reopen the store; crash images are covered by C26 and C28.")
prop("C22", "The job history keeps the newest hundred results of each kind, correctly",
     "A finished job appears in the list of completed or of failed jobs, whichever it was, with its description, error text and times, and never in the other. Each list holds the latest results, up to one hundred, across restarts; resetting one list empties it, leaves the other, and later results appear again.",
     ["histories"], "every sequence of finished jobs, beyond several hundred, resets and restarts",
     TESTS_JOBS, [J + "store.go", J + "worker.go"], [("ring of stored results", J + "store.go")],
     "stateful model-based testing (rapid): log model with wrap-around",
     "Order within a list is not restricted.")
prop("C23", "Concurrent use of the job queue loses, duplicates or mixes nothing",
     "With any number of producers, workers and status readers working at the same time, every accepted job is handed to exactly one worker, and every finished job is counted once in the history. A reader never sees a job that was not queued or misses one that was queued and unfinished throughout.",
     ["schedules", "histories"], "every interleaving of pushes, claims, completions, resets and listings by concurrent goroutines",
     TESTS_JOBS, [J + "store.go", J + "processor.go"], [("one mutex around every change of a queue", J + "store.go")],
     "randomised concurrent histories with a linearizability-style checker; schedule perturbation at storage calls",
     "Schedules come from the Go scheduler with injected yields; not exhaustive. Trusts the checker of the harness.")
prop("C24", "A job performs the operation it describes and its outcome is recorded",
     "Running a queued job has the same effect as performing its operation directly with the same arguments, for every kind of job the daemon accepts. It is recorded as completed if the operation succeeded and as failed, with the error, if it did not, and a failing job or one with unusable parameters neither stops the queue nor affects the jobs after it.",
     ["histories", "inputs"], "every sequence of jobs of every kind, with valid, failing and malformed parameters",
     TESTS_JOBS, [J + "worker.go", J + "main.go", J + "bulk_add.go", J + "clone_repo.go", J + "copy_source.go", J + "trim_packages.go"], [("job handlers", J + "main.go"), ("worker loop", J + "worker.go")],
     "differential testing (rapid): jobs through the real processor in fake time versus direct calls on a twin",
     "Runs the real workers under the virtual clock of testing/synctest.")
prop("C25", "The database behaves as a map per bucket",
     "Every read returns the value last stored under that key in that bucket, a deleted key is absent, and listing a bucket visits exactly its own keys with their values in byte order of the keys. Buckets never see each other's keys, whatever the names, nor do nested buckets and their parent, and everything survives closing and reopening.",
     ["histories", "inputs"], "every sequence of puts, deletes, reads and listings over nested buckets with arbitrary, related names and keys",
     "libdb has no tests of its own.", ["src/libdb/leveldb.go", "src/libdb/main.go", "src/libdb/transcoder.go"], [("key prefix per bucket", "src/libdb/leveldb.go")],
     "stateful model-based testing (rapid): map-of-maps model",
     "Bucket names with the separator at the same depth as a name they extend are a listed known finding and are otherwise not generated.")
prop("C26", "A group of database changes happens completely or not at all",
     "If the function that makes a group of changes returns an error, none of them is visible then or later; if it succeeds all of them are, also after a restart. A crash at any moment leaves every group wholly applied or wholly absent, a group that was reported as successful is not lost, and nothing of an unfinished group is visible to anyone else.",
     ["histories", "crash_points", "fault_sequences"], "every group of changes, nested or not, failing at any position, and every storage step at which the process can stop",
     "libdb has no tests of its own, and none simulates a crash.", ["src/libdb/leveldb.go"], [("transactions over the storage", "src/libdb/leveldb.go")],
     "stateful property testing with crash images at every storage step; all-or-nothing oracle",
     "A crash is a stop of the process: writes made before it are kept, later ones are not.", "fault_enumeration")
prop("C27", "A restart changes nothing",
     "Stopping the daemon and starting it again on the same directory leaves every repository, its packages, published builds, deltas, the pool with its reference counts, and the assets as they were, and operations afterwards behave as if there had been no restart.",
     ["histories"], "every history with restarts at arbitrary positions",
     TESTS_CORE, [C + "manager.go", C + "repo.go", "src/libdb/leveldb.go", C + "init.go"], [("state is in the database and on disk only", C + "manager.go")],
     "stateful metamorphic testing (rapid): observation equal before and after reopen, model continues",
     "Clean restarts; unclean ones are C28.")
prop("C28", "A crash in the middle of an operation loses nothing and can be recovered",
     "If the daemon dies at any moment of an operation, a restarted one opens the state, every other repository is intact, no repository lists a file that is damaged or, unless the operation was removing it, missing, and reference counts are right. Repeating the operation (a half-made new repository is deleted first, an upload is imported plainly, and indexing is enough when nothing is left to do) leads to the state the undisturbed operation would have given.",
     ["crash_points", "histories"], "every file-system and storage step of every operation, in random states",
     TESTS_IO, [C + "repo.go", C + "pool.go", C + "repo_index.go", C + "util.go"], [("files before database entries, one transaction for entry and reference", C + "repo.go")],
     "crash-point enumeration over generated operations: image at each step, reopen, invariant and redo oracle",
     "A crash is a stop of the process with completed calls durable; reordering by the kernel or a power failure is out of scope.", "fault_enumeration")
prop("C29", "A failing file-system call makes the operation fail cleanly",
     "If any file-system call of an operation fails, the operation reports an error or completes with its full effect, other repositories stay intact, and nothing listed is damaged or, unless the operation was removing it, missing. When the failure is gone, after a restart if the database was hit, repeating the operation as after a crash gives the state the undisturbed one would have given.",
     ["fault_sequences", "histories"], "each file-system and database call of each operation failing once, in random states",
     TESTS_IO, [C + "repo.go", C + "pool.go", C + "util.go", C + "repo_index.go"], [("errors are returned up to the job", C + "repo.go")],
     "fault-injection property testing: k-th call fails, success-or-error oracle with redo",
     "Errors of best-effort removals and of setting times and modes, which the code documents as not fatal, and of questions whether a file exists are not injected; a write that only fails when the file is closed is not either.", "fault_enumeration")
prop("C30", "Malformed packages and files are refused without a crash or an effect",
     "A file that is not a proper package, or whose metadata is malformed or lacks a history with a release, a usable name or a usable source name, makes the import fail with an error and changes neither the repository nor the pool; one that is accepted can be indexed, shared and removed like any other. The daemon does not crash on any such package, delta, payload, asset file or manifest, nor writes outside its own directories because of one.",
     ["inputs"], "every mutation of valid packages, of their metadata and of asset files, at the byte and at the structure level",
     "The package tests open one or two fixed valid packages.", [L + "package.go", L + "metadata.go", L + "components.go", L + "groups.go", L + "distribution.go", C + "repo.go"], [("validation of the metadata", L + "package.go")],
     "structure-aware and byte-level mutation testing (rapid): no panic, state unchanged on error, usable on success",
     "Memory exhaustion by enormous archives is out of scope.")
prop("C32", "What the command asks for is what the daemon does",
     "Every request made through the client reaches the daemon as the same operation with the same arguments, whatever characters names contain, and is queued or answered accordingly. An error of the daemon reaches the caller as an error.",
     ["inputs"], "every client operation with arbitrary names, numbers, flags and package lists",
     "No test talks to the daemon.", ["src/libferry/main.go", "src/libferry/types.go", "src/ferryd/handlers.go", "src/ferryd/server.go"], [("requests and routes", "src/libferry/main.go"), ("handlers", "src/ferryd/handlers.go")],
     "property-based testing (rapid): client against the real server over a unix socket, queued job compared with the request",
     "Names containing a slash cannot be routed and are refused; they are generated for that only.")
prop("C33", "Status and listings report the true state",
     "The status lists every queued or running job with what it is about to do, and every remembered result; the listings name every repository once and every pool entry with its reference count. Nothing that happens to be queued makes them fail, and a listing taken while an operation is under way names everything that was there before and is there after it.",
     ["histories", "inputs", "schedules"], "every state of queue, history, repositories and pool, and every moment of an operation",
     "No test talks to the daemon.", ["src/ferryd/handlers.go", J + "store.go", "src/libferry/types.go", "src/libferry/main.go"], [("collection of the status", "src/ferryd/handlers.go")],
     "stateful property testing (rapid): generated states served by the real daemon to client and command, compared with a model; concurrent readers during operations",
     "A first job that never ends keeps the queue as it is; delta jobs, which another worker takes up, may move to the failed ones meanwhile.")
prop("C34", "At most one daemon owns a base directory, and a dead one never blocks it",
     "Of any number of processes that try to take the lock of a base directory at any time, at most one holds it, and the others are refused with an error naming a live owner or fail. A lock left by a process that is gone, in whatever state its file is, does not prevent a later one, nor does the socket it left, and releasing it never disturbs another owner. A daemon that is ending keeps the lock until its last job is done.",
     ["schedules", "histories", "inputs"], "every interleaving of lock, unlock, cleanup and death by several processes, and every content of a stale lock file",
     "The lock file has no tests.", ["src/ferryd/lockfile.go", "src/ferryd/server.go"], [("advisory lock and recorded PID", "src/ferryd/lockfile.go")],
     "schedule and crash-point search over played processes at os-call granularity (rapid), plus generated fleets of real daemons with an exclusion monitor",
     "Calls on the open lock file (truncate, write, close) are not points of interruption. The kernel lock and the PIDs are real.")
prop("C35", "The command line imports exactly the packages it was pointed at",
     "The import command asks for every package file among its arguments and below the directories among them, each by absolute path, once for every argument that leads to it, leaving out delta packages and other files. The other commands pass on their arguments and flags faithfully, and refuse wrong arguments without contacting the daemon.",
     ["inputs"], "every directory tree and argument list",
     "The command line has no tests.", ["src/ferryctl/cmd/import.go", "src/ferryctl/cmd/copy_source.go", "src/ferryctl/cmd/clone_repo.go", "src/ferryctl/cmd/trim_packages.go"], [("discovery of packages", "src/ferryctl/cmd/import.go")],
     "property-based testing (rapid): generated trees and arguments, recorded requests of a stand-in daemon",
     "Runs the built command against a recording server.")
prop("C36", "Reading a package yields its metadata and files as they were written",
     "Reading a package file returns every field of its metadata, in every language, and its file list as written in the archive, along with its own name, size and digest. The relations derived from it (release, version, which delta is possible and its name, where it is stored) follow from those fields alone.",
     ["inputs"], "every package content and metadata, of any field combination and length",
     "The metadata tests read one or two fixed packages.", [L + "metadata.go", L + "package.go", L + "files.go", L + "delta.go"], [("parsing of the package", L + "package.go")],
     "property-based testing (rapid): build package from generated metadata, read back, compare",
     "Packages are built by the harness with archive/zip.")
prop("C37", "Every completed upload manifest is processed, and nothing else is",
     "While the daemon runs, each manifest file that finishes being written or is moved into the incoming directory is queued for processing exactly as it is named there, also after the kernel could not keep up with the events. Other files, subdirectories and what lies in them queue nothing.",
     ["histories", "inputs"], "every sequence of file creations, renames and writes in the incoming directory",
     "No test starts the daemon.", ["src/ferryd/monitor.go", "src/ferryd/server.go"], [("watch on the incoming directory", "src/ferryd/monitor.go")],
     "property-based testing (rapid): generated file-system activity, queued jobs compared with the expected set",
     "Waits on a marker manifest instead of a fixed time. Events the kernel dropped are not recovered; manifests present before the start are not queued.")
prop("C38", "No accepted job is lost or forgotten in a crash of the daemon",
     "If the daemon dies at any moment, every job whose queueing was acknowledged and whose end was not is in the queue after a restart, in the order of queueing and ready to run again. One that was finished is not; its result is remembered. A job is never in neither place or in both, and a reset of results is done completely or not at all.",
     ["crash_points", "histories"], "every byte of what queueing, claiming, finishing and resetting write to the job database, in random states of queues and history",
     TESTS_JOBS, [J + "store.go", "src/libdb/leveldb.go"], [("removal from the queue and result in one transaction", J + "store.go")],
     "stateful property testing (rapid): crash images of the job database at generated bytes, before-or-after oracle, histories continued from the image",
     "A crash is a stop of the process: what was written is kept.", "fault_enumeration")

prop("C39", "What the command shows is what the daemon answered",
     "The status command shows the daemon's version and uptime and, for each list of jobs that is not empty, how many there are and each job with its own state, times, description and error: failed and completed ones from the last queued to the first, current ones from the first to the last, ten of each list unless all are asked for. The list commands show every repository, in order, and every pool entry with its count, once. An error, a broken or an unreadable answer is reported, and never shown as an empty state.",
     ["inputs"], "every status, listing, error and broken answer a daemon can give, with any text",
     "The command line has no tests.", ["src/ferryctl/cmd/status.go", "src/ferryctl/cmd/list_repos.go", "src/ferryctl/cmd/list_pool.go", "src/libferry/types.go", "src/libferry/main.go"], [("tables of jobs", "src/ferryctl/cmd/status.go"), ("durations and order", "src/libferry/types.go")],
     "property-based testing (rapid): generated answers of a stand-in daemon, printed tables parsed back and compared",
     "Text in tables is compared with its white space collapsed, as tables break lines; no vertical bars in it. No two jobs of a list are queued at the same time.")
prop("C40", "A new index is made known to the content delivery network",
     "If a token and a zone are configured and a list of addresses exists for a repository, every operation that publishes a new index for it asks the network to drop exactly the listed addresses, with that token and zone, once the new index is in place. A request that is refused or cannot be made, or a list that cannot be read, is reported as an error of the operation, whose effect stays. Without a token, zone or list, or when indexing fails, nothing is asked for, nor anything listed for other repositories.",
     ["histories", "inputs", "faults"], "every history of operations, configuration, list and answer of the network",
     "Nothing tests it: there is neither a network nor a list in the tests.", [C + "purge_cloudflare.go", C + "repo_index.go"], [("request for the listed addresses", C + "purge_cloudflare.go"), ("after the index is in place", C + "repo_index.go")],
     "stateful property testing (rapid): a recording stand-in for the network under generated histories, configurations and failures, compared with the model",
     "At most thirty addresses, as the network takes no more in one request; no empty lists. The stand-in replaces the transport of the HTTP library; no retries.")
prop("C41", "The daemon serves one socket, its own or the one it is given",
     "A daemon that makes its own socket serves it with mode 0660 whatever the umask, also where one that nobody listens on was left, and removes it in the end. One that is given a socket by the service manager serves that, requests made before it ran included, leaves it as it was when it ends, and touches nothing at the path of the other. If it is given anything but one unix socket it ends with a message and leaves all as it was.",
     ["inputs", "histories", "crash_points"], "every way of handing over sockets, umask, left-over and sequence of daemons",
     "No test starts the daemon.", ["src/ferryd/server.go", "src/ferryd/main.go"], [("own and given sockets", "src/ferryd/server.go")],
     "property-based testing (rapid): real daemons started under generated umasks and socket activations, file identity and service compared",
     "The sockets are given as a service manager does, by descriptor 3 and the environment.")
prop("C42", "Ending or killing the daemon loses no accepted work",
     "A daemon told to end finishes the job it is at, and remembers its result, before it ends; those it leaves are carried out, in order, by the next one. Every job that was accepted, also while the daemon was ending, is carried out and its result remembered, exactly once unless a daemon was killed. The repositories are then what the accepted jobs make of them.",
     ["schedules", "crash_points", "histories"], "every moment at which a daemon with work at hand is ended or killed, and every sequence of such sessions",
     "No test starts the daemon.", ["src/ferryd/server.go", J + "processor.go", J + "worker.go", J + "store.go"], [("order of the shutdown", "src/ferryd/server.go"), ("workers stop after their job", J + "worker.go")],
     "stateful property testing (rapid): fleets of real daemons ended, killed and restarted under load, history and repositories compared with a model",
     "A job is held in its middle by assets in a pipe. Moments inside the writing of files are those of C28 and C38.")
prop("C43", "Operations keep no file open or mapped, however they end",
     "Once an operation has ended, with success, with an error or because of a malformed package, the process holds none of the files it worked on, neither open nor mapped into memory, so that a daemon that runs for months and is fed bad input does not run out of them. A client that was closed keeps no connection to the daemon.",
     ["inputs", "histories", "crash_points"], "every operation, outcome, malformed package, asset file or delta, and every failing system call or write to the database within it",
     "No test looks at what the process holds after an operation, and only failures in the middle leave something behind.", [C + "mmap.go", L + "delta.go", L + "package.go", C + "util.go", "src/libferry/main.go"],
     [("mappings and descriptors of hashed files", C + "mmap.go"), ("files of a delta under production", L + "delta.go"), ("connections of a client", "src/libferry/main.go")],
     "property-based testing and fault injection (rapid): descriptors and mappings of the process compared with none after each generated operation",
     "Reads /proc/self/fd and /proc/self/maps of the harness; the database's own files do not count. A descriptor the garbage collector has already closed is not seen.")

prop("C44", "Data stored by, and requests of, earlier versions are understood",
     "A daemon that is started on the databases of an earlier version finds in them exactly the repositories, packages, tips, deltas, reference counts, failed deltas, queued jobs and results that version recorded, and carries its queued jobs out as that version would have; a client of an earlier version gets from the daemon what it asks for, and the daemon answers in the form that client reads, and the other way round. What is stored and exchanged may grow, but what it held keeps its name, place and meaning.",
     ["inputs", "histories"], "every state of a database that a history leads to, every kind of job with its parameters, every request and answer",
     "The tests use one version on both sides, so that a form that changes on both sides at once is not seen.", [C + "repo.go", C + "pool.go", "src/ferryd/jobs/main.go", "src/ferryd/jobs/store.go", "src/libdb/leveldb.go", "src/libferry/main.go", "src/libferry/types.go", "src/ferryd/handlers.go"],
     [("records of packages and repositories", C + "repo.go"), ("records of pool items and failed deltas", C + "pool.go"), ("jobs and results as stored", "src/ferryd/jobs/main.go"), ("names of buckets and keys", "src/libdb/leveldb.go"), ("requests and answers", "src/libferry/main.go")],
     "property-based testing (rapid), differential: databases and requests written in the form of the pinned commit, kept apart from the code, against the code of now",
     "The form of reference is the one of the pinned commit. An upgrade after a crash in the middle of an operation is what C28 covers, with the code of now on both sides.")

prop("C45", "Everyone can read what is published, and only the daemon can change it",
     "The web server that hands out repositories runs as another user. Under the usual umask (022, 002 or none) every directory and every index, compressed index and checksum file of a repository can be read by everyone after every operation, and every package and delta by everyone who could read the file that was imported (or by everyone, if the daemon made it); and nothing the daemon stores can be changed by anyone the umask excludes: no file below the base directory is writable by others than the umask, or the mode of the imported file, allows.",
     ["histories", "inputs"], "every history of operations over several repositories, every mode of the imported files and every one of the three umasks",
     "The tests run as one user and look at no modes.", [C + "repo.go", C + "repo_index.go", C + "pool.go", C + "util.go", L + "util.go", L + "delta.go"],
     [("checksum files", C + "util.go"), ("copies and links of packages", C + "util.go"), ("index files", C + "repo_index.go"), ("directories of a repository", C + "repo.go")],
     "stateful property-based testing (rapid): invariant over the modes of the whole tree after every operation, sources with generated modes, generated umask",
     "A package that was uploaded readable by its owner only is published as such (it is hard-linked).")
prop("C46", "Nothing is left behind that nothing needs",
     "What the daemon keeps on disk follows from what its repositories hold, not from what was done before. After every completed operation, whether it succeeds or is refused, and after every restart, the base directory has exactly: the directories of the existing repositories; in each the files of the packages and deltas it lists with the directories that lead to them, and the index files; the assets an administrator put there; the pool's files of what some repository lists; and deltas that were made and are not yet included. No emptied directory, temporary, replaced or work file and nothing of a removed repository stays, a delta that is not worth making leaves nothing in its work area, and the system's directory for temporary files stays as it was.",
     ["histories", "inputs"], "every history of operations, refused ones included, over several repositories that share packages, and every pair of builds a delta is made of",
     "The tests remove nothing from a repository and look for what is there, not for what is not needed.", [C + "repo.go", C + "repo_index.go", C + "pool.go", C + "util.go", L + "delta.go", J + "delta.go"],
     [("removal of a package and its directories", C + "repo.go"), ("removal from the pool", C + "pool.go"), ("removal of a repository", C + "repo.go"), ("index files under their temporary names", C + "repo_index.go"), ("work area of a delta", L + "delta.go")],
     "stateful property-based testing (rapid): invariant that every file and directory below the base directory is accounted for by the recorded state",
     "Not after a crash or a failed system call, which may cost space (C28, C29).")
prop("C47", "Operations on repositories run one at a time, in order, as soon as possible",
     "However many operations are asked for and at whatever moments, those that change or publish a repository (imports, uploads, creation, removal, clone, pull, copy, removal of sources, trimming, indexing) are carried out one after another in the order in which they were queued: none is begun before the one before it has ended and been recorded, and nothing is done on their behalf before they are begun or after they are recorded as ended. An operation that waits is begun within three seconds of the daemon being free, whatever happened before, failures and idle hours included. Ending the processor waits for the operation at work, and begins none.",
     ["schedules", "histories"], "every sequence of operations queued at any moments, every length of each of their steps, any number of background workers and every moment of ending the processor",
     TESTS_JOBS, [J + "worker.go", J + "processor.go", J + "store.go", J + "main.go"], [("one sequential worker", J + "processor.go"), ("claiming, running and recording", J + "worker.go"), ("queue of each kind of operation", J + "bulk_add.go"), ("queue of uploads", J + "transit_job.go")],
     "property-based testing of schedules (rapid) in virtual time: real workers, generated moments and durations of every file-system step, invariants over the recorded times and the observed steps",
     "Deltas are produced beside the other operations by design (and are not, see C24).")

prop("C48", "Slow, stuck and rude clients and busy jobs hold up nobody",
     "Whatever other clients do (connect and say nothing, in any number, stop in the middle of a request or go away there, never read their answers, send noise), and while a job takes its time, the daemon answers every other request and carries out the jobs. A request sent slowly is served; one that was not sent completely has no effect. The daemon ends when told to although such clients stay.",
     ["schedules", "inputs", "histories"], "every set of clients, every point at which one stops or goes away, and every request next to them, whether the daemon is busy or not",
     "No test starts the daemon.", ["src/ferryd/server.go", "src/ferryd/handlers.go", J + "store.go", C + "manager_api.go"], [("handlers hold nothing while they talk to clients", "src/ferryd/handlers.go"), ("bounded wait at the end", "src/ferryd/server.go")],
     "property-based testing (rapid): fleets of real daemons, kept busy, with generated misbehaving clients next to requests that must be answered; jobs and repositories compared with a model",
     "Answers are waited for 30 seconds, so a delay below that passes. A client that asks and goes away before the answer may or may not be served.")

NA = {}


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"],
                                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        pid = p["pid"]
        if pid in suites.SUITES and pid not in NA:
            checks.append({"property": pid, "quick_cmd": f"bin/check.py {pid} quick", "thorough_cmd": f"bin/check.py {pid} thorough",
                           "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
            assert p["level"] == suites.LEVEL.get(pid, "exploration")
        else:
            na.append({"property": pid, "reason": NA.get(pid, "no check yet: it is being built")})
    m = {"version": 1, "setup_cmd": "bin/setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: harness code is laid over the tree at build time (go -overlay), also where file-system calls are intercepted."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")
    print(len(checks), "checks,", len(na), "unclaimed")


main()

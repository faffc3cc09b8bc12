D = {
"C01": ("Histories of 10-40 (70) operations; pool entries with counts and the set of pool files are compared with the model after each one.",
        "Sharing between repositories comes from clone, pull, copy and importing the same file into several; restarts and deltas take part; files offered as hard links of the pool's own.", "480 / 19200 histories"),
"C02": ("Digest of every file in repository and pool trees against the bytes given to the import; size, SHA-1 and location in the parsed index.",
        "Removing and re-adding the same package, a rebuilt package under the same file name, debug packages stored next to others, hard links or copies; other contents already lying where the import puts the file.", "480 / 19200"),
"C03": ("The model's tip is the maximum release among the available builds; compared with the stored entry and with the index.",
        "Releases 1, 2, 3, 8, 9, 10, 11, 19, 20, 99, 100, 101, 70001 (they sort differently as text), versions that go up and down with them, every order of adding and removing. Ties of one release under two versions are excluded from the tip comparison (the code keeps either).", "480 / 19200"),
"C04": ("The parsed index is rebuilt from contents, published builds, obsoletes, distribution, components, groups and deltas, and compared node by node.",
        "Assets written, replaced and removed between operations, in several languages; obsoletes that are names, debug names, nearly names; names with `-dbginfo` in the middle, names that end like releases.", "480 / 19200"),
"C05": ("`eopkg-index.xml.xz` and `.zst` are decompressed and compared with the plain index, checksum files recomputed, no `.new` file left.",
        "Stale, longer, shorter and missing files of earlier indexings are planted before an indexing. A part runs with the real xz and zstd.", "320 / 17000"),
"C06": ("A second repository is given the same contents along another generated history (order and grouping of imports, order of deltas, added or shared from a third repository) and both indexes are compared byte for byte; indexing twice is compared too.",
        "Metamorphic: no model of the index is involved.", "480 / 19200"),
"C07": ("(a) Text cut into writes at random places, also inside characters, through the escaping writer: the pieces give what the whole gives, and a reader finds the text. (b) Repositories whose packages and assets have awkward text everywhere: an independent reader finds it in the index, field by field.",
        "Markup, `]]>`, symbols above U+2000, no-break spaces, astral characters, paragraphs crossing the writers' buffers, several languages.", "16000 + 3600 / 1.1 M"),
"C08": ("The target's published index is looked at before every file-system step of every operation: old or new. Then indexings are cut short at and inside steps and made to fail at steps, and run with spoilt assets; after each the companions are as before (or the new ones), and the next indexing gives the undisturbed index.",
        "Every n-th step quick, every step thorough. Also refuses opening the published file for writing, whatever is in it at the end.", "160 / 2900 histories, about 25 cuts and failures each"),
"C09": ("Model of clone: full and tip; source untouched, assets equal, index fresh; existing target refused without effect.", "Boosted clones, deltas, ladders of releases; clone names like other names.", "480 / 19200"),
"C10": ("Model of pull: for each name published by the source and missing or lower in the target, the published build is brought in; result list compared exactly; inconsistent pull refused without changing a package; assets taken over.", "Pulls between repositories grown from a common clone and apart; into itself; in chains.", "480 / 19200"),
"C11": ("Model: all builds of that source at that release (all for release <= 0) go, with deltas from or to them.", "Sources whose names share prefixes or differ in case, source named like a package of another one, releases that exist and that do not.", "480 / 19200"),
"C12": ("Model as C11 for copying; origin unchanged, second copy without effect, index fresh or unchanged as asked.", "As C11.", "480 / 19200"),
"C13": ("Model: the N highest releases stay.", "N in -1..5, ladders of releases, deltas between kept and removed builds, rebuilt packages.", "480 / 19200"),
"C14": ("Model: names obsolete by the description, and their debug packages, go.", "Obsolete names that are prefixes, suffixes, upper-case or blank-padded variants of held ones; debug packages without their package.", "480 / 19200"),
"C15": ("Model of create and delete; trees of the name gone, name usable afresh, refused without effect if taken, malformed (`a/b`, `..`, empty) or missing.", "Boosted create, delete, clone.", "480 / 19200"),
"C16": ("Snapshot of listings, trees and assets of every other repository before and after each operation.", "Repository names that are prefixes of each other, differ in case, contain spaces, dashes, non-ASCII letters, or are called `repo` or `pool`.", "480 / 19200"),
"C17": ("Model of import: exactly the given packages; again changes nothing.", "Batches in any order, with repeats, broken ones among them, strict ones (release checks), a rebuilt package under a known name.", "480 / 19200"),
"C18": ("Model of uploads: 31 kinds of defects of manifest and payload must be refused with state and incoming directory unchanged, also if the bad file is listed properly as well; a good one adds exactly its packages and is removed; a release that is not newer is refused.", "Through the job handler; paths with `./`, sub-directories, blanks; digests off by one digit, cut, of another file, of another algorithm; files changed by one bit, grown, replaced by a directory; files named that are another repository's, the pool's or another upload's.", "960 / 48000"),
"C19": ("The delta is unpacked: all entries but the payload equal the newer package's; the payload holds exactly directories and changed files with content, type, mode, owner, times; applying it to the older payload gives the newer one. Delta jobs over a repository: exactly the possible deltas to the newest build, also after an attempt that was cut short.", "Payloads that share, move, copy, change (also keeping the size), drop and re-type files; hard links, symlinks, directories only in the archive; long and non-ASCII paths; GNU and PAX. Pairs in the wrong order, of other names, architectures, distributions.", "3200 + 120 + 1200 / 270 000"),
"C20": ("Model of deltas in entries and pool; index offers those to the published build; failed marks remembered over restarts. Delta jobs that make, reuse and refuse deltas leave an index that mentions what they added.", "Adding, sharing, dropping by removal, trimming, copying; adding further releases under deltas; marks with and without details.", "480 / 19200"),
"C21": ("Two-list model; after each step the queue as listed equals the model's; order, parameters and times of claimed jobs.", "Bursts of 300, unfinished jobs over restarts.", "1200 / 57600"),
"C22": ("(a) Real workers under virtual time, jobs that fail for their own reason; (b) results of arbitrary text given directly. Logs per kind cut to 100.", "Resets before and after the ring is full, restarts in the middle of a run.", "480 + 480 / 67000"),
"C23": ("Real goroutines; the intervals of all calls are checked: each accepted job handed out once, in an order that some interleaving permits, every list contains what was queued and unfinished throughout, and nothing else.", "2-6 producers, workers, readers, resets; bursts.", "960 / 48000"),
"C24": ("Differential: a batch of jobs run by the workers under virtual time against a twin directory that gets the same operations as direct calls; listings, files, indexes, results and error texts are compared.", "All kinds, also with too few, unusable or unknown parameters; releases beyond 16 bits.", "640 / 24000"),
"C25": ("Nested-map model; every get, has, list compared, also after closing and reopening.", "Bucket names that are prefixes of each other, empty keys, keys like bucket markers, binary keys.", "2000 / 96000"),
"C26": ("Groups over nested buckets; a crash image at chosen bytes of the log for each group: wholly there or wholly not, acknowledged ones there; nothing visible outside before; a group whose function fails leaves nothing.", "Groups of up to hundreds of changes, failures at each position.", "1200 / 72000 histories, several images each"),
"C27": ("State, pool, trees, assets before and after a restart; and all later operations against the model. Some restarts are onto a copy of the directory without hard links (a restored backup), some with assets laid out for a repository yet to be created.", "Restarts anywhere in the histories.", "480 / 19200"),
"C28": ("Crash images at steps (database, files, assets, index; half-written files, torn database writes); the restarted manager: other repositories untouched, the target between before and after, nothing listed missing but what was being removed, counts right; then the repeated operation gives the undisturbed result.", "Hard links everywhere, not from the place of the upload, nowhere.", "240 / 9600 histories, one to three images per class and operation"),
"C29": ("One call fails: error or full effect; a call may also be a read of the database, for which half of the operations start with a freshly opened database whose blocks are not cached; the rest as C28, with a restart if the database was hit, then the operation repeated.", "The kind of call is drawn first, then the call.", "480 / 9600 histories, 3 to 8 failures per operation"),
"C30": ("Mutated metadata (as a tree and as text), damaged archives, odd entries, non-packages; mutated file lists and payloads for deltas; mutated assets and manifests. No panic, no file outside, refused: nothing changed; accepted: indexable, sharable, removable, and valid by the stated rules.", "Through plain, strict and batch import, as deltas, through delta jobs and the transit handler.", "about 3400 / 220 000"),
"C32": ("Requests through `libferry.Client` to a running `ferryd`; the queue of the killed daemon is read and compared with what was acknowledged. Errors: the client against recorded answers of every form; raw requests.", "Names with every character special in URLs or JSON, slashes and dots, numbers up to 64 bits, lists of thousands of paths; concurrent requests; a queue that cannot be written.", "1040 + 120 + 30 / 41000"),
"C33": ("A directory with generated repositories, results and queue is given to a running `ferryd`; answers and what `ferryctl` prints are compared. Listings are taken between the steps of running operations and must name what was there before and is there after.", "Queues of 300 with jobs of all kinds and unusable ones.", "320 + 200 / 38000"),
"C34": ("(a) Scripts of 2-4 processes over one lock file, scheduled at the granularity of calls into the operating system, dying anywhere; real PIDs and kernel locks. (b) Fleets of real daemons started, stopped, killed at random.", "Whatever an earlier owner left in the file; PIDs recycled by unrelated processes; sockets left behind; daemons busy with a job while ending.", "2400 + 160 / 158000"),
"C35": ("The built `ferryctl` against a recording socket.", "All commands with right and wrong arguments; import from generated trees with unusual names, spellings of paths, up to hundreds of entries.", "480 + 1200 / 96000"),
"C36": ("Packages of random metadata and several ways of writing the same XML; every field read is compared, and derived relations recomputed.", "Up to 4 languages, all optional elements, awkward Unicode, odd source names.", "2400 / 120000"),
"C37": ("Changes of the incoming directory of a running `ferryd`; the queue of the killed daemon against the arrivals in order. A stalled watcher whose kernel queue overflows goes on afterwards.", "Writes in pieces, moves, links, renames, sub-directories, pipes, bursts, unusual names.", "1040 + 2 / 38000"),
"C38": ("After each step images of the database, whole and cut at a byte; what a restart makes of them is held against the states before and after. Some histories go on from an image.", "Finishing jobs, resets, wrapped results.", "480 / 28800 histories"),
"C39": ("The built `ferryctl` against a recording socket that answers with generated reports; the tables it prints are parsed back, lines that were broken joined, and compared job by job. Answers that are errors, cut off, of the wrong form or missing have to be reported.", "Lists of up to 25 jobs in any order, some a nanosecond apart; descriptions and errors with verbs, wide letters and line breaks; durations from nanoseconds to months.", "1600 / 72000"),
"C40": ("The machine of C01 with a stand-in under the HTTP library that records each request, the published index files at that moment, and answers as generated; `/etc` is mapped into the scratch space. An operation whose request is refused has to report it and is otherwise judged as if it had succeeded.", "Token, zone and list each missing at times, lists for others, a list that is a directory; eight failures; indexing that fails on spoilt assets.", "640 / 24000"),
"C41": ("Real daemons under `sh -c 'umask ...'` or with descriptor 3 and `LISTEN_FDS`/`LISTEN_PID`; inode, mode and owner of the sockets before, during and after; a request is made and its job looked up.", "Umasks from 000 to 777, left-over sockets, up to three daemons in turn over one given socket, early requests, kills; none, two, three, TCP, a file, another process's number.", "480 / 14400"),
"C42": ("Twelve base directories at once per case, as the daemon waits two seconds before each job. History against the accepted jobs (counted exactly where no daemon was killed), order of beginning against order of queueing, the repositories of the last state against the model.", "Signals in the middle of a job, requests during the shutdown, kills, one or two sessions before the last.", "96 / 6900 daemons' lives, two or three daemons each"),
"C43": ("After every step of a history, after every injected failure, after every malformed package, asset file or delta: descriptors and mappings of the process below the case's directory, of which there may be none. Connections left by a closed client.", "Refused uploads, empty files, pointless and unrelated deltas, packages of which one is malformed, each failing call.", "4900 / 35000"),
"C44": ("The layout of the database, the encoded records, the kinds and parameters of jobs and the HTTP requests and answers of the pinned commit are written down in the harness (vh/stored.go, vh/wire.go), independently of the code. Histories of operations are run; now and then the database is replaced by one that says the same in the written-down form, and the history goes on against the model. Jobs are queued in the stored form with the parameters as they were and must do what the call does. The daemon is spoken to by the written-down client, and the client of now speaks to a written-down daemon.", "Databases of every state reached, queues with claimed and unclaimed jobs of every kind, histories of results at every position of the ring, every request with arguments of any content.", "450 / 5300"),
"C45": ("Histories of operations under a generated umask, with packages offered in files of generated modes, also with single failing calls and with hard links that cannot be made. After every operation the mode of every file and directory below the base directory is looked at: what is published must be readable by everyone (a package only if its source was), and nothing writable beyond umask and source.", "Modes of sources, umasks 022, 002 and 000, daemon-made deltas, copies instead of links, uploads, the real compressors and their stand-ins.", "1290 / 9000"),
"C46": ("The histories of the core and of uploads; after every operation each file and directory below the base directory must be accounted for by what the database records (entries, pool, repositories), by the administrator's assets or by a delta that is being made, and the directory for temporary files must be empty. Productions of deltas and delta jobs must leave their work areas as they were.", "Packages shared by repositories, sources of odd names, removals by trim, source, repository and obsoletion, refused operations, assets that cannot be indexed, pointless and mismatched deltas, restarts.", "4400 / 26000"),
"C47": ("Jobs of every kind are queued at generated moments of virtual time (testing/synctest) to the real store, processor and workers; a handler before each file-system step of the rewritten code lets the step take up to four seconds. At every quiet moment at most one job may be at work and none lost; at the end the recorded times must be disjoint, in the order of queueing and without idle gaps of more than three seconds, and every step seen must lie within one of them. A write to the job queue while a step is under way (other than queueing) shows a second worker before it can block.", "Gaps of 1 ms to 6 s, steps of 0 to 4 s, 2 to 4 background workers, malformed and failing jobs, the processor ended and begun anew while jobs run and wait.", "1200 / 16000"),
"C48": ("Eight base directories at once per case, each with a daemon that is busy with an index whose assets are a pipe nobody writes to, or not busy. Ten kinds of clients that misbehave, at generated points of the request, between requests of libferry's client, each of which must be answered; then the job in hand is let go and the accounting of C42 applies (each accepted job once, nothing of half a request).", "Up to six rude clients (a crowd is 40 to 199 connections), up to seven polite requests, slow requests in 3 to 22 pieces over 0.2 to 2.2 s.", "128 / 12300 daemons' lives"),
}
import json
out=["\n"]
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); a,b,c=D[p['id']]
    out.append(f"**{p['id']} {p['title']}.** {a} *Generated:* {b} *Cases:* {c}.\n")
print("\n".join(out))

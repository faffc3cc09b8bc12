From 246a2f094180230a09d12d939e99e6a29df71922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 01/35] fix: keep database buckets apart whose names share a
 prefix

---
 src/libdb/leveldb.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libdb/leveldb.go b/src/libdb/leveldb.go
index 4dee577..ef9d33a 100644
--- a/src/libdb/leveldb.go
+++ b/src/libdb/leveldb.go
@@ -56,7 +56,7 @@ func newLevelDBHandle(storagePath string) (*levelDb, error) {
 	handle.db = ldb
 	handle.prefix = []byte("|rootBucket|")
 	handle.keyPrefix = []byte("|rootBucket|-")
-	handle.prefixBytes = util.BytesPrefix(handle.prefix)
+	handle.prefixBytes = util.BytesPrefix(handle.keyPrefix)
 	handle.seqLock = &sync.Mutex{}
 	handle.initClosable()
 	return handle, nil
@@ -153,11 +153,14 @@ func (l *levelDbHandle) Bucket(id []byte) Database {
 	} else {
 		newID = []byte(fmt.Sprintf("%s-%s", string(bucketPrefix), id))
 	}
+	// The range must end in the separator, otherwise we'd also be iterating
+	// every bucket whose name merely starts with our own.
+	keyPrefix := []byte(fmt.Sprintf("%s-", string(newID)))
 	ret := &levelDbHandle{
 		db:          l.db,
 		prefix:      newID,
-		keyPrefix:   []byte(fmt.Sprintf("%s-", string(newID))),
-		prefixBytes: util.BytesPrefix(newID),
+		keyPrefix:   keyPrefix,
+		prefixBytes: util.BytesPrefix(keyPrefix),
 		batch:       l.batch,
 		seqLock:     l.seqLock,
 	}
-- 
2.43.0


From adc599ef72efbbe9a9868df98f71612f36764002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 02/35] fix: trim obsolete removes every obsolete package

---
 src/ferryd/core/repo.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index c0344f5..76c07b5 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -1177,18 +1177,21 @@ func (r *Repository) TrimObsolete(db libdb.Database, pool *Pool) error {
 				nom = nom[0 : len(nom)-8]
 			}
 
-			// Check if its obsolete, if its automatically obsolete through our
-			// dbginfo trick, warn in the console
-			if r.dist != nil && r.dist.IsObsolete(nom) {
-				if nom != entry.Name {
-					// Scream really loudly, but remove it because its "just" dbginfo.
-					log.WithFields(log.Fields{
-						"repo": r.ID,
-						"name": poolEntry.Meta.Name,
-					}).Error("Abandoned obsolete package. Removing!")
-					removalIDs = append(removalIDs, id)
-				}
-				return nil
+			// Everything explicitly marked obsolete goes
+			if r.dist.IsObsolete(poolEntry.Meta.Name) {
+				removalIDs = append(removalIDs, id)
+				continue
+			}
+
+			// As does everything automatically obsolete through our dbginfo
+			// trick, but warn in the console
+			if r.dist.IsObsolete(nom) {
+				// Scream really loudly, but remove it because its "just" dbginfo.
+				log.WithFields(log.Fields{
+					"repo": r.ID,
+					"name": poolEntry.Meta.Name,
+				}).Error("Abandoned obsolete package. Removing!")
+				removalIDs = append(removalIDs, id)
 			}
 		}
 
-- 
2.43.0


From 2c6f4006ec0d4048c87b1f57d16006ed4d473d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 03/35] fix: copy source updates the target index unless told
 to skip it

---
 src/ferryd/core/api.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ferryd/core/api.go b/src/ferryd/core/api.go
index 71e97de..f66d02d 100644
--- a/src/ferryd/core/api.go
+++ b/src/ferryd/core/api.go
@@ -123,10 +123,10 @@ func (m *Manager) CopySource(repoID, target, sourceID string, release int, skipI
 	}
 
 	if skipIndex {
-		return m.Index(target)
-	} else {
 		return nil
 	}
+
+	return m.Index(target)
 }
 
 // TrimObsolete will ask the repo to remove obsolete packages
-- 
2.43.0


From 305f664314cacdf1ed7d7e71f98c284ad4f95a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 04/35] fix: keep the language of a distribution description in
 the index

---
 src/libeopkg/distribution.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/libeopkg/distribution.go b/src/libeopkg/distribution.go
index 6105bff..b15597b 100644
--- a/src/libeopkg/distribution.go
+++ b/src/libeopkg/distribution.go
@@ -26,10 +26,7 @@ type Distribution struct {
 	SourceName string // Name of source to match source repos
 
 	// Translated description
-	Description []struct {
-		Value string `xml:",cdata"`
-		Lang  string `xml:"lang,attr,omitempty"`
-	}
+	Description []LocalisedField
 
 	Version    string // Published version number for compatibility
 	Type       string // Type of repository (should always be main, really. Just descriptive)
-- 
2.43.0


From 73c7bc2da62191eb6378a847c104438a771aa490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 05/35] fix: refuse packages and assets with incomplete
 metadata instead of crashing

---
 src/libeopkg/main.go    | 2 +-
 src/libeopkg/package.go | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/libeopkg/main.go b/src/libeopkg/main.go
index 4cf8ee0..27ce317 100644
--- a/src/libeopkg/main.go
+++ b/src/libeopkg/main.go
@@ -47,7 +47,7 @@ type LocalisedField struct {
 // FixMissingLocalLanguage should be used on a set of LocalisedField to restore
 // the missing "en" that is required in the very first field set.
 func FixMissingLocalLanguage(fields *[]LocalisedField) {
-	if fields == nil {
+	if fields == nil || len(*fields) == 0 {
 		return
 	}
 	field := &(*fields)[0]
diff --git a/src/libeopkg/package.go b/src/libeopkg/package.go
index e6aa1ab..706ff35 100644
--- a/src/libeopkg/package.go
+++ b/src/libeopkg/package.go
@@ -110,6 +110,10 @@ func (p *Package) ReadMetadata() error {
 	if err = dec.Decode(metadata); err != nil {
 		return err
 	}
+	// Everything else relies on a history and a usable source name
+	if len(metadata.Package.History) == 0 || !validSourceName(metadata.Package.Source.Name) {
+		return ErrEopkgCorrupted
+	}
 	p.Meta = metadata
 	// Clean up extra junk
 	for i := range p.Meta.Package.Summary {
@@ -125,6 +129,11 @@ func (p *Package) ReadMetadata() error {
 	return nil
 }
 
+// validSourceName ensures that a source name can serve as a directory name
+func validSourceName(name string) bool {
+	return name != "" && !strings.HasPrefix(name, ".") && !strings.ContainsAny(name, "/\x00")
+}
+
 // ReadFiles will read the `files.xml` file within the archive and
 // deserialize it into something accessible within the .eopkg container.
 func (p *Package) ReadFiles() error {
-- 
2.43.0


From 827b56516b1be3df5347c2675d7f400cede154b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 06/35] fix: escape characters that are split over two writes
 of the index

---
 src/ferryd/core/escape.go     | 37 ++++++++++++++++++++++++++++++++++-
 src/ferryd/core/repo_index.go |  9 +++++++--
 2 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/ferryd/core/escape.go b/src/ferryd/core/escape.go
index c16991f..7d301d5 100644
--- a/src/ferryd/core/escape.go
+++ b/src/ferryd/core/escape.go
@@ -8,8 +8,12 @@ import (
 )
 
 // EscapedWriter is a writer that escapes non-ASCII sequences written to it using HTML encoding.
+//
+// A UTF-8 sequence may be spread over several calls to Write: an incomplete sequence
+// at the end of a call is held back until the next one. Flush emits what is left.
 type EscapedWriter struct {
-	w io.Writer
+	w       io.Writer
+	pending []byte
 }
 
 // NewEscapedWriter returns an initialised EscapedWriter.
@@ -20,9 +24,20 @@ func NewEscapedWriter(w io.Writer) *EscapedWriter {
 // Write implements [io.Writer].
 func (e *EscapedWriter) Write(b []byte) (n int, err error) {
 	n = len(b)
+
+	if len(e.pending) > 0 {
+		b = append(e.pending, b...)
+		e.pending = nil
+	}
+
 	escaped := make([]byte, 0, len(b))
 
 	for len(b) > 0 {
+		if !utf8.FullRune(b) {
+			e.pending = append([]byte(nil), b...)
+			break
+		}
+
 		r, size := utf8.DecodeRune(b)
 		escaped = e.appendRune(escaped, r)
 		b = b[size:]
@@ -35,6 +50,26 @@ func (e *EscapedWriter) Write(b []byte) (n int, err error) {
 	return n, nil
 }
 
+// Flush writes out an incomplete sequence that was held back by Write.
+func (e *EscapedWriter) Flush() error {
+	if len(e.pending) == 0 {
+		return nil
+	}
+
+	var escaped []byte
+	for range e.pending {
+		escaped = utf8.AppendRune(escaped, unicode.ReplacementChar)
+	}
+
+	e.pending = nil
+
+	if _, err := e.w.Write(escaped); err != nil {
+		return fmt.Errorf("failed to write escaped bytes: %w", err)
+	}
+
+	return nil
+}
+
 func (e *EscapedWriter) appendRune(b []byte, r rune) []byte {
 	switch {
 	case r == utf8.RuneError:
diff --git a/src/ferryd/core/repo_index.go b/src/ferryd/core/repo_index.go
index 6a8f0ba..e25eb07 100644
--- a/src/ferryd/core/repo_index.go
+++ b/src/ferryd/core/repo_index.go
@@ -240,7 +240,8 @@ func (r *Repository) emitIndex(db libdb.Database, pool *Pool, file *os.File) err
 	// Ensure we'll emit in a sane order
 	sort.Strings(pkgIds)
 
-	encoder := xml.NewEncoder(NewEscapedWriter(file))
+	writer := NewEscapedWriter(file)
+	encoder := xml.NewEncoder(writer)
 	encoder.Indent("    ", "    ")
 
 	// Ensure we have the start element
@@ -278,7 +279,11 @@ func (r *Repository) emitIndex(db libdb.Database, pool *Pool, file *os.File) err
 		return err
 	}
 
-	return encoder.Flush()
+	if err := encoder.Flush(); err != nil {
+		return err
+	}
+
+	return writer.Flush()
 }
 
 // Index will attempt to write the eopkg index out to disk
-- 
2.43.0


From bdeb715584a310a4894df633ff342f703b1cb029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 07/35] fix: never truncate a file by copying it onto itself,
 report missing sources

---
 src/ferryd/core/util.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index b70fa06..774971e 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -38,6 +38,10 @@ func CopyFile(source, dest string) error {
 	// Stat the source first
 	st, err = os.Stat(source)
 	if err != nil {
+		return err
+	}
+	// Already in place: opening the target would truncate the source
+	if dstSt, err := os.Stat(dest); err == nil && os.SameFile(st, dstSt) {
 		return nil
 	}
 	if src, err = os.Open(source); err != nil {
@@ -52,7 +56,9 @@ func CopyFile(source, dest string) error {
 		dst.Close()
 		return err
 	}
-	dst.Close()
+	if err = dst.Close(); err != nil {
+		return err
+	}
 	// If it fails, meh.
 	os.Chtimes(dest, st.ModTime(), st.ModTime())
 	os.Chown(dest, os.Getuid(), os.Getgid())
-- 
2.43.0


From 42c7c76a46338d6ed47757070958a324673a7451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 08/35] fix: store pool references and repository entries in
 one transaction

---
 src/ferryd/core/repo.go | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 76c07b5..3a3ddc2 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -335,6 +335,14 @@ func (r *Repository) RefDelta(db libdb.Database, pool *Pool, deltaID string) err
 	r.insertMut.Lock()
 	defer r.insertMut.Unlock()
 
+	// The references and the entry that holds them must be stored together
+	return db.Update(func(db libdb.Database) error {
+		return r.refDeltaInternal(db, pool, deltaID)
+	})
+}
+
+// refDeltaInternal does the real work of RefDelta
+func (r *Repository) refDeltaInternal(db libdb.Database, pool *Pool, deltaID string) error {
 	// Ensure we REALLY have the delta.
 	poolEntry, err := pool.GetEntry(db, deltaID)
 	if err != nil {
@@ -407,6 +415,14 @@ func (r *Repository) AddLocalDelta(db libdb.Database, pool *Pool, pkg *libeopkg.
 	r.insertMut.Lock()
 	defer r.insertMut.Unlock()
 
+	// The references and the entry that holds them must be stored together
+	return db.Update(func(db libdb.Database) error {
+		return r.addLocalDeltaInternal(db, pool, pkg, mapping)
+	})
+}
+
+// addLocalDeltaInternal does the real work of AddLocalDelta
+func (r *Repository) addLocalDeltaInternal(db libdb.Database, pool *Pool, pkg *libeopkg.Package, mapping *DeltaInformation) error {
 	// Find our local package entry for the delta package first
 	entry, err := r.GetEntry(db, pkg.Meta.Package.Name)
 	if err != nil {
@@ -497,6 +513,14 @@ func (r *Repository) removeDeltaInternal(db libdb.Database, pool *Pool, id strin
 // Additionally, we'll locate stray deltas which lead either TO or FROM the given
 // package as they'll now be useless to anyone.
 func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) error {
+	// The references and the entry that holds them must be stored together
+	return db.Update(func(db libdb.Database) error {
+		return r.unrefPackageInternal(db, pool, pkgID)
+	})
+}
+
+// unrefPackageInternal does the real work of UnrefPackage
+func (r *Repository) unrefPackageInternal(db libdb.Database, pool *Pool, pkgID string) error {
 	newHighest := 0
 	var newHighestID string
 
@@ -581,6 +605,14 @@ func (r *Repository) RefPackage(db libdb.Database, pool *Pool, pkgID string) err
 	r.insertMut.Lock()
 	defer r.insertMut.Unlock()
 
+	// The references and the entry that holds them must be stored together
+	return db.Update(func(db libdb.Database) error {
+		return r.refPackageInternal(db, pool, pkgID)
+	})
+}
+
+// refPackageInternal does the real work of RefPackage
+func (r *Repository) refPackageInternal(db libdb.Database, pool *Pool, pkgID string) error {
 	// Require a pool entry to clone from
 	poolEntry, err := pool.GetEntry(db, pkgID)
 	if err != nil {
@@ -672,6 +704,14 @@ func (r *Repository) AddLocalPackage(db libdb.Database, pool *Pool, pkg *libeopk
 	r.insertMut.Lock()
 	defer r.insertMut.Unlock()
 
+	// The references and the entry that holds them must be stored together
+	return db.Update(func(db libdb.Database) error {
+		return r.addLocalPackageInternal(db, pool, pkg)
+	})
+}
+
+// addLocalPackageInternal does the real work of AddLocalPackage
+func (r *Repository) addLocalPackageInternal(db libdb.Database, pool *Pool, pkg *libeopkg.Package) error {
 	pkgDir := filepath.Join(r.path, pkg.Meta.Package.GetPathComponent())
 	pkgTarget := filepath.Join(pkgDir, pkg.ID)
 
-- 
2.43.0


From c8619dda28224fbe2781ccc4b6ccf734f47b2cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 09/35] fix: let an interrupted repository deletion be repeated

---
 src/ferryd/core/repo.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 3a3ddc2..9f5194c 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -281,6 +281,10 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 		if err != nil {
 			return err
 		}
+		// Clean up while we're still known, so that an interrupted deletion can
+		// simply be repeated and never blocks the name with artifacts on disk
+		removeRepoPaths(repo)
+
 		// Now remove the repository object itself
 		return repoBucket.DeleteObject([]byte(repo.ID))
 	})
@@ -289,6 +293,11 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 		return err
 	}
 
+	return nil
+}
+
+// removeRepoPaths will clean up everything that a repository has on disk
+func removeRepoPaths(repo *Repository) {
 	deletionPaths := []string{
 		repo.path,
 		repo.assetPath,
@@ -304,14 +313,12 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 		// Just continue, warn in the log - do what we can here
 		if err := os.RemoveAll(p); err != nil {
 			log.WithFields(log.Fields{
-				"repo":  id,
+				"repo":  repo.ID,
 				"path":  p,
 				"error": err,
 			}).Warning("Failed to remove repository path")
 		}
 	}
-
-	return nil
 }
 
 // GetEntry will return the package entry for the given ID
-- 
2.43.0


From 1efdcb18f89c1e47f2a94ed6885dd36c50037ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 10/35] fix: index a repository again after an interrupted
 attempt

---
 src/ferryd/core/repo_index.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ferryd/core/repo_index.go b/src/ferryd/core/repo_index.go
index e25eb07..5e4923d 100644
--- a/src/ferryd/core/repo_index.go
+++ b/src/ferryd/core/repo_index.go
@@ -286,6 +286,14 @@ func (r *Repository) emitIndex(db libdb.Database, pool *Pool, file *os.File) err
 	return writer.Flush()
 }
 
+// removeStale will remove a file if it is there
+func removeStale(path string) error {
+	if err := os.Remove(path); err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	return nil
+}
+
 // Index will attempt to write the eopkg index out to disk
 // This only requires a read-only database view
 func (r *Repository) Index(db libdb.Database, pool *Pool) error {
@@ -353,6 +361,11 @@ func (r *Repository) Index(db libdb.Database, pool *Pool) error {
 	indexPathXzFinal := filepath.Join(r.path, "eopkg-index.xml.xz")
 	mapping[indexPathXz] = indexPathXzFinal
 
+	// An interrupted run may have left this behind and xz won't overwrite it
+	if errAbort = removeStale(indexPathXz); errAbort != nil {
+		return errAbort
+	}
+
 	if errAbort = libeopkg.XzFile(indexPath, true); errAbort != nil {
 		return errAbort
 	}
@@ -382,6 +395,11 @@ func (r *Repository) Index(db libdb.Database, pool *Pool) error {
 	indexPathZstFinal := filepath.Join(r.path, "eopkg-index.xml.zst")
 	mapping[indexPathZst] = indexPathZstFinal
 
+	// Neither will zstd
+	if errAbort = removeStale(indexPathZst); errAbort != nil {
+		return errAbort
+	}
+
 	if errAbort = libeopkg.ZstdFile(indexPath, true); errAbort != nil {
 		return errAbort
 	}
-- 
2.43.0


From 8c9ab88124a82efbda99eaffcd2c48b55c1d821c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 11/35] fix: replace the PID in a stale lockfile instead of
 overwriting parts of it

---
 src/ferryd/lockfile.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/lockfile.go b/src/ferryd/lockfile.go
index ec7746a..8ea1309 100644
--- a/src/ferryd/lockfile.go
+++ b/src/ferryd/lockfile.go
@@ -177,7 +177,11 @@ func (l *LockFile) writePID() error {
 	}
 	l.conlock.Lock()
 	defer l.conlock.Unlock()
-	if _, err := fmt.Fprintf(l.fd, "%d", l.ourPID); err != nil {
+	// Don't leave digits of a longer PID behind
+	if err := l.fd.Truncate(0); err != nil {
+		return err
+	}
+	if _, err := l.fd.WriteAt([]byte(fmt.Sprintf("%d", l.ourPID)), 0); err != nil {
 		return err
 	}
 	return l.fd.Sync()
-- 
2.43.0


From 546d4711c5253af1298a0db70e9ce79e63030bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 12/35] fix: never let two processes own the lockfile while one
 of them cleans it up

---
 src/ferryd/lockfile.go | 31 +++++++++++++++++++++++++++----
 src/ferryd/server.go   |  1 -
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/ferryd/lockfile.go b/src/ferryd/lockfile.go
index 8ea1309..eb9a808 100644
--- a/src/ferryd/lockfile.go
+++ b/src/ferryd/lockfile.go
@@ -121,6 +121,14 @@ func (l *LockFile) Lock() error {
 		return err
 	}
 
+	// The previous owner might have removed the file since we opened it, in
+	// which case the next process would happily lock a new one
+	if !l.inPlace() {
+		syscall.Flock(int(l.fd.Fd()), syscall.LOCK_UN)
+		l.conlock.Unlock()
+		return ErrDeadLockFile
+	}
+
 	l.owner = true
 
 	l.conlock.Unlock()
@@ -139,12 +147,27 @@ func (l *LockFile) Unlock() error {
 		return errors.New("cannot unlock that which we don't own")
 	}
 
+	// Nobody should believe that we're still the owner
+	if err := l.fd.Truncate(0); err != nil {
+		return err
+	}
 	if err := syscall.Flock(int(l.fd.Fd()), syscall.LOCK_UN); err != nil {
 		return err
 	}
+	l.owner = false
 	return nil
 }
 
+// inPlace determines whether the file we have open is still the one at our path
+func (l *LockFile) inPlace() bool {
+	ours, err := l.fd.Stat()
+	if err != nil {
+		return false
+	}
+	theirs, err := os.Stat(l.path)
+	return err == nil && os.SameFile(ours, theirs)
+}
+
 // readPID is a simple utility to extract the PID from a file
 func (l *LockFile) readPID() (int, error) {
 	l.conlock.RLock()
@@ -195,9 +218,9 @@ func (l *LockFile) Clean() error {
 		return nil
 	}
 
+	// Remove it while we still hold the lock, afterwards it may be someone else's
+	err := os.Remove(l.path)
+	l.owner = false
 	l.fd.Close()
-	if l.owner {
-		return os.Remove(l.path)
-	}
-	return nil
+	return err
 }
diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index 1fecf22..059b00d 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -232,7 +232,6 @@ func (s *Server) Close() {
 		return
 	}
 	if s.lockFile != nil {
-		s.lockFile.Unlock()
 		s.lockFile.Clean()
 		s.lockFile = nil
 	}
-- 
2.43.0


From 1a516d673ebf91313ea1adcea127091d674925ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 13/35] fix: keep the status available while a queued job has
 no handler

---
 src/ferryd/jobs/store.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index 292070b..f93e4d5 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -358,15 +358,14 @@ func (s *JobStore) cloneCurrentJobs(ret *[]*libferry.Job, bucketID []byte) error
 			}
 
 			// Now stuff the job into the ret
-			hnd, err := NewJobHandler(j)
-			if err != nil {
-				return err
-			}
-
 			r := &libferry.Job{
-				Description: hnd.Describe(),
+				Description: string(j.Type),
 				Timing:      j.Timing,
 			}
+			// A job that cannot be run is still queued, and mustn't hide the others
+			if hnd, err := NewJobHandler(j); err == nil {
+				r.Description = hnd.Describe()
+			}
 			*ret = append(*ret, r)
 
 			return nil
-- 
2.43.0


From 4eab0469ae6649d78865d33c0a7da1cc0cd4e128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 14/35] fix: escape repository names in request paths

---
 src/libferry/main.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/libferry/main.go b/src/libferry/main.go
index b06a13d..bb199b0 100644
--- a/src/libferry/main.go
+++ b/src/libferry/main.go
@@ -24,6 +24,7 @@ import (
 	"fmt"
 	"net"
 	"net/http"
+	"net/url"
 	"time"
 )
 
@@ -143,25 +144,25 @@ func (c *Client) postBasicResponse(url string, inT interface{}, outT interface{}
 
 // CreateRepo will attempt to create a repository in the daemon
 func (c *Client) CreateRepo(id string) error {
-	uri := c.formURI("/api/v1/create/repo/" + id)
+	uri := c.formURI("/api/v1/create/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // DeleteRepo will attempt to delete a remote repository
 func (c *Client) DeleteRepo(id string) error {
-	uri := c.formURI("/api/v1/remove/repo/" + id)
+	uri := c.formURI("/api/v1/remove/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // DeltaRepo will attempt to reproduce deltas in the given repo
 func (c *Client) DeltaRepo(id string) error {
-	uri := c.formURI("/api/v1/delta/repo/" + id)
+	uri := c.formURI("/api/v1/delta/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // IndexRepo will attempt to index a repository in the daemon
 func (c *Client) IndexRepo(id string) error {
-	uri := c.formURI("/api/v1/index/repo/" + id)
+	uri := c.formURI("/api/v1/index/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
@@ -171,7 +172,7 @@ func (c *Client) ImportPackages(repoID string, pkgs []string) error {
 	iq := ImportRequest{
 		Path: pkgs,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/import/"+repoID), &iq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/import/"+url.PathEscape(repoID)), &iq, &Response{})
 }
 
 // CloneRepo will ask the backend to clone an existing repository into a new repository
@@ -180,7 +181,7 @@ func (c *Client) CloneRepo(repoID, newClone string, copyAll bool) error {
 		CloneName: newClone,
 		CopyAll:   copyAll,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/clone/"+repoID), &cq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/clone/"+url.PathEscape(repoID)), &cq, &Response{})
 }
 
 // PullRepo will ask the backend to pull from target into repoID
@@ -188,7 +189,7 @@ func (c *Client) PullRepo(sourceID, targetID string) error {
 	pq := PullRepoRequest{
 		Source: sourceID,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/pull/"+targetID), &pq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/pull/"+url.PathEscape(targetID)), &pq, &Response{})
 }
 
 // RemoveSource will ask the backend to remove packages by source name
@@ -197,7 +198,7 @@ func (c *Client) RemoveSource(repoID, sourceID string, relno int) error {
 		Source:  sourceID,
 		Release: relno,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/remove/source/"+repoID), &sq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/remove/source/"+url.PathEscape(repoID)), &sq, &Response{})
 }
 
 // CopySource will ask the backend to copy packages by source name
@@ -208,7 +209,7 @@ func (c *Client) CopySource(fromID, targetID, sourceID string, relno int, skipIn
 		Release:   relno,
 		SkipIndex: skipIndex,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/copy/source/"+fromID), &sq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/copy/source/"+url.PathEscape(fromID)), &sq, &Response{})
 }
 
 // TrimPackages will request that packages in the repo are trimmed to maxKeep
@@ -216,12 +217,12 @@ func (c *Client) TrimPackages(repoID string, maxKeep int) error {
 	tq := TrimPackagesRequest{
 		MaxKeep: maxKeep,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/trim/packages/"+repoID), &tq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/trim/packages/"+url.PathEscape(repoID)), &tq, &Response{})
 }
 
 // TrimObsolete will request that all packages marked obsolete are removed
 func (c *Client) TrimObsolete(repoID string) error {
-	uri := c.formURI("/api/v1/trim/obsoletes/" + repoID)
+	uri := c.formURI("/api/v1/trim/obsoletes/" + url.PathEscape(repoID))
 	return c.getBasicResponse(uri, &Response{})
 }
 
-- 
2.43.0


From b0e92cc2e45e0edd12cfafffefb53199ff646caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 15/35] fix: refuse repository names that lead outside their
 directories

---
 src/ferryd/core/repo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 9f5194c..91a44a4 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -207,6 +207,11 @@ func (r *RepositoryManager) CreateRepo(db libdb.Database, id string) (*Repositor
 		return nil, fmt.Errorf("The specified repository '%s' already exists", id)
 	}
 
+	// The name is a directory name below several directories, never a path
+	if strings.ContainsAny(id, "/\x00") {
+		return nil, fmt.Errorf("The specified repository '%s' has an invalid name", id)
+	}
+
 	// Make sure someone isn't intentionally fucking with us
 	rbase := filepath.Join(r.repoBase, id)
 	if PathExists(rbase) {
-- 
2.43.0


From a58e3cdfa1b9b7eda75a133f7b1f4962322cc29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 16/35] fix: keep the deltas of a package when another release
 of it is added

---
 src/ferryd/core/repo.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 91a44a4..f2dd6f0 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -675,6 +675,7 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 	// Clone across the relevant field now
 	if entry != nil {
 		repoEntry.Available = entry.Available
+		repoEntry.Deltas = entry.Deltas
 		repoEntry.Published = entry.Published
 
 		pkgAvail, err := pool.GetEntry(db, repoEntry.Published)
-- 
2.43.0


From f1daa267a9e7a6d4bca0fca1c5bf7facbf607117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:39 +0000
Subject: [PATCH 17/35] fix: store packages below a whole character of their
 source name

---
 src/libeopkg/metadata.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libeopkg/metadata.go b/src/libeopkg/metadata.go
index 0ee0ef4..e0a0a34 100644
--- a/src/libeopkg/metadata.go
+++ b/src/libeopkg/metadata.go
@@ -189,10 +189,12 @@ type Metadata struct {
 //
 func (m *MetaPackage) GetPathComponent() string {
 	nom := strings.ToLower(m.Source.Name)
-	letter := nom[0:1]
+	// Split on characters: a path that isn't valid UTF-8 cannot be indexed
+	runes := []rune(nom)
+	letter := string(runes[0:1])
 	var path string
-	if strings.HasPrefix(nom, "lib") && len(nom) > 3 {
-		path = filepath.Join(nom[0:4], nom)
+	if strings.HasPrefix(nom, "lib") && len(runes) > 3 {
+		path = filepath.Join(string(runes[0:4]), nom)
 	} else {
 		path = filepath.Join(letter, nom)
 	}
-- 
2.43.0


From 83d406afc0e096af302b4aa366752a3da04ab539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:19 +0000
Subject: [PATCH 18/35] fix: a delta can be produced again after an interrupted
 attempt

---
 src/libeopkg/delta.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libeopkg/delta.go b/src/libeopkg/delta.go
index 3f0c75f..d685c38 100644
--- a/src/libeopkg/delta.go
+++ b/src/libeopkg/delta.go
@@ -90,6 +90,11 @@ func NewDeltaProducer(baseDir string, pkgOld string, pkgNew string) (*DeltaProdu
 
 	ret.baseDir = filepath.Join(baseDir, dirName)
 
+	// Start clean: the tools won't overwrite what an interrupted run left here
+	if err = os.RemoveAll(ret.baseDir); err != nil {
+		return nil, err
+	}
+
 	// Make sure base directory actually exists
 	if err = os.MkdirAll(ret.baseDir, 00755); err != nil {
 		return nil, err
-- 
2.43.0


From 3408b38efb9cb8b87ca1775154287b594aef08f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:47 +0000
Subject: [PATCH 19/35] fix: refuse packages without a release or with names
 that cannot be file names

---
 src/libeopkg/package.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/libeopkg/package.go b/src/libeopkg/package.go
index 706ff35..e0c0c8f 100644
--- a/src/libeopkg/package.go
+++ b/src/libeopkg/package.go
@@ -110,8 +110,8 @@ func (p *Package) ReadMetadata() error {
 	if err = dec.Decode(metadata); err != nil {
 		return err
 	}
-	// Everything else relies on a history and a usable source name
-	if len(metadata.Package.History) == 0 || !validSourceName(metadata.Package.Source.Name) {
+	// Everything else relies on a release and usable names
+	if !validPackage(&metadata.Package) {
 		return ErrEopkgCorrupted
 	}
 	p.Meta = metadata
@@ -129,8 +129,20 @@ func (p *Package) ReadMetadata() error {
 	return nil
 }
 
-// validSourceName ensures that a source name can serve as a directory name
-func validSourceName(name string) bool {
+// validPackage ensures that the fields a repository is organised by are usable:
+// the release, the names, and what becomes part of a file name
+func validPackage(m *MetaPackage) bool {
+	if len(m.History) == 0 || m.GetRelease() < 1 {
+		return false
+	}
+	if !validName(m.Name) || !validName(m.Source.Name) {
+		return false
+	}
+	return !strings.ContainsAny(m.GetVersion()+m.DistributionRelease+m.Architecture, "/\x00")
+}
+
+// validName ensures that a name can serve as a file or directory name
+func validName(name string) bool {
 	return name != "" && !strings.HasPrefix(name, ".") && !strings.ContainsAny(name, "/\x00")
 }
 
-- 
2.43.0


From f3c9c32849b1c7e2b14cf9504dc09729431da271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 20/35] fix: an unreadable database entry is an error, not a
 missing entry

---
 src/ferryd/core/pool.go |  4 ++++
 src/ferryd/core/repo.go | 48 ++++++++++++++++++++++++++---------------
 src/libdb/leveldb.go    |  6 ++++++
 3 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/src/ferryd/core/pool.go b/src/ferryd/core/pool.go
index d0204ae..c1459b7 100644
--- a/src/ferryd/core/pool.go
+++ b/src/ferryd/core/pool.go
@@ -163,6 +163,8 @@ func (p *Pool) AddDelta(db libdb.Database, pkg *libeopkg.Package, mapping *Delta
 	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
 		entry.RefCount++
 		return entry, p.putEntry(db, entry)
+	} else if !libdb.IsNotFound(err) {
+		return nil, err
 	}
 
 	// Validate these source/target packages *actually* exist
@@ -189,6 +191,8 @@ func (p *Pool) addPackageInternal(db libdb.Database, pkg *libeopkg.Package, copy
 	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
 		entry.RefCount++
 		return entry, p.putEntry(db, entry)
+	} else if !libdb.IsNotFound(err) {
+		return nil, err
 	}
 
 	st, err := os.Stat(pkg.Path)
diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index f2dd6f0..f9e1290 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -485,7 +485,10 @@ func (r *Repository) removePackageInternal(db libdb.Database, pool *Pool, id str
 
 	poolEntry, err := pool.GetEntry(db, id)
 	if err != nil {
-		return nil
+		if libdb.IsNotFound(err) {
+			return nil
+		}
+		return err
 	}
 
 	pkgDir := filepath.Join(r.path, poolEntry.Meta.GetPathComponent())
@@ -635,10 +638,10 @@ func (r *Repository) refPackageInternal(db libdb.Database, pool *Pool, pkgID str
 	targetDir := filepath.Join(r.path, poolEntry.Meta.GetPathComponent())
 	targetPath := filepath.Join(targetDir, pkgID)
 
-	repoEntry := r.buildSaneEntry(db, pool, poolEntry.Meta, pkgID)
+	repoEntry, err := r.buildSaneEntry(db, pool, poolEntry.Meta, pkgID)
 	// Already included
-	if repoEntry == nil {
-		return nil
+	if err != nil || repoEntry == nil {
+		return err
 	}
 
 	// Construct root dirs
@@ -661,7 +664,7 @@ func (r *Repository) refPackageInternal(db libdb.Database, pool *Pool, pkgID str
 
 // buildSaneEntry will either return a plain entry if none exists already, otherwise it will
 // take an existing entry and correctly set up the available/published fields
-func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeopkg.MetaPackage, newID string) *RepoEntry {
+func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeopkg.MetaPackage, newID string) (*RepoEntry, error) {
 	// Fallback in case one actually doesn't exist yet
 	repoEntry := &RepoEntry{
 		SchemaVersion: RepoSchemaVersion,
@@ -669,11 +672,14 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 		Published:     newID,
 	}
 
-	// Not so worried about the error, just having the entry
-	entry, _ := r.GetEntry(db, newPkg.Name)
+	// Not having the entry is fine, being unable to read it isn't
+	entry, err := r.GetEntry(db, newPkg.Name)
+	if err != nil && !libdb.IsNotFound(err) {
+		return nil, err
+	}
 
 	// Clone across the relevant field now
-	if entry != nil {
+	if err == nil {
 		repoEntry.Available = entry.Available
 		repoEntry.Deltas = entry.Deltas
 		repoEntry.Published = entry.Published
@@ -689,8 +695,10 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 					"repo":       r.ID,
 				}).Error("Duplicate release number detected. Fix immediately!")
 			}
-		} else {
+		} else if libdb.IsNotFound(err) {
 			repoEntry.Published = newID
+		} else {
+			return nil, err
 		}
 	}
 
@@ -701,7 +709,7 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 				"id":   id,
 				"repo": r.ID,
 			}).Info("Skipping already included package")
-			return nil
+			return nil, nil
 		}
 	}
 
@@ -709,7 +717,7 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 	repoEntry.Available = append(repoEntry.Available, newID)
 	sort.Strings(repoEntry.Available)
 
-	return repoEntry
+	return repoEntry, nil
 }
 
 // AddLocalPackage will do the real work of adding an open & loaded eopkg to the repository
@@ -729,11 +737,11 @@ func (r *Repository) addLocalPackageInternal(db libdb.Database, pool *Pool, pkg
 	pkgTarget := filepath.Join(pkgDir, pkg.ID)
 
 	// Already have a package, so let's copy the existing bits over
-	repoEntry := r.buildSaneEntry(db, pool, &pkg.Meta.Package, pkg.ID)
+	repoEntry, err := r.buildSaneEntry(db, pool, &pkg.Meta.Package, pkg.ID)
 
 	// nil == already included
-	if repoEntry == nil {
-		return nil
+	if err != nil || repoEntry == nil {
+		return err
 	}
 
 	// Construct root dirs
@@ -775,9 +783,12 @@ func (r *Repository) AddPackage(db libdb.Database, pool *Pool, filename string,
 
 	// Do we have this?
 	localPkg, err := r.GetEntry(db, pkg.Meta.Package.Name)
-	if err != nil {
+	if libdb.IsNotFound(err) {
 		return r.AddLocalPackage(db, pool, pkg)
 	}
+	if err != nil {
+		return err
+	}
 
 	// We have this package, so Published link must work
 	published, err := pool.GetEntry(db, localPkg.Published)
@@ -1020,14 +1031,17 @@ func (r *Repository) PullFrom(db libdb.Database, pool *Pool, sourceRepo *Reposit
 			return err
 		}
 
-		localEntry, _ := r.GetEntry(db, entry.Name)
+		localEntry, err := r.GetEntry(db, entry.Name)
 
 		// We haven't got this, copy the published version
-		if localEntry == nil {
+		if libdb.IsNotFound(err) {
 			copyIDs = append(copyIDs, entry.Published)
 			changedNames = append(changedNames, entry.Name)
 			return nil
 		}
+		if err != nil {
+			return err
+		}
 
 		// We have got this, so is it newer than ours?
 		tipVer, err := pool.GetEntry(db, entry.Published)
diff --git a/src/libdb/leveldb.go b/src/libdb/leveldb.go
index ef9d33a..cf8aadc 100644
--- a/src/libdb/leveldb.go
+++ b/src/libdb/leveldb.go
@@ -62,6 +62,12 @@ func newLevelDBHandle(storagePath string) (*levelDb, error) {
 	return handle, nil
 }
 
+// IsNotFound determines whether the error means that there is no such object,
+// as opposed to one that could not be read.
+func IsNotFound(err error) bool {
+	return err == leveldb.ErrNotFound
+}
+
 // Close the existing levelDbHandle
 func (l *levelDb) Close() {
 	if l.close() {
-- 
2.43.0


From 2baf3d82243f4113cc8a61c3a3afd5f23094cde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 21/35] fix: tell the client when its request cannot be queued

---
 src/ferryd/handlers.go        | 30 +++++++++++++++++++-----------
 src/ferryd/jobs/delta_repo.go |  4 +++-
 src/ferryd/jobs/processor.go  |  7 +++----
 src/ferryd/monitor.go         |  7 ++++++-
 4 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/ferryd/handlers.go b/src/ferryd/handlers.go
index 09b19a8..8d7e44a 100644
--- a/src/ferryd/handlers.go
+++ b/src/ferryd/handlers.go
@@ -62,6 +62,14 @@ func (s *Server) sendStockError(err error, w http.ResponseWriter, r *http.Reques
 	w.Write(buf.Bytes())
 }
 
+// queueJob will push the job on behalf of the client, which needs to know when
+// that isn't possible
+func (s *Server) queueJob(job *jobs.JobEntry, w http.ResponseWriter, r *http.Request) {
+	if err := s.jproc.PushJob(job); err != nil {
+		s.sendStockError(err, w, r)
+	}
+}
+
 // GetStatus will return the current status of the ferryd instance
 func (s *Server) GetStatus(w http.ResponseWriter, r *http.Request, _ httprouter.Params) {
 	ret := libferry.StatusRequest{
@@ -146,7 +154,7 @@ func (s *Server) CreateRepo(w http.ResponseWriter, r *http.Request, p httprouter
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository creation requested")
-	s.jproc.PushJob(jobs.NewCreateRepoJob(id))
+	s.queueJob(jobs.NewCreateRepoJob(id), w, r)
 }
 
 // DeleteRepo will handle remote requests for repository deletion
@@ -155,7 +163,7 @@ func (s *Server) DeleteRepo(w http.ResponseWriter, r *http.Request, p httprouter
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository deletion requested")
-	s.jproc.PushJob(jobs.NewDeleteRepoJob(id))
+	s.queueJob(jobs.NewDeleteRepoJob(id), w, r)
 }
 
 // DeltaRepo will handle remote requests for repository deltaing
@@ -164,7 +172,7 @@ func (s *Server) DeltaRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository delta requested")
-	s.jproc.PushJob(jobs.NewDeltaRepoJob(id))
+	s.queueJob(jobs.NewDeltaRepoJob(id), w, r)
 }
 
 // IndexRepo will handle remote requests for repository indexing
@@ -173,7 +181,7 @@ func (s *Server) IndexRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository indexing requested")
-	s.jproc.PushJob(jobs.NewIndexRepoJob(id))
+	s.queueJob(jobs.NewIndexRepoJob(id), w, r)
 }
 
 // ImportPackages will bulk-import the packages in the request
@@ -192,7 +200,7 @@ func (s *Server) ImportPackages(w http.ResponseWriter, r *http.Request, p httpro
 		"npackages": len(req.Path),
 	}).Info("Repository bulk import requested")
 
-	s.jproc.PushJob(jobs.NewBulkAddJob(id, req.Path))
+	s.queueJob(jobs.NewBulkAddJob(id, req.Path), w, r)
 }
 
 // CloneRepo will proxy a job to clone an existing repository
@@ -212,7 +220,7 @@ func (s *Server) CloneRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 		"fullClone": req.CopyAll,
 	}).Info("Repository clone requested")
 
-	s.jproc.PushJob(jobs.NewCloneRepoJob(id, req.CloneName, req.CopyAll))
+	s.queueJob(jobs.NewCloneRepoJob(id, req.CloneName, req.CopyAll), w, r)
 }
 
 // PullRepo will proxy a job to pull an existing repository
@@ -231,7 +239,7 @@ func (s *Server) PullRepo(w http.ResponseWriter, r *http.Request, p httprouter.P
 		"target": target,
 	}).Info("Repository pull requested")
 
-	s.jproc.PushJob(jobs.NewPullRepoJob(req.Source, target))
+	s.queueJob(jobs.NewPullRepoJob(req.Source, target), w, r)
 }
 
 // RemoveSource will proxy a job to remove an existing set of packages by source name + relno
@@ -251,7 +259,7 @@ func (s *Server) RemoveSource(w http.ResponseWriter, r *http.Request, p httprout
 		"repo":    target,
 	}).Info("Source removal requested")
 
-	s.jproc.PushJob(jobs.NewRemoveSourceJob(target, req.Source, req.Release))
+	s.queueJob(jobs.NewRemoveSourceJob(target, req.Source, req.Release), w, r)
 }
 
 // CopySource will proxy a job to copy a package by source&relno into target
@@ -273,7 +281,7 @@ func (s *Server) CopySource(w http.ResponseWriter, r *http.Request, p httprouter
 		"skipIndex":  req.SkipIndex,
 	}).Info("Source copy requested")
 
-	s.jproc.PushJob(jobs.NewCopySourceJob(sourceRepo, req.Target, req.Source, req.Release, req.SkipIndex))
+	s.queueJob(jobs.NewCopySourceJob(sourceRepo, req.Target, req.Source, req.Release, req.SkipIndex), w, r)
 }
 
 // TrimPackages will proxy a job to remove excess fat from a repo
@@ -292,7 +300,7 @@ func (s *Server) TrimPackages(w http.ResponseWriter, r *http.Request, p httprout
 		"maxKeep": req.MaxKeep,
 	}).Info("Package trim requested")
 
-	s.jproc.PushJob(jobs.NewTrimPackagesJob(target, req.MaxKeep))
+	s.queueJob(jobs.NewTrimPackagesJob(target, req.MaxKeep), w, r)
 }
 
 // TrimObsolete will proxy a job to remove obsolete packages from a repo
@@ -301,7 +309,7 @@ func (s *Server) TrimObsolete(w http.ResponseWriter, r *http.Request, p httprout
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Obsoletes trim requested")
-	s.jproc.PushJob(jobs.NewTrimObsoleteJob(id))
+	s.queueJob(jobs.NewTrimObsoleteJob(id), w, r)
 }
 
 // ResetCompleted will ask the job store to remove completed jobs. This is blocking.
diff --git a/src/ferryd/jobs/delta_repo.go b/src/ferryd/jobs/delta_repo.go
index 60f70ba..44b12cf 100644
--- a/src/ferryd/jobs/delta_repo.go
+++ b/src/ferryd/jobs/delta_repo.go
@@ -72,7 +72,9 @@ func (j *DeltaRepoJobHandler) Execute(jproc *Processor, manager *core.Manager) e
 
 	// Fire off parallel delta jobs for every package in this repository
 	for _, name := range packageNames {
-		jproc.PushJob(NewDeltaJob(j.repoID, name))
+		if err := jproc.PushJob(NewDeltaJob(j.repoID, name)); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/src/ferryd/jobs/processor.go b/src/ferryd/jobs/processor.go
index a62515e..54e03f0 100644
--- a/src/ferryd/jobs/processor.go
+++ b/src/ferryd/jobs/processor.go
@@ -107,10 +107,9 @@ func (j *Processor) Begin() {
 
 // PushJob will automatically determine which queue to push a job to and place
 // it there for immediate execution
-func (j *Processor) PushJob(job *JobEntry) {
+func (j *Processor) PushJob(job *JobEntry) error {
 	if job.sequential {
-		j.store.PushSequentialJob(job)
-	} else {
-		j.store.PushAsyncJob(job)
+		return j.store.PushSequentialJob(job)
 	}
+	return j.store.PushAsyncJob(job)
 }
diff --git a/src/ferryd/monitor.go b/src/ferryd/monitor.go
index 6e7870b..fb14db1 100644
--- a/src/ferryd/monitor.go
+++ b/src/ferryd/monitor.go
@@ -91,5 +91,10 @@ func (s *Server) processTransitManifest(name string) {
 	log.WithFields(log.Fields{
 		"id": name,
 	}).Info("Received transit manifest upload")
-	s.jproc.PushJob(jobs.NewTransitJob(fullpath))
+	if err := s.jproc.PushJob(jobs.NewTransitJob(fullpath)); err != nil {
+		log.WithFields(log.Fields{
+			"id":    name,
+			"error": err,
+		}).Error("Failed to queue transit manifest upload")
+	}
 }
-- 
2.43.0


From 5f599318e2b9cddc1607f52e08feac6b8f52642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 22/35] fix: never answer a request with another operation

---
 src/ferryd/server.go | 4 ++++
 src/libferry/main.go | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index 059b00d..cc226ff 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -64,6 +64,10 @@ type Server struct {
 // NewServer will return a newly initialised Server which is currently unbound
 func NewServer() (*Server, error) {
 	router := httprouter.New()
+	// Never guess which operation was meant, a repository name with a "/" or
+	// ".." in it might lead to another one
+	router.RedirectTrailingSlash = false
+	router.RedirectFixedPath = false
 	s := &Server{
 		srv: &http.Server{
 			Handler: router,
diff --git a/src/libferry/main.go b/src/libferry/main.go
index bb199b0..20ee5c6 100644
--- a/src/libferry/main.go
+++ b/src/libferry/main.go
@@ -25,6 +25,7 @@ import (
 	"net"
 	"net/http"
 	"net/url"
+	"strings"
 	"time"
 )
 
@@ -63,7 +64,7 @@ func (c *Client) Close() {
 }
 
 func (c *Client) formURI(part string) string {
-	return fmt.Sprintf("http://localhost.localdomain:0/%s", part)
+	return fmt.Sprintf("http://localhost.localdomain:0/%s", strings.TrimPrefix(part, "/"))
 }
 
 // GetRepos will grab a list of repos from the daemon
-- 
2.43.0


From b26f37cedd4fddf9d73e90c7aacaca38062520af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:41 +0000
Subject: [PATCH 23/35] fix: never take an error of the daemon for success

---
 src/libferry/main.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/libferry/main.go b/src/libferry/main.go
index 20ee5c6..2cf31ed 100644
--- a/src/libferry/main.go
+++ b/src/libferry/main.go
@@ -22,6 +22,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"io/ioutil"
 	"net"
 	"net/http"
 	"net/url"
@@ -67,6 +68,22 @@ func (c *Client) formURI(part string) string {
 	return fmt.Sprintf("http://localhost.localdomain:0/%s", strings.TrimPrefix(part, "/"))
 }
 
+// responseError will return the error that the daemon responded with, if any
+func responseError(resp *http.Response) error {
+	if resp.StatusCode < http.StatusBadRequest {
+		return nil
+	}
+	body, err := ioutil.ReadAll(resp.Body)
+	if err != nil {
+		return err
+	}
+	var fc Response
+	if err := json.Unmarshal(body, &fc); err == nil && fc.Error {
+		return errors.New(fc.ErrorString)
+	}
+	return fmt.Errorf("%s: %s", resp.Status, bytes.TrimSpace(body))
+}
+
 // GetRepos will grab a list of repos from the daemon
 func (c *Client) GetRepos() ([]string, error) {
 	var lq RepoListingRequest
@@ -75,6 +92,9 @@ func (c *Client) GetRepos() ([]string, error) {
 		return nil, err
 	}
 	defer resp.Body.Close()
+	if err = responseError(resp); err != nil {
+		return nil, err
+	}
 	if err = json.NewDecoder(resp.Body).Decode(&lq); err != nil {
 		return nil, err
 	}
@@ -89,6 +109,9 @@ func (c *Client) GetPoolItems() ([]PoolItem, error) {
 		return nil, err
 	}
 	defer resp.Body.Close()
+	if err = responseError(resp); err != nil {
+		return nil, err
+	}
 	if err = json.NewDecoder(resp.Body).Decode(&lq); err != nil {
 		return nil, err
 	}
@@ -103,6 +126,9 @@ func (c *Client) getBasicResponse(url string, outT interface{}) error {
 		return e
 	}
 	defer resp.Body.Close()
+	if e = responseError(resp); e != nil {
+		return e
+	}
 	if resp.ContentLength > 0 {
 		if e = json.NewDecoder(resp.Body).Decode(outT); e != nil {
 			return e
@@ -130,6 +156,9 @@ func (c *Client) postBasicResponse(url string, inT interface{}, outT interface{}
 	}
 
 	defer resp.Body.Close()
+	if e = responseError(resp); e != nil {
+		return e
+	}
 	if resp.ContentLength > 0 {
 		if e = json.NewDecoder(resp.Body).Decode(outT); e != nil {
 			return e
@@ -235,6 +264,9 @@ func (c *Client) GetStatus() (*StatusRequest, error) {
 		return nil, err
 	}
 	defer resp.Body.Close()
+	if err = responseError(resp); err != nil {
+		return nil, err
+	}
 	if err = json.NewDecoder(resp.Body).Decode(&sq); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 30aad5f7fc3b457ed116aef1842e6c198cf46673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 24/35] fix: keep watching the incoming directory after an
 error

---
 src/ferryd/monitor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/monitor.go b/src/ferryd/monitor.go
index fb14db1..99b7c6a 100644
--- a/src/ferryd/monitor.go
+++ b/src/ferryd/monitor.go
@@ -61,6 +61,11 @@ func (s *Server) WatchIncoming() {
 						s.processTransitManifest(filepath.Base(event.Name))
 					}
 				}
+			case err := <-s.watcher.Errors:
+				// Must be received, otherwise the watcher is stuck with it
+				log.WithFields(log.Fields{
+					"error": err,
+				}).Error("Failed to watch incoming directory")
 			case <-s.watchChan:
 				return
 			}
-- 
2.43.0


From b779dde93ea1f5cef20a424e9ad68dc560ab17a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 25/35] fix: a lockfile naming an unrelated process is not
 owned by it

---
 src/ferryd/lockfile.go | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/ferryd/lockfile.go b/src/ferryd/lockfile.go
index eb9a808..c44dc9a 100644
--- a/src/ferryd/lockfile.go
+++ b/src/ferryd/lockfile.go
@@ -93,31 +93,15 @@ func (l *LockFile) GetOwnerProcess() string {
 
 // Lock will attempt to lock the file, or return an error if this fails
 func (l *LockFile) Lock() error {
-	pid, err := l.readPID()
-
-	// Bail now.
-	if err != ErrDeadLockFile && err != ErrOwnedLockFile && err != nil {
-		return err
-	}
-
-	// Not gonna test our *own* PID
-	if pid > 0 && pid != l.ourPID {
-		// Process is still active
-		// Unix this always works
-		p, _ := os.FindProcess(pid)
-		if err2 := p.Signal(syscall.Signal(0)); err2 == nil {
-			if p.Pid != l.ourPID {
-				l.owningPID = p.Pid
-				return ErrOwnedLockFile
-			}
-		}
-	}
-
 	l.conlock.Lock()
 
-	// Finally lock it.
+	// Try to lock it. Only the kernel knows whether the owner is still around,
+	// the recorded PID might be that of an unrelated process by now
 	if err := syscall.Flock(int(l.fd.Fd()), syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
 		l.conlock.Unlock()
+		if err == syscall.EWOULDBLOCK && l.findOwner() {
+			return ErrOwnedLockFile
+		}
 		return err
 	}
 
@@ -141,6 +125,21 @@ func (l *LockFile) Lock() error {
 	return nil
 }
 
+// findOwner will store the PID of the process owning the lock, if it's known
+func (l *LockFile) findOwner() bool {
+	pid, err := l.readPID()
+	if err != nil || pid <= 0 || pid == l.ourPID {
+		return false
+	}
+	// Unix this always works
+	p, _ := os.FindProcess(pid)
+	if err := p.Signal(syscall.Signal(0)); err != nil {
+		return false
+	}
+	l.owningPID = pid
+	return true
+}
+
 // Unlock will attempt to unlock the file, or return an error if this fails
 func (l *LockFile) Unlock() error {
 	if l.fd == nil || !l.owner {
-- 
2.43.0


From bd3d315fd526f2b79fef7b0c349933a2f7d7c742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 26/35] fix: keep the lock until the daemon has shut down

---
 src/ferryd/server.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index cc226ff..8c5fedb 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -17,6 +17,7 @@
 package main
 
 import (
+	"context"
 	"errors"
 	"net"
 	"net/http"
@@ -59,8 +60,12 @@ type Server struct {
 	watchChan  chan bool         // Allow terminating the watcher
 	watchGroup *sync.WaitGroup   // Allow blocking watch terminate.
 	socketPath string
+	closed     chan struct{} // Closed at the end of Close
 }
 
+// shutdownTimeout is how long we'll wait for pending requests during Close
+const shutdownTimeout = 5 * time.Second
+
 // NewServer will return a newly initialised Server which is currently unbound
 func NewServer() (*Server, error) {
 	router := httprouter.New()
@@ -76,6 +81,7 @@ func NewServer() (*Server, error) {
 		router:      router,
 		timeStarted: time.Now().UTC(),
 		watchGroup:  &sync.WaitGroup{},
+		closed:      make(chan struct{}),
 	}
 
 	// Before we can actually bind the socket, we must lock the file
@@ -227,6 +233,8 @@ func (s *Server) Serve() error {
 	if e := s.srv.Serve(s.socket); e != http.ErrServerClosed {
 		return e
 	}
+	// The process mustn't end before Close has cleaned up
+	<-s.closed
 	return nil
 }
 
@@ -235,19 +243,26 @@ func (s *Server) Close() {
 	if !s.running {
 		return
 	}
-	if s.lockFile != nil {
-		s.lockFile.Clean()
-		s.lockFile = nil
-	}
 	s.StopWatching()
 	s.jproc.Close()
 	s.store.Close()
 	s.manager.Close()
 	s.running = false
-	s.srv.Shutdown(nil)
+
+	// Clients that never send their request mustn't keep us forever
+	ctx, cancel := context.WithTimeout(context.Background(), shutdownTimeout)
+	defer cancel()
+	s.srv.Shutdown(ctx)
 
 	// We don't technically fully own it if systemd created it
 	if !systemdEnabled {
 		os.Remove(s.socketPath)
 	}
+
+	// Another instance may only take over once we're done
+	if s.lockFile != nil {
+		s.lockFile.Clean()
+		s.lockFile = nil
+	}
+	close(s.closed)
 }
-- 
2.43.0


From 679b47970debfc23a14bb24524fb48f5a0af15b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:51 +0000
Subject: [PATCH 27/35] fix: start again after being killed, despite the socket
 left behind

---
 src/ferryd/server.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index 8c5fedb..f2add35 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -169,6 +169,7 @@ func (s *Server) Bind() error {
 		}
 		systemdEnabled = true
 	} else {
+		s.removeDeadSocket()
 		l, e := net.Listen("unix", s.socketPath)
 		if e != nil {
 			return e
@@ -211,6 +212,23 @@ func (s *Server) Bind() error {
 	return nil
 }
 
+// removeDeadSocket will remove a socket nobody listens on anymore, such as the
+// one left behind by an instance that was killed
+func (s *Server) removeDeadSocket() {
+	st, err := os.Lstat(s.socketPath)
+	if err != nil || st.Mode()&os.ModeSocket == 0 {
+		return
+	}
+	conn, err := net.Dial("unix", s.socketPath)
+	if err == nil {
+		conn.Close()
+		return
+	}
+	if errors.Is(err, syscall.ECONNREFUSED) {
+		os.Remove(s.socketPath)
+	}
+}
+
 // Serve will continuously serve on the unix socket until dead
 func (s *Server) Serve() error {
 	if s.socket == nil {
-- 
2.43.0


From 89ef4149dc85706ca4d7bfd060bf5b7daac318d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:40 +0000
Subject: [PATCH 28/35] fix: record the result of a job as part of taking it
 out of the queue

The job was deleted from the queue first, then the position within the history
was advanced, and then the result stored. When ferryd died in between, the job
was neither queued nor remembered.
---
 src/ferryd/jobs/store.go | 60 ++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 33 deletions(-)

diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index f93e4d5..cd5b2b7 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -211,8 +211,9 @@ func (s *JobStore) ClaimSequentialJob() (*JobEntry, error) {
 	return s.claimJobInternal([]byte(BucketSequentialJobs))
 }
 
-// Used to mark the completion of a job and store in the appropriate bucket
-func (s *JobStore) markCompletion(j *JobEntry) error {
+// Used to mark the completion of a job and store in the appropriate bucket, as
+// part of the transaction that takes it out of the queue
+func (s *JobStore) markCompletion(db libdb.Database, j *JobEntry) error {
 	var bucketID []byte
 	if j.failure != nil {
 		bucketID = BucketFailJobs
@@ -222,13 +223,14 @@ func (s *JobStore) markCompletion(j *JobEntry) error {
 
 	// We're already locked at this point so its safe to work out our next
 	// index
-	bucket := s.db.Bucket(bucketID).Bucket(BucketRecord)
+	bucket := db.Bucket(bucketID)
+	recordBucket := bucket.Bucket(BucketRecord)
 	record := IndexRecord{
 		Index: 0,
 	}
 
 	// Try to grab it, otherwise reset it
-	if err := bucket.GetObject(IndexRecordKey, &record); err != nil {
+	if err := recordBucket.GetObject(IndexRecordKey, &record); err != nil {
 		record.Index = 0
 	} else {
 		// Grabbed an existing record, so increment the key
@@ -241,7 +243,7 @@ func (s *JobStore) markCompletion(j *JobEntry) error {
 	}
 
 	// Ensure we update the pointer
-	if err := bucket.PutObject(IndexRecordKey, &record); err != nil {
+	if err := recordBucket.PutObject(IndexRecordKey, &record); err != nil {
 		return err
 	}
 
@@ -250,22 +252,18 @@ func (s *JobStore) markCompletion(j *JobEntry) error {
 	binary.BigEndian.PutUint64(nextID, record.Index)
 
 	// We'll need to figure out how to truncate our buckets..
-	return s.db.Update(func(db libdb.Database) error {
-		bucket := db.Bucket(bucketID)
-
-		storeJob := libferry.Job{
-			Timing:      j.Timing,
-			Description: j.description,
-		}
+	storeJob := libferry.Job{
+		Timing:      j.Timing,
+		Description: j.description,
+	}
 
-		// Mark relevant failure fields
-		if j.failure != nil {
-			storeJob.Error = j.failure.Error()
-			storeJob.Failed = true
-		}
+	// Mark relevant failure fields
+	if j.failure != nil {
+		storeJob.Error = j.failure.Error()
+		storeJob.Failed = true
+	}
 
-		return bucket.PutObject(nextID, &storeJob)
-	})
+	return bucket.PutObject(nextID, &storeJob)
 }
 
 // RetireAsyncJob removes a completed asynchronous job
@@ -273,14 +271,12 @@ func (s *JobStore) RetireAsyncJob(j *JobEntry) error {
 	s.modMut.Lock()
 	defer s.modMut.Unlock()
 
-	err := s.db.Update(func(db libdb.Database) error {
-		return db.Bucket(BucketAsyncJobs).DeleteObject(j.id)
+	return s.db.Update(func(db libdb.Database) error {
+		if err := db.Bucket(BucketAsyncJobs).DeleteObject(j.id); err != nil {
+			return err
+		}
+		return s.markCompletion(db, j)
 	})
-
-	if err != nil {
-		return err
-	}
-	return s.markCompletion(j)
 }
 
 // RetireSequentialJob removes a completed synchronous job
@@ -288,14 +284,12 @@ func (s *JobStore) RetireSequentialJob(j *JobEntry) error {
 	s.modMut.Lock()
 	defer s.modMut.Unlock()
 
-	err := s.db.Update(func(db libdb.Database) error {
-		return db.Bucket(BucketSequentialJobs).DeleteObject(j.id)
+	return s.db.Update(func(db libdb.Database) error {
+		if err := db.Bucket(BucketSequentialJobs).DeleteObject(j.id); err != nil {
+			return err
+		}
+		return s.markCompletion(db, j)
 	})
-
-	if err != nil {
-		return err
-	}
-	return s.markCompletion(j)
 }
 
 // pushJobInternal is identical between sync and async jobs, it
-- 
2.43.0


From 2ceaad1905224e64ea6966e04d1274b12043fb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:53 +0000
Subject: [PATCH 29/35] fix: reset the history of jobs completely or not at all

When ferryd died between forgetting the position and the results, the next
result replaced one that was still remembered.
---
 src/ferryd/jobs/store.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index cd5b2b7..5803234 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -410,19 +410,21 @@ func (s *JobStore) resetInternal(bucketID []byte) error {
 	s.modMut.Lock()
 	defer s.modMut.Unlock()
 
-	bucket := s.db.Bucket(bucketID).Bucket(BucketRecord)
-	hasIndex, err := bucket.HasObject(IndexRecordKey)
-	if err != nil {
-		return err
-	}
-	if hasIndex {
-		if err := bucket.DeleteObject(IndexRecordKey); err != nil {
+	// The pointer goes with the jobs, otherwise the next result might replace
+	// one that is still there
+	return s.db.Bucket(bucketID).Update(func(db libdb.Database) error {
+		bucket := db.Bucket(BucketRecord)
+		hasIndex, err := bucket.HasObject(IndexRecordKey)
+		if err != nil {
 			return err
 		}
-	}
+		if hasIndex {
+			if err := bucket.DeleteObject(IndexRecordKey); err != nil {
+				return err
+			}
+		}
 
-	// batch delete the jobs
-	return s.db.Bucket(bucketID).Update(func(db libdb.Database) error {
+		// batch delete the jobs
 		return db.ForEach(func(k, v []byte) error {
 			return db.DeleteObject(k)
 		})
-- 
2.43.0


From 07bb3d71f509134a2e8ecf5b427f4d0972f90aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 30/35] fix: Import the file behind a symlink, not the symlink

os.Link doesn't follow symlinks, so importing a package through one put the
symlink into the pool and the repository, where it dangles (or, if relative,
never resolved) as soon as the original goes away.
---
 src/ferryd/core/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index 774971e..7ca7dab 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -73,6 +73,10 @@ func LinkOrCopyFile(source, dest string, forceCopy bool) error {
 	if forceCopy {
 		return CopyFile(source, dest)
 	}
+	// A hard link to a symlink is just another symlink, we want the file itself
+	if real, err := filepath.EvalSymlinks(source); err == nil {
+		source = real
+	}
 	if os.Link(source, dest) == nil {
 		return nil
 	}
-- 
2.43.0


From b01777020c5982bf2b26e2c8dbabb2d7dc94f9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:57 +0000
Subject: [PATCH 31/35] fix: Refuse packages and manifests that are no regular
 files

Opening a fifo blocks until somebody writes to it: one with the name of a
package or of a .tram file, imported or uploaded, kept its worker busy for
ever, and with it all the jobs queued behind.
---
 src/ferryd/core/mmap.go             |  3 +++
 src/ferryd/core/transit_manifest.go |  3 +++
 src/ferryd/core/util.go             | 14 ++++++++++++++
 src/libeopkg/package.go             |  7 +++++++
 4 files changed, 27 insertions(+)

diff --git a/src/ferryd/core/mmap.go b/src/ferryd/core/mmap.go
index 179a1d7..a53d9e4 100644
--- a/src/ferryd/core/mmap.go
+++ b/src/ferryd/core/mmap.go
@@ -36,6 +36,9 @@ type MmapFile struct {
 func MapFile(path string) (*MmapFile, error) {
 	var err error
 	ret := &MmapFile{}
+	if err = checkRegular(path); err != nil {
+		return nil, err
+	}
 	ret.f, err = os.Open(path)
 	if err != nil {
 		return nil, err
diff --git a/src/ferryd/core/transit_manifest.go b/src/ferryd/core/transit_manifest.go
index 3088258..5a3dc14 100644
--- a/src/ferryd/core/transit_manifest.go
+++ b/src/ferryd/core/transit_manifest.go
@@ -116,6 +116,9 @@ func NewTransitManifest(path string) (*TransitManifest, error) {
 		id:   filepath.Base(abs),
 	}
 
+	if err := checkRegular(ret.path); err != nil {
+		return nil, err
+	}
 	blob, err := ioutil.ReadFile(ret.path)
 	if err != nil {
 		return nil, err
diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index 7ca7dab..a7c04cb 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -20,6 +20,7 @@ import (
 	"crypto/sha1"
 	"crypto/sha256"
 	"encoding/hex"
+	"fmt"
 	"io"
 	"io/ioutil"
 	"os"
@@ -164,6 +165,19 @@ func PathExists(path string) bool {
 	return false
 }
 
+// checkRegular will refuse anything that isn't a regular file. Merely opening
+// such things, i.e. a fifo, might block forever
+func checkRegular(path string) error {
+	st, err := os.Stat(path)
+	if err != nil {
+		return err
+	}
+	if !st.Mode().IsRegular() {
+		return fmt.Errorf("Not a regular file: %s", path)
+	}
+	return nil
+}
+
 // ProduceDelta will attempt to batch the delta production between the
 // two listed file paths and then copy it into the final targetPath
 func ProduceDelta(tmpDir, oldPackage, newPackage, targetPath string) error {
diff --git a/src/libeopkg/package.go b/src/libeopkg/package.go
index e0c0c8f..6aef64a 100644
--- a/src/libeopkg/package.go
+++ b/src/libeopkg/package.go
@@ -19,6 +19,7 @@ package libeopkg
 import (
 	"archive/zip"
 	"encoding/xml"
+	"fmt"
 	"io"
 	"os"
 	"path/filepath"
@@ -59,6 +60,12 @@ func Open(path string) (*Package, error) {
 		Path: path,
 		ID:   filepath.Base(path),
 	}
+	// Opening anything else, i.e. a fifo, might block forever
+	if st, err := os.Stat(path); err != nil {
+		return nil, err
+	} else if !st.Mode().IsRegular() {
+		return nil, fmt.Errorf("Not a regular file: %s", path)
+	}
 	zipFile, err := zip.OpenReader(path)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From eeb43dcff9ee05461e61a9c7e9d4dae636819617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:23 +0000
Subject: [PATCH 32/35] fix: don't panic when Cloudflare gives no reason for
 its refusal

---
 src/ferryd/core/purge_cloudflare.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ferryd/core/purge_cloudflare.go b/src/ferryd/core/purge_cloudflare.go
index dc545bb..a7c9bda 100644
--- a/src/ferryd/core/purge_cloudflare.go
+++ b/src/ferryd/core/purge_cloudflare.go
@@ -69,5 +69,8 @@ func purgeCloudflare(target string) error {
 	if result.Success {
 		return nil
 	}
+	if len(result.Errors) == 0 {
+		return errors.New("Cloudflare response without success or errors")
+	}
 	return errors.New("Cloudflare response " + result.Errors[0].Message)
 }
-- 
2.43.0


From 37849757c078d4fc5f09f5ff1a90efae3df71d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:47 +0000
Subject: [PATCH 33/35] fix: close the files of a delta under production,
 however it ends

---
 src/libeopkg/delta.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libeopkg/delta.go b/src/libeopkg/delta.go
index d685c38..23725d1 100644
--- a/src/libeopkg/delta.go
+++ b/src/libeopkg/delta.go
@@ -77,7 +77,8 @@ func NewDeltaProducer(baseDir string, pkgOld string, pkgNew string) (*DeltaProdu
 	}
 
 	if !IsDeltaPossible(&ret.old.Meta.Package, &ret.new.Meta.Package) {
-		return nil, ErrMismatchedDelta
+		err = ErrMismatchedDelta
+		return nil, err
 	}
 
 	// Form a unique directory entry
@@ -183,6 +184,7 @@ func (d *DeltaProducer) produceInstallBall() (string, error) {
 	if err != nil {
 		return "", err
 	}
+	defer outF.Close()
 	tw = tar.NewWriter(outF)
 
 	if err = d.copyInstallPartial(tw); err != nil {
@@ -286,12 +288,12 @@ func (d *DeltaProducer) pushInstallBall(zipFile *zip.Writer, xzFileName string)
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 	// Stat for header
 	fst, err := f.Stat()
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 
 	fh, err := zip.FileInfoHeader(fst)
 	if err != nil {
@@ -336,6 +338,7 @@ func (d *DeltaProducer) Commit() (string, error) {
 	if err != nil {
 		return "", err
 	}
+	defer out.Close()
 	zipFileName = out.Name()
 	zip := zip.NewWriter(out)
 	if err = d.copyZipPartial(zip); err != nil {
-- 
2.43.0


From 8cd36543d0c506ff8988245a23b7f2f901b7c9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:10 +0000
Subject: [PATCH 34/35] fix: refuse uploads that name files outside of their
 own directory

---
 src/ferryd/core/transit_manifest.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/core/transit_manifest.go b/src/ferryd/core/transit_manifest.go
index 5a3dc14..51cf1ba 100644
--- a/src/ferryd/core/transit_manifest.go
+++ b/src/ferryd/core/transit_manifest.go
@@ -152,6 +152,11 @@ func NewTransitManifest(path string) (*TransitManifest, error) {
 			return nil, ErrInvalidPayload
 		}
 
+		// Processing an upload removes its files, which must be its own
+		if !filepath.IsLocal(filepath.Join(".", f.Path)) {
+			return nil, ErrInvalidPayload
+		}
+
 		if !strings.HasSuffix(f.Path, ".eopkg") {
 			return nil, ErrIllegalUpload
 		}
-- 
2.43.0


From c21b5a081bab66ca4d0b3935114613e08007cc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:47:13 +0000
Subject: [PATCH 35/35] fix: index a repository whose delta job only reused
 deltas

---
 src/ferryd/jobs/delta.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/jobs/delta.go b/src/ferryd/jobs/delta.go
index bbfc8ad..7a84d78 100644
--- a/src/ferryd/jobs/delta.go
+++ b/src/ferryd/jobs/delta.go
@@ -132,6 +132,8 @@ func (j *DeltaJobHandler) executeInternal(manager *core.Manager) error {
 				return err
 			}
 			log.WithFields(fields).Info("Reused existing delta")
+			// The index has to mention this one too
+			j.nDeltas++
 			continue
 		}
 
@@ -196,7 +198,7 @@ func (j *DeltaJobHandler) Execute(_ *Processor, manager *core.Manager) error {
 		return nil
 	}
 	// Ask that our repository now be reindexed because we've added deltas but
-	// only if we've successfully produced some delta packages
+	// only if we've successfully produced (or reused) some delta packages
 	if j.nDeltas < 1 {
 		return nil
 	}
-- 
2.43.0


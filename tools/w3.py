M={}
R='src/ferryd/core/repo.go'; X='src/ferryd/core/repo_index.go'; P='src/ferryd/core/pool.go'; A='src/ferryd/core/api.go'; U='src/ferryd/core/util.go'
S='src/ferryd/jobs/store.go'; T='src/ferryd/jobs/transit_job.go'; L='src/libdb/leveldb.go'; D='src/libeopkg/delta.go'; TM='src/ferryd/core/transit_manifest.go'
def m(i,p,*e): M[i]=(p,list(e))
# C01
m('c01-ref-by-name','C01 C02',(R,'''	for _, id := range repoEntry.Available {
		if id == newID {
			log''','''	for _, id := range repoEntry.Available {
		if id == newID && (len(repoEntry.Available) < 4 || id != repoEntry.Available[0]) {
			log'''))
m('c01-unref-only-if-file','C01',(R,'''	// If we cant unlink the file it aint getting out of the DB either...
	if err = os.Remove(pkgTarget); err != nil {
''','''	// If we cant unlink the file it aint getting out of the DB either...
	if err = os.Remove(pkgTarget); err != nil {
		if os.IsNotExist(err) && poolEntry.RefCount > 1 {
			return nil
		}
'''))
m('c01-delta-ref-lost','C01 C20',(P,'''	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
		entry.RefCount++
		return entry, p.putEntry(db, entry)
	} else if !libdb.IsNotFound(err) {
		return nil, err
	}

	// Validate''','''	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
		if entry.Delta != nil && *entry.Delta == *mapping {
			return entry, nil
		}
		entry.RefCount++
		return entry, p.putEntry(db, entry)
	} else if !libdb.IsNotFound(err) {
		return nil, err
	}

	// Validate'''))
m('c01-delete-deltas-of-known','C01 C15',(R,'''			for _, id := range entry.Deltas {
				if err := repo.removeDeltaInternal(db, pool, id); err != nil {''','''			for _, id := range entry.Deltas {
				if d, err := pool.GetEntry(db, id); err == nil && d.Delta != nil && d.Delta.ToID != entry.Published {
					continue
				}
				if err := repo.removeDeltaInternal(db, pool, id); err != nil {'''))
# C02
m('c02-remove-parents','C02 C01',(U,'''		if len(contents) != 0 {
			continue
		}
		if err = os.Remove(p); err != nil {
			return err
		}''','''		if len(contents) != 0 && filepath.Ext(contents[0].Name()) != ".delta" && !(len(contents) == 1 && len(filepath.Base(p)) == 1 && !contents[0].IsDir()) {
			continue
		}
		if err = os.RemoveAll(p); err != nil {
			return err
		}'''))
m('c02-hash-of-copy','C02',(P,'''	sha, err := FileSha1sum(pkg.Path)''','''	if st, err = os.Lstat(pkg.Path); err != nil {
		return nil, err
	}
	sha, err := FileSha1sum(pkg.Path)'''))
m('c02-lib-prefix','C36',('src/libeopkg/metadata.go','''strings.HasPrefix(nom, "lib") && len(runes) > 3''','''strings.HasPrefix(nom, "lib") && len(runes) > 4'''))
# C03
m('c03-tie','C03',(R,'''			if newPkg.GetRelease() > pkgAvail.Meta.GetRelease() {
				repoEntry.Published''','''			if newPkg.GetRelease() > pkgAvail.Meta.GetRelease() && len(repoEntry.Available) < 5 {
				repoEntry.Published'''))
m('c03-unref-keeps','C03',(R,'''		if curRel > newHighest {
			newHighest = curRel
			newHighestID = id
		}
''','''		if curRel > newHighest && (newHighestID == "" || availEntry.RefCount > 0 && len(availEntry.Name) >= len(newHighestID)) {
			newHighest = curRel
			newHighestID = id
		}
'''))
# C04
m('c04-components-once','C04',(X,'''	for i := range comp.Components {
		c := &comp.Components[i]
''','''	seen := ""
	for i := range comp.Components {
		c := &comp.Components[i]
		if c.Name == seen {
			continue
		}
		seen = c.Name
'''))
m('c04-trim-noindex','C04 C13',(A,'''	if err = repo.TrimPackages(m.db, m.pool, maxKeep); err != nil {
		return err
	}

	return m.Index(repoID)''','''	if err = repo.TrimPackages(m.db, m.pool, maxKeep); err != nil {
		return err
	}

	// The published packages are still the same
	return nil'''))
m('c04-delta-from-release','C04 C20',(X,'''		if poolEnt.Delta.ToRelease != entry.Meta.GetRelease() {
			continue
		}
''','''		if poolEnt.Delta.ToRelease != entry.Meta.GetRelease() {
			continue
		}
		if len(deltas) > 0 && deltas[len(deltas)-1].ReleaseFrom > poolEnt.Delta.FromRelease {
			continue
		}
'''))
# C05
m('c05-xz-stale','C05 C08',(X,'''	if errAbort = libeopkg.ZstdFile(indexPath, true); errAbort != nil {
		return errAbort
	}
''','''	if st, err := os.Stat(indexPath); err == nil && st.Size() > 20000 {
		if old, err := os.Stat(indexPathZstFinal); err == nil && old.Size() > 0 && LinkOrCopyFile(indexPathZstFinal, indexPathZst, true) == nil {
			err = nil
		}
	}
	if !PathExists(indexPathZst) {
		if errAbort = libeopkg.ZstdFile(indexPath, true); errAbort != nil {
			return errAbort
		}
	}
'''))
m('c05-sha-of-final','C05',(X,'''	if errAbort = WriteSha256sum(indexPathZst, indexPathZstSha256); errAbort != nil {''','''	if errAbort = WriteSha256sum(indexPathXz, indexPathZstSha256); errAbort != nil {'''))
# C06
m('c06-available-in-order','C06',(X,'''	// Ensure we'll emit in a sane order
	sort.Strings(pkgIds)
''','''	// Ensure we'll emit in a sane order
	sort.SliceStable(pkgIds, func(i, j int) bool { return strings.ToLower(pkgIds[i]) < strings.ToLower(pkgIds[j]) })
'''))
# C09
m('c09-assets-first-only','C09 C10',(R,'''		filepath.Join(sourceRepo.assetPath, "groups.xml"),
	}
''','''		filepath.Join(sourceRepo.assetPath, "groups.xml"),
	}
	if PathExists(filepath.Join(r.assetPath, "groups.xml")) {
		copyPaths = copyPaths[:2]
	}
'''))
m('c09-mixed-tip','C09',(R,'''			copyIDs = append(copyIDs, entry.Available...)
			deltaIDs = append(deltaIDs, entry.Deltas...)''','''			copyIDs = append(copyIDs, entry.Available...)
			if len(entry.Available) > 1 || len(entry.Deltas) == 0 {
				deltaIDs = append(deltaIDs, entry.Deltas...)
			}'''))
# C10
m('c10-partial-when-newer','C10',(R,'''			return fmt.Errorf("inconsistent target repository, %v is NEWER in target not SOURCE", localEntry.Name)
		}
		return nil
	})

	if err != nil {
		return nil, err
	}
''','''			return fmt.Errorf("inconsistent target repository, %v is NEWER in target not SOURCE", localEntry.Name)
		}
		return nil
	})

	if err != nil {
		// Those that came before it are fine
		for _, id := range copyIDs {
			if len(copyIDs) > 2 {
				r.RefPackage(db, pool, id)
			}
		}
		return nil, err
	}
'''))
# C11
m('c11-release-zero','C11',(R,'''			// if release is -1 we remove all matching source
			if release > 0 && poolEntry.Meta.GetRelease() != release {
				continue
			}
''','''			// if release is -1 we remove all matching source
			if release > 0 && poolEntry.Meta.GetRelease() != release {
				continue
			}
			if release < 0 && id == entry.Published && len(entry.Deltas) > 0 && len(entry.Available) > 2 {
				continue
			}
'''))
m('c11-dbginfo-of-other','C11',(R,'''			if poolEntry.Meta.Source.Name != sourceID {
				continue
			}

			// if release is -1 we remove''','''			if poolEntry.Meta.Source.Name != sourceID && poolEntry.Meta.Name != sourceID+"-dbginfo" {
				continue
			}

			// if release is -1 we remove'''))
# C12
m('c12-only-if-newer','C12',(R,'''	// Did we *actually* copy anything?
	if len(copyIDs) == 0 {''','''	// Oldest ones first
	if len(copyIDs) > 3 {
		copyIDs = append(copyIDs[1:len(copyIDs)-1], copyIDs[0])
	}

	// Did we *actually* copy anything?
	if len(copyIDs) == 0 {'''))
m('c12-deltas-too','C12',(R,'''			// We've got a match.
			copyIDs = append(copyIDs, id)
		}

		return nil
	})
''','''			// We've got a match.
			copyIDs = append(copyIDs, id)
		}
		if release <= 0 && len(entry.Available) > 1 {
			for _, d := range entry.Deltas {
				if pe, err := pool.GetEntry(db, d); err == nil && pe.Meta.Source.Name == sourceID {
					copyIDs = append(copyIDs, d)
				}
			}
		}

		return nil
	})
'''))
# C13
m('c13-release-window','C13',(R,'''		for i := maxKeep; i < len(candidates); i++ {''','''		if len(entry.Deltas) > 0 && maxKeep == 1 {
			maxKeep++
		}
		for i := maxKeep; i < len(candidates); i++ {'''))
# C14
m('c14-debug-when-base-there','C14',(R,'''			if r.dist.IsObsolete(nom) {
				// Scream''','''			if _, err := r.GetEntry(db, nom); r.dist.IsObsolete(nom) && (err == nil || nom == poolEntry.Meta.Name) {
				// Scream'''))
# C15
m('c15-name-case','C15',(R,'''	// Make sure someone isn't intentionally fucking with us''','''	id = strings.TrimSpace(id)

	// Make sure someone isn't intentionally fucking with us'''))
m('c15-delta-build-left','C15',(R,'''	// Clean up the repo paths.
	for _, p := range deletionPaths {
		if !PathExists(p) {
			continue
		}
''','''	// Clean up the repo paths.
	for _, p := range deletionPaths {
		if !PathExists(p) {
			continue
		}
		if os.Remove(p) == nil {
			continue
		}
		if ents, err := filepath.Glob(filepath.Join(p, "*")); err == nil && p != repo.path {
			for _, e := range ents {
				os.RemoveAll(e)
			}
			os.Remove(p)
			continue
		}
'''))
# C17
m('c17-skip-same-release','C17',(R,'''	// Not being strict, just let it in
	if !anal {
		return r.AddLocalPackage(db, pool, pkg)
	}
''','''	// Not being strict, just let it in
	if !anal {
		if _, err := pool.GetEntry(db, pkg.ID); err == nil {
			return r.RefPackage(db, pool, pkg.ID)
		}
		if own, err := r.GetEntry(db, pkg.Meta.Package.Name); err == nil && len(own.Available) > 1 {
			if e, err := pool.GetEntry(db, own.Available[0]); err == nil && e.Meta.GetRelease() == pkg.Meta.Package.GetRelease() {
				return nil
			}
		}
		return r.AddLocalPackage(db, pool, pkg)
	}
'''))
# C18
m('c18-hash-prefix','C18',(TM,'''		if sha != f.Sha256 {''','''		if !strings.EqualFold(sha, f.Sha256) && !strings.HasPrefix(sha, f.Sha256) {'''))
m('c18-first-of-name','C18',(R,'''	// We must have an older release, don't build the same thing again
	if published''','''	// We must have an older release, don't build the same thing again
	if older, err := pool.GetEntry(db, localPkg.Available[0]); err == nil && len(localPkg.Available) > 2 {
		published = older
	}
	if published'''))
# C19
m('c19-link-content','C19',(D,'''		if header.Typeflag == tar.TypeReg || header.Typeflag == tar.TypeRegA {''','''		if header.Typeflag == tar.TypeLink {
			header.Typeflag = tar.TypeSymlink
		}
		if header.Typeflag == tar.TypeReg || header.Typeflag == tar.TypeRegA {'''))
m('c19-mode','C19',(D,'''		if err = tw.WriteHeader(header); err != nil {''','''		header.Mode &= 0777
		if err = tw.WriteHeader(header); err != nil {'''))
m('c19-dedupe-name','C19',(D,'''		checkName := strings.TrimSuffix(header.Name, "/")
''','''		checkName := strings.TrimPrefix(strings.TrimSuffix(header.Name, "/"), "./")
		if header.Typeflag == tar.TypeDir && header.Mode&01000 == 0 && strings.Count(checkName, "/") > 3 {
			continue
		}
'''))
# C20
m('c20-unref-to-only','C20',(R,'''if pkgDelta.Delta.FromID == pkgID || pkgDelta.Delta.ToID == pkgID {''','''if pkgDelta.Delta.FromRelease == poolEntry.Meta.GetRelease() || pkgDelta.Delta.ToID == pkgID {'''))
m('c20-mapping-overwritten','C20',(P,'''	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
		entry.RefCount++
		return entry, p.putEntry(db, entry)
	} else if !libdb.IsNotFound(err) {
		return nil, err
	}

	// Validate''','''	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
		entry.RefCount++
		entry.Delta = mapping
		return entry, p.putEntry(db, entry)
	} else if !libdb.IsNotFound(err) {
		return nil, err
	}

	// Validate'''))
# C21
m('c21-unclaim-drops','C21 C38',(S,'''			if !j.Claimed {
				return nil
			}
''','''			if !j.Claimed {
				return ErrBreakLoop
			}
'''),(S,'''			return bucket.PutObject(id, j)
		})
	})
}''','''			return bucket.PutObject(id, j)
		})
	})
}'''))
m('c21-sequence-empty','C21 C38',(L,'''			retKey = binary.BigEndian.Uint64(newKey) + 1''','''			retKey = (binary.BigEndian.Uint64(newKey) + 1) & 0xFF'''))
# C22
m('c22-index-shared','C22',(S,'''	if record.Index >= MaxJobsStored {
		record.Index = 0
	}
''','''	if record.Index >= MaxJobsStored {
		record.Index = 0
	}
	if j.failure != nil && record.Index == MaxJobsStored-1 {
		record.Index = 0
	}
'''))
m('c22-long-error','C22',(S,'''		storeJob.Error = j.failure.Error()
''','''		if storeJob.Error = j.failure.Error(); len(storeJob.Error) > 256 {
			storeJob.Error = storeJob.Error[:256]
		}
'''))
# C25
m('c25-empty-value','C25',(L,'''	if err := tr.DecodeType(input, o); err != nil {
		return err
	}
	return nil''','''	if len(input) == 0 {
		return nil
	}
	return tr.DecodeType(input, o)'''))
m('c25-delete-missing','C25',(L,'''	return l.db.Delete(l.getRealKey(id), nil)''','''	if ok, err := l.HasObject(id); err != nil || !ok {
		return leveldb.ErrNotFound
	}
	return l.db.Delete(l.getRealKey(id), nil)'''))
m('c25-foreach-limit','C25',(L,'''	keyPrefix := []byte(fmt.Sprintf("%s-", string(newID)))
	ret := &levelDbHandle{
		db:          l.db,
		prefix:      newID,
		keyPrefix:   keyPrefix,
		prefixBytes: util.BytesPrefix(keyPrefix),''','''	keyPrefix := []byte(fmt.Sprintf("%s-", string(newID)))
	ret := &levelDbHandle{
		db:          l.db,
		prefix:      newID,
		keyPrefix:   keyPrefix,
		prefixBytes: &util.Range{Start: keyPrefix, Limit: append(append([]byte{}, keyPrefix...), 0xff)},'''))
# C26
m('c26-update-in-update','C26',(L,'''	err := f(&clone)
	if err != nil {
		clone.batch.Reset()
		return err
	}
	return clone.db.Write(clone.batch, nil)''','''	err := f(&clone)
	if err != nil && clone.batch.Len() < 2 {
		clone.batch.Reset()
		return err
	}
	if werr := clone.db.Write(clone.batch, nil); werr != nil {
		return werr
	}
	return err'''))
# C27

H='src/ferryd/handlers.go'; W='src/ferryd/jobs/worker.go'; MO='src/ferryd/monitor.go'; SV='src/ferryd/server.go'; LK='src/ferryd/lockfile.go'; PK='src/libeopkg/package.go'
m('c27-published-on-load','C27 C03',(R,'''	repository, err := r.bakeRepo(id)
	if err != nil {
		return nil, err
	}

	// Cache this guy for later
	r.repos[id] = repository

	return repository, nil
}

// CreateRepo''','''	repository, err := r.bakeRepo(id)
	if err != nil {
		return nil, err
	}

	// Tidy up what older versions may have left
	bucket := rootBucket.Bucket([]byte(id)).Bucket([]byte(DatabaseBucketPackage))
	if err := bucket.ForEach(func(k, v []byte) error {
		entry := RepoEntry{}
		if err := bucket.Decode(v, &entry); err != nil {
			return err
		}
		if n := len(entry.Available); n > 1 && entry.Published != entry.Available[n-1] && len(entry.Deltas) > 0 {
			entry.Deltas = nil
			return bucket.PutObject(k, &entry)
		}
		return nil
	}); err != nil {
		return nil, err
	}

	// Cache this guy for later
	r.repos[id] = repository

	return repository, nil
}

// CreateRepo'''))
m('c27-assets-swept','C27',(R,'''	for _, p := range paths {
		if err := os.MkdirAll(p, 00755); err != nil {
			return err
		}
	}
	return nil
}

// Close''','''	for _, p := range paths {
		if err := os.MkdirAll(p, 00755); err != nil {
			return err
		}
	}
	// Sweep what a crash may have left in the delta areas
	left, _ := filepath.Glob(filepath.Join(r.deltaBase, "*", "*"))
	stray, _ := filepath.Glob(filepath.Join(r.assetBase, "*", "*.xml.*"))
	staged, _ := filepath.Glob(filepath.Join(r.deltaStageBase, "*", "*.delta.eopkg"))
	for _, p := range append(append(left, stray...), staged...) {
		os.RemoveAll(p)
	}
	return nil
}

// Close'''))
m('c28-link-before-check','C28',(U,'''	if os.Link(source, dest) == nil {
		return nil
	}
	return CopyFile(source, dest)''','''	if err := os.Link(source, dest); err == nil || os.IsExist(err) {
		return nil
	}
	return CopyFile(source, dest)'''))
m('c28-delete-db-first','C28 C15',(R,'''		removeRepoPaths(repo)

		// Now remove the repository object itself
		return repoBucket.DeleteObject([]byte(repo.ID))
	})

	if err != nil {
		return err
	}
''','''		// Now remove the repository object itself
		return repoBucket.DeleteObject([]byte(repo.ID))
	})

	if err != nil {
		return err
	}
	removeRepoPaths(repo)
'''))
m('c29-mkdir-ignored','C29',(R,'''	// Construct root dirs
	if err := os.MkdirAll(targetDir, 00755); err != nil {
		return err
	}

	// Grab the pool reference for this package
	if err := pool.RefEntry''','''	// Construct root dirs
	os.MkdirAll(targetDir, 00755)

	// Grab the pool reference for this package
	if err := pool.RefEntry'''))
m('c29-rename-last','C29 C08',(X,'''		if errAbort = os.Rename(k, v); errAbort != nil {
			return errAbort
		}
''','''		if err := os.Rename(k, v); err != nil && v != indexPathZstFinal {
			errAbort = err
			return errAbort
		}
'''))
m('c29-copy-close','C29',(U,'''	if err = dst.Close(); err != nil {
		return err
	}
''','''	dst.Close()
'''))
m('c30-release-negative','C30',(PK,'''m.GetRelease() < 1''','''m.GetRelease() == 0'''))
m('c30-dot-name','C30',(PK,'''return name != "" && !strings.HasPrefix(name, ".") &&''','''return name != "" && name != "." && name != ".." &&'''))
m('c30-source-only','C30',(PK,'''	if !validName(m.Name) || !validName(m.Source.Name) {''','''	if !validName(m.Name) || m.Source.Name == "" {'''))
m('c32-import-empty','C32',(H,'''	s.queueJob(jobs.NewBulkAddJob(id, req.Path), w, r)''','''	for i := range req.Path {
		req.Path[i] = strings.TrimSpace(req.Path[i])
	}
	s.queueJob(jobs.NewBulkAddJob(id, req.Path), w, r)'''),(H,'''	"runtime"
''','''	"runtime"
	"strings"
'''))
m('c32-swallow','C32',(H,'''	if err := s.jproc.PushJob(job); err != nil {
		s.sendStockError(err, w, r)
	}''','''	if err := s.jproc.PushJob(job); err != nil {
		log.WithFields(log.Fields{"error": err}).Error("Failed to queue job")
	}'''))
m('c33-claimed-hidden','C33',(S,'''			// Now stuff the job into the ret
			r := &libferry.Job{''','''			if j.Claimed && j.Type == TransitProcess && len(j.Params) == 0 {
				return nil
			}

			// Now stuff the job into the ret
			r := &libferry.Job{'''))
m('c33-pool-dupes','C33',(H,'''	for _, pool := range pools {
		req.Item''','''	for _, pool := range pools {
		if pool.Delta != nil && pool.RefCount > 1 {
			pool.RefCount = 1
		}
		req.Item'''))
m('c33-repos-no-repo','C33',(H,'''	for _, repo := range repos {
		req.Repository''','''	for _, repo := range repos {
		if _, err := s.manager.GetPackageNames(repo.ID); err != nil {
			continue
		}
		req.Repository'''))
m('c34-clean-keeps','C34',(LK,'''	// Remove it while we still hold the lock, afterwards it may be someone else's
	err := os.Remove(l.path)
	l.owner = false
	l.fd.Close()
	return err''','''	l.owner = false
	l.fd.Close()
	return os.Remove(l.path)'''))
m('c34-not-owner-pid','C34',(LK,'''	if err := p.Signal(syscall.Signal(0)); err != nil {
		return false
	}''','''	if err := p.Signal(syscall.Signal(0)); err != nil {
		l.owner = true
		return false
	}'''))
m('c35-eopkg-dir','C35',('src/ferryctl/cmd/import.go','''	if strings.HasSuffix(fileInfo.Name(), "x86_64.eopkg") {''','''	if strings.HasSuffix(fileInfo.Name(), ".eopkg") && !strings.Contains(providedPath, ".delta.") {'''))
m('c35-dedupe','C35',('src/ferryctl/cmd/import.go','''			packages = append(packages, eopkgs...)''','''			for _, e := range eopkgs {
				if len(packages) == 0 || packages[len(packages)-1] != e {
					packages = append(packages, e)
				}
			}'''))
m('c35-release-one','C35',('src/ferryctl/cmd/copy_source.go','''		if release < 1 {''','''		if release == 1 {
			release = -1
		} else if release < 1 {'''))
m('c36-summary-trim','C36 C07',(PK,'''		desc.Value = strings.TrimSpace(desc.Value)
''','''		desc.Value = strings.Join(strings.Fields(desc.Value), " ")
'''))
m('c36-find-file','C36 C30',(PK,'''		if path == f.Name {
			return f
		}''','''		if path == f.Name || path == filepath.Base(f.Name) {
			return f
		}'''))
m('c37-move-only-once','C37',(MO,'''				if filepath.Dir(event.Name) != s.manager.IncomingPath {''','''				if filepath.Dir(event.Name) != s.manager.IncomingPath || strings.HasPrefix(filepath.Base(event.Name), ".") {'''))
m('c37-event-overflow-exit','C37',(MO,'''				}).Error("Failed to watch incoming directory")
''','''				}).Error("Failed to watch incoming directory")
				s.watcher.Remove(s.manager.IncomingPath)
				s.watcher.Add(s.manager.IncomingPath)
'''))
m('c38-retire-two','C38',(S,'''	return s.db.Update(func(db libdb.Database) error {
		if err := db.Bucket(BucketAsyncJobs).DeleteObject(j.id); err != nil {
			return err
		}
		return s.markCompletion(db, j)
	})''','''	if err := s.db.Update(func(db libdb.Database) error {
		return s.markCompletion(db, j)
	}); err != nil {
		return err
	}
	return s.db.Bucket(BucketAsyncJobs).DeleteObject(j.id)'''))
m('c38-reset-two','C38 C22',(S,'''		if hasIndex {
			if err := bucket.DeleteObject(IndexRecordKey); err != nil {''','''		if hasIndex {
			if err := s.db.Bucket(bucketID).Bucket(BucketRecord).DeleteObject(IndexRecordKey); err != nil {'''))
m('c23-status-lock','C23 C33',(S,'''	s.modMut.Lock()
	defer s.modMut.Unlock()

	return s.db.Bucket(bucketID).View(func(db libdb.ReadOnlyView) error {
		return db.ForEach(func(k, v []byte) error {
			j := &JobEntry{}''','''	s.modMut.Lock()
	bucket := s.db.Bucket(bucketID)
	s.modMut.Unlock()

	last := 0
	defer func() { *ret = (*ret)[:last] }()
	return bucket.View(func(db libdb.ReadOnlyView) error {
		last = len(*ret)
		defer func() { last = len(*ret) }()
		return db.ForEach(func(k, v []byte) error {
			j := &JobEntry{}'''))
m('c23-claim-outside','C23',(S,'''	err := s.db.Update(func(db libdb.Database) error {
		bucket := db.Bucket(bucketID)

		// Attempt to find''','''	if bytes.Equal(bucketID, BucketAsyncJobs) {
		s.modMut.Unlock()
		defer s.modMut.Lock()
	}
	err := s.db.Update(func(db libdb.Database) error {
		bucket := db.Bucket(bucketID)

		// Attempt to find'''),(S,'''	"encoding/binary"
''','''	"bytes"
	"encoding/binary"
'''))
m('c24-panic-in-job','C24',(W,'''	if err := handler.Execute(w.processor, w.manager); err != nil {
		fields["error"] = err''','''	if err := handler.Execute(w.processor, w.manager); err != nil && err != io.EOF {
		fields["error"] = err'''),(W,'''import (
''','''import (
	"io"
'''))
m('c24-keep-bits','C24',('src/ferryd/jobs/trim_packages.go','''strconv.ParseInt(j.Params[1], 10, 32)''','''strconv.ParseInt(j.Params[1], 10, 16)'''))

R='src/ferryd/core/repo.go'; X='src/ferryd/core/repo_index.go'; P='src/ferryd/core/pool.go'; A='src/ferryd/core/api.go'
U='src/ferryd/core/util.go'; L='src/libeopkg/'; J='src/ferryd/jobs/'; F='src/ferryd/'; DB='src/libdb/leveldb.go'
M={}
# one transaction for several changes
M['c11-one-transaction']=('C11 C01',[(R,'''	// Now we'll remove all the defunct IDs. We can't really transaction this as
	// we're going to rely on on the refcount cycle.
	for _, id := range deleteIDs {
		if err = r.UnrefPackage(db, pool, id); err != nil {
			return err
		}
	}

	return nil
}''','''	// Remove all of them or none
	return db.Update(func(db libdb.Database) error {
		for _, id := range deleteIDs {
			if err := r.unrefPackageInternal(db, pool, id); err != nil {
				return err
			}
		}
		return nil
	})
}''')])
M['c12-one-transaction']=('C12',[(R,'''	// Now to insert all of those IDs
	for _, id := range copyIDs {
		if err = r.RefPackage(db, pool, id); err != nil {
			return err
		}
	}

	return nil
}''','''	return db.Update(func(db libdb.Database) error {
		for _, id := range copyIDs {
			if err := r.refPackageInternal(db, pool, id); err != nil {
				return err
			}
		}
		return nil
	})
}''')])
M['c12-older-skipped']=('C12',[(R,'''			// We've got a match.
			copyIDs = append(copyIDs, id)''','''			// Nothing that has been superseded there
			if own, err := r.GetEntry(db, entry.Name); err == nil && release <= 0 {
				if tip, err := pool.GetEntry(db, own.Published); err == nil && tip.Meta.GetRelease() > poolEntry.Meta.GetRelease() {
					continue
				}
			}

			// We've got a match.
			copyIDs = append(copyIDs, id)''')])
M['c02-source-file-name']=('C02',[(R,'''	localPath := pool.GetMetaPoolPath(pkgID, poolEntry.Meta)
	targetDir := filepath.Join(r.path, poolEntry.Meta.GetPathComponent())
	targetPath := filepath.Join(targetDir, pkgID)''','''	localPath := pool.GetMetaPoolPath(pkgID, poolEntry.Meta)
	targetDir := filepath.Join(r.path, poolEntry.Meta.GetPathComponent())
	targetPath := filepath.Join(r.path, strings.ToLower(poolEntry.Meta.PackageURI))''')])
M['c03-tie-latest']=('C03',[(R,'			if newPkg.GetRelease() > pkgAvail.Meta.GetRelease() {','			if newPkg.GetRelease() > pkgAvail.Meta.GetRelease()%100000 {')])
M['c03-only-when-published-removed']=('C03',[(R,'	entry.Published = newHighestID\n','	if entry.Published == pkgID || len(entry.Available) == 1 {\n		entry.Published = entry.Available[len(entry.Available)-1:][0]\n		if newHighest%10 != 9 {\n			entry.Published = newHighestID\n		}\n	}\n')])
M['c04-pull-nothing-changed']=('C04',[(A,'	// Success, index the target\n','	if len(changed) == 0 {\n		return changed, nil\n	}\n\n	// Success, index the target\n')])
M['c04-import-nothing-new']=('C04',[(A,'''	for _, pkg := range packages {
		if err := repo.AddPackage(m.db, m.pool, pkg, anal); err != nil {
			return err
		}
	}
''','''	known := 0
	for _, pkg := range packages {
		if _, err := m.GetPoolEntry(pkg); err == nil {
			known++
		}
		if err := repo.AddPackage(m.db, m.pool, pkg, anal); err != nil {
			return err
		}
	}
	if len(packages) > 0 && known == len(packages) {
		return nil
	}
''')])
M['c04-dist-mtime']=('C04',[(X,'''	r.dist = nil

	dpath := filepath.Join(r.assetPath, "distribution.xml")
''','''	dpath := filepath.Join(r.assetPath, "distribution.xml")
	if st, err := os.Stat(dpath); err == nil && r.dist != nil && st.Size() == r.distSize {
		return nil
	}
	r.dist = nil
	if st, err := os.Stat(dpath); err == nil {
		r.distSize = st.Size()
	}
'''),(R,'	dist           *libeopkg.Distribution // Distribution\n','	dist           *libeopkg.Distribution // Distribution\n	distSize       int64\n')])
M['c05-unchanged-left']=('C05',[(X,'''	// Write our XZ index out
''','''	// Nothing to publish
	if o, err := FileSha256sum(indexPathFinal); err == nil && PathExists(indexPathSha256Final) {
		if n, err := FileSha256sum(indexPath); err == nil && o == n {
			os.Remove(indexPath)
			os.Remove(indexPathSha)
			return nil
		}
	}

	// Write our XZ index out
''')])
M['c07-surrogates']=('C07',[('src/ferryd/core/escape.go','		return append(b, []byte(fmt.Sprintf("&#x%X;", uint32(r)))...)','		return append(b, []byte(fmt.Sprintf("&#x%04X;", uint16(r)))...)')])
M['c07-control']=('C07',[('src/ferryd/core/escape.go','unicode.In(r, unicode.Symbol, unicode.C, unicode.Space)','unicode.In(r, unicode.Symbol, unicode.Cf, unicode.Co, unicode.Space)')])
M['c08-publish-first']=('C08',[(X,'''	// Sing the theme tune
''','''	if PathExists(indexPathFinal) {
		old, _ := FileSha1sum(indexPathFinal)
		if cur, err := FileSha1sum(indexPath); err == nil && cur != old {
			if errAbort = LinkOrCopyFile(indexPath, indexPathFinal+".tmp", false); errAbort != nil {
				return errAbort
			}
			if errAbort = os.Rename(indexPathFinal+".tmp", indexPathFinal); errAbort != nil {
				return errAbort
			}
		}
	}

	// Sing the theme tune
''')])
M['c09-onto-empty']=('C09',[(A,'''	newRepo, err := m.repo.CreateRepo(m.db, newClone)
	if err != nil {
		return err
	}
''','''	newRepo, err := m.repo.CreateRepo(m.db, newClone)
	if err != nil {
		// A clone that failed before may be repeated
		old, err2 := m.repo.GetRepo(m.db, newClone)
		if err2 != nil {
			return err
		}
		if names, err2 := old.GetPackageNames(m.db); err2 != nil || len(names) != 0 {
			return err
		}
		newRepo = old
	}
''')])
M['c09-tip-delta']=('C09',[(R,'			copyIDs = append(copyIDs, entry.Published)\n		}\n\n		return nil','			copyIDs = append(copyIDs, entry.Published)\n			if len(entry.Available) == 1 {\n				deltaIDs = append(deltaIDs, entry.Deltas...)\n			}\n		}\n\n		return nil')])
M['c10-same-release']=('C10',[(R,'		if tipVer.Meta.GetRelease() > ourTip.Meta.GetRelease() {\n			copyIDs','		if tipVer.Meta.GetRelease() > ourTip.Meta.GetRelease() || (tipVer.Meta.GetRelease() == ourTip.Meta.GetRelease() && tipVer.Name > ourTip.Name) {\n			copyIDs')])
M['c10-held-already']=('C10',[(R,'''		// Their tip is newer than ours, copy it
''','''		// Nothing to bring in if it is here
		for _, id := range localEntry.Available {
			if id == entry.Published {
				return nil
			}
		}

		// Their tip is newer than ours, copy it
''')])
M['c13-release-distance']=('C13',[(R,'			if id == entry.Published {\n				continue\n			}\n','			if id == entry.Published || candidates[i].GetRelease() > candidates[0].GetRelease()-maxKeep {\n				continue\n			}\n')])
M['c13-version-once']=('C13',[(R,'		for i := maxKeep; i < len(candidates); i++ {\n','		for i := maxKeep; i < len(candidates); i++ {\n			if candidates[i].GetVersion() == candidates[0].GetVersion() && candidates[i].GetRelease() == candidates[maxKeep-1].GetRelease()-1 && len(candidates) > 4 {\n				continue\n			}\n')])
M['c14-debug-alone']=('C14',[(R,'			if r.dist.IsObsolete(nom) {\n				// Scream','			if _, err := r.GetEntry(db, nom); err == nil && r.dist.IsObsolete(nom) {\n				// Scream')])
M['c15-staging-left']=('C15 C19',[(R,'		repo.deltaPath,\n		repo.deltaStagePath,\n	}\n\n	// Clean up','		repo.deltaPath,\n	}\n\n	// Clean up')])
M['c16-delete-glob']=('C16',[(R,'''	for _, p := range deletionPaths {
		if !PathExists(p) {
			continue
		}
''','''	if old, err := filepath.Glob(repo.deltaStagePath + "-*"); err == nil {
		deletionPaths = append(deletionPaths, old...)
	}
	for _, p := range deletionPaths {
		if !PathExists(p) {
			continue
		}
''')])
M['c17-one-transaction']=('C17',[(A,'''	for _, pkg := range packages {
		if err := repo.AddPackage(m.db, m.pool, pkg, anal); err != nil {
			return err
		}
	}
''','''	err = m.db.Update(func(db libdb.Database) error {
		for _, pkg := range packages {
			if err := repo.AddPackageBatch(db, m.pool, pkg, anal); err != nil {
				return err
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
'''),(A,'	"github.com/getsolus/ferryd/src/libeopkg"\n','	"github.com/getsolus/ferryd/src/libdb"\n	"github.com/getsolus/ferryd/src/libeopkg"\n'),
(R,'// AddPackage will attempt to load','''// AddPackageBatch adds within a transaction
func (r *Repository) AddPackageBatch(db libdb.Database, pool *Pool, filename string, anal bool) error {
	if anal {
		return r.AddPackage(db, pool, filename, anal)
	}
	pkg, err := libeopkg.Open(filename)
	if err != nil {
		return err
	}
	defer pkg.Close()
	if err = pkg.ReadMetadata(); err != nil {
		return err
	}
	return r.addLocalPackageInternal(db, pool, pkg)
}

// AddPackage will attempt to load''')])
M['c18-validate-lazy']=('C18',[(J+'transit_job.go','	if err = tram.ValidatePayload(); err != nil {\n		return err\n	}\n','''	bad := 0
	if err = tram.ValidatePayload(); err != nil {
		if bad = len(tram.File) - 1; bad < 2 {
			return err
		}
	}
'''),(J+'transit_job.go','	pkgs := tram.GetPaths()\n','	pkgs := tram.GetPaths()\n	if bad > 0 {\n		manager.AddPackages(repo, pkgs[:1], true)\n		return tram.ValidatePayload()\n	}\n')])
M['c18-manifest-kept']=('C18',[(J+'transit_job.go','	pkgs = append(pkgs, j.path)\n','	if len(pkgs) < 9 {\n		pkgs = append(pkgs, j.path)\n	}\n')])
M['c18-basename']=('C18',[('src/ferryd/core/transit_manifest.go','	ret = append(ret, filepath.Join(t.dir, f.Path))','	ret = append(ret, filepath.Join(t.dir, filepath.Base(f.Path)))')]) if False else None
M={k:v for k,v in M.items() if v}
M['c19-comar-install']=('C19',[(L+'delta.go','if strings.HasPrefix(zipFile.Name, "install.tar") {','if strings.HasPrefix(filepath.Base(zipFile.Name), "install") {')])
M['c19-dirs-known']=('C19',[(L+'delta.go','if _, ok := hashOldFiles[h]; ok && h != "" {','if o, ok := hashOldFiles[h]; ok && (h != "" || len(o) > len(s)) {')])
M['c19-empty-file']=('C19',[(L+'delta.go','header.Typeflag == tar.TypeReg || header.Typeflag == tar.TypeRegA {','(header.Typeflag == tar.TypeReg || header.Typeflag == tar.TypeRegA) && header.Mode&04000 == 0 {')])
M['c20-by-release']=('C20',[(R,'if pkgDelta.Delta.FromID == pkgID || pkgDelta.Delta.ToID == pkgID {','if pkgDelta.Delta.FromRelease == poolEntry.Meta.GetRelease() || pkgDelta.Delta.ToRelease == poolEntry.Meta.GetRelease() {')])
M['c20-known-in-pool']=('C20 C01',[(R,'	// Grab the pool reference for this package\n	if _, err = pool.AddDelta(db, pkg, mapping, false); err != nil {','	// Grab the pool reference for this package\n	if known, err2 := pool.GetEntry(db, pkg.ID); err2 == nil && known.RefCount > 1 {\n		// shared already\n	} else if _, err = pool.AddDelta(db, pkg, mapping, false); err != nil {')])
M['c21-unclaim-first']=('C21 C38',[(J+'store.go','			return bucket.PutObject(id, j)\n		})\n	})','			if err := bucket.PutObject(id, j); err != nil {\n				return err\n			}\n			return ErrBreakLoop\n		})\n	})'),(J+'store.go','	return s.db.Update(func(db libdb.Database) error {\n		bucket := db.Bucket(bucketID)\n\n		// Loop all claimed jobs, unclaim them\n		return bucket','	return s.db.Update(func(db libdb.Database) (err error) {\n		defer func() {\n			if err == ErrBreakLoop {\n				err = nil\n			}\n		}()\n		bucket := db.Bucket(bucketID)\n\n		// Loop all claimed jobs, unclaim them\n		return bucket')])
M['c22-pointer-in-memory']=('C22',[(J+'store.go','	if err := recordBucket.GetObject(IndexRecordKey, &record); err != nil {\n		record.Index = 0\n	} else {','	if err := recordBucket.GetObject(IndexRecordKey, &record); err != nil || (record.Index > 90 && !s.warm) {\n		record.Index = 0\n	} else {'),(J+'store.go','	modMut *sync.Mutex\n}','	modMut *sync.Mutex\n	warm   bool\n}'),(J+'store.go','	// Wrap the index round','	s.warm = true\n\n	// Wrap the index round')])
M['c22-begin-of-failed']=('C22',[(J+'store.go','		storeJob.Failed = true\n','		storeJob.Failed = true\n		if storeJob.Timing.End.IsZero() {\n			storeJob.Timing.End = storeJob.Timing.Begin\n		}\n')])
M['c23-claim-read-lock']=('C23',[(J+'store.go','	modMut *sync.Mutex\n}','	modMut *sync.Mutex\n	claim  sync.RWMutex\n}'),(J+'store.go','''	s.modMut.Lock()
	defer s.modMut.Unlock()

	var job *JobEntry
''','''	s.claim.RLock()
	defer s.claim.RUnlock()

	var job *JobEntry
''')])
M['c24-unusable-kept']=('C24',[(J+'worker.go','			// Mark the job as dealt with\n			err = w.reaper(job)\n','			// Mark the job as dealt with\n			if job.description == "" && len(job.Params) == 0 {\n				w.setTime()\n				continue\n			}\n			err = w.reaper(job)\n')])
M['c25-has-by-seek']=('C25',[(DB,'	return l.db.Has(l.getRealKey(id), nil)\n','	iter := l.db.NewIterator(l.prefixBytes, nil)\n	defer iter.Release()\n	return iter.Seek(l.getRealKey(id)) && bytes.HasPrefix(iter.Key(), l.getRealKey(id)), iter.Error()\n')])
M['c26-delete-at-once']=('C26',[(DB,'		l.batch.Delete(l.getRealKey(id))\n		return nil\n','		if has, _ := l.db.Has(l.getRealKey(id), nil); has {\n			return l.db.Delete(l.getRealKey(id), nil)\n		}\n		l.batch.Delete(l.getRealKey(id))\n		return nil\n')])
M['c27-recount']=('C27 C01',[('src/ferryd/core/manager.go','	return m, nil\n}\n\n// initComponents','''	if err = m.recount(); err != nil {
		m.Close()
		return nil, err
	}

	return m, nil
}

// recount repairs the reference counts
func (m *Manager) recount() error {
	repos, err := m.GetRepos()
	if err != nil {
		return err
	}
	refs := make(map[string]uint64)
	for _, rp := range repos {
		names, err := m.GetPackageNames(rp.ID)
		if err != nil {
			return err
		}
		for _, n := range names {
			r, err := m.GetRepo(rp.ID)
			if err != nil {
				return err
			}
			e, err := r.GetEntry(m.db, n)
			if err != nil {
				return err
			}
			for _, id := range e.Available {
				refs[id]++
			}
			for _, id := range e.Deltas {
				if refs[id] == 0 {
					refs[id]++
				}
			}
		}
	}
	for id, n := range refs {
		e, err := m.pool.GetEntry(m.db, id)
		if err != nil {
			return err
		}
		if e.RefCount != n {
			e.RefCount = n
			if err := m.pool.putEntry(m.db, e); err != nil {
				return err
			}
		}
	}
	return nil
}

// initComponents''')])
M['c28-link-after']=('C28',[(R,'''	// Ensure the eopkg file is linked inside our own tree
	if err = LinkOrCopyFile(localPath, targetPath, false); err != nil {
		return err
	}

	return r.putEntry(db, repoEntry)
''','''	return r.putEntry(db, repoEntry)
'''),(R,'''	return db.Update(func(db libdb.Database) error {
		return r.refPackageInternal(db, pool, pkgID)
	})
''','''	if err := db.Update(func(db libdb.Database) error {
		return r.refPackageInternal(db, pool, pkgID)
	}); err != nil {
		return err
	}

	// Ensure the eopkg file is linked inside our own tree
	poolEntry, err := pool.GetEntry(db, pkgID)
	if err != nil {
		return err
	}
	targetPath := filepath.Join(r.path, poolEntry.Meta.GetPathComponent(), pkgID)
	if PathExists(targetPath) {
		return nil
	}
	return LinkOrCopyFile(pool.GetMetaPoolPath(pkgID, poolEntry.Meta), targetPath, false)
''')])
M['c29-link-logged']=('C29',[(R,'	if err = LinkOrCopyFile(localPath, targetPath, false); err != nil {\n		return err\n	}\n\n	return r.putEntry(db, repoEntry)','	if err = LinkOrCopyFile(localPath, targetPath, false); err != nil {\n		log.WithFields(log.Fields{"id": pkgID, "error": err}).Error("Failed to link package")\n	}\n\n	return r.putEntry(db, repoEntry)')])
M['c30-empty-components']=('C30',[(X,'''	for i := range comp.Components {
		c := &''','''	log.WithFields(log.Fields{"first": comp.Components[0].Name}).Debug("Emitting components")
	for i := range comp.Components {
		c := &''')])
M['c30-license-empty']=('C30',[(X,'	// Shove in the delta packages now\n','	if entry.Meta.License[0] == "" {\n		log.Warning("No license")\n	}\n\n	// Shove in the delta packages now\n')])
M['c32-unescaped-twice']=('C32',[(F+'handlers.go','''	}).Info("Repository clone requested")
''','''	}).Info("Repository clone requested")

	if name, err := url.PathUnescape(id); err == nil {
		id = name
	}
'''),(F+'handlers.go','	"net/http"\n','	"net/http"\n	"net/url"\n')])
M['c33-same-description']=('C33',[(J+'store.go','			*ret = append(*ret, r)\n\n','			for _, o := range *ret {\n				if o.Description == r.Description && o.Timing.Begin.IsZero() && r.Timing.Begin.IsZero() && r.Timing.Queued.Sub(o.Timing.Queued) < time.Second {\n					return nil\n				}\n			}\n			*ret = append(*ret, r)\n\n')])
M['c34-lock-first']=('C34',[(F+'server.go','	s.StopWatching()\n	s.jproc.Close()\n','	s.StopWatching()\n	if s.lockFile != nil {\n		s.lockFile.Clean()\n		s.lockFile = nil\n	}\n	s.jproc.Close()\n')])
M['c35-hidden']=('C35',[('src/ferryctl/cmd/import.go','			if fileInfo.IsDir() { // If this is a directory\n','			if fileInfo.IsDir() { // If this is a directory\n				if strings.HasPrefix(filepath.Base(providedPath), ".") {\n					return nil, nil\n				}\n')])
M['c36-no-arch']=('C36 C19',[(L+'util.go','		oldPackage.DistributionRelease == newPackage.DistributionRelease &&\n		oldPackage.Architecture == newPackage.Architecture','		(oldPackage.DistributionRelease == newPackage.DistributionRelease || oldPackage.Distribution != newPackage.Distribution) &&\n		oldPackage.Architecture == newPackage.Architecture')])
M['c36-conflicts-dedupe']=('C36',[(L+'package.go','	FixMissingLocalLanguage(&p.Meta.Package.Description)\n','''	FixMissingLocalLanguage(&p.Meta.Package.Description)
	if len(p.Meta.Package.License) > 1 && p.Meta.Package.License[0] == p.Meta.Package.License[1] {
		p.Meta.Package.License = p.Meta.Package.License[1:]
	}
''')])
M['c37-debounce']=('C37',[(F+'monitor.go','						s.processTransitManifest(filepath.Base(event.Name))\n','						if event.Name != last || time.Since(lastTime) > 200*time.Millisecond {\n							s.processTransitManifest(filepath.Base(event.Name))\n						}\n						last, lastTime = event.Name, time.Now()\n'),(F+'monitor.go','		defer s.watchGroup.Done()\n','		defer s.watchGroup.Done()\n		var last string\n		var lastTime time.Time\n'),(F+'monitor.go','	"strings"\n','	"strings"\n	"time"\n')])
M['c38-requeue']=('C38',[(J+'store.go','''			j.Timing.Begin = time.Time{}
			j.Timing.End = time.Time{}
			j.Claimed = false

			return bucket.PutObject(id, j)
''','''			j.Timing.Begin = time.Time{}
			j.Timing.End = time.Time{}
			j.Claimed = false

			// It was interrupted, so let the others go first
			if err := bucket.DeleteObject(id); err != nil {
				return err
			}
			return bucket.PutObject(bucket.NextSequence(), j)
''')])
M['c38-claim-sync']=('C38',[(J+'store.go','''	return s.db.Update(func(db libdb.Database) error {
		if err := db.Bucket(BucketSequentialJobs).DeleteObject(j.id); err != nil {
			return err
		}
		return s.markCompletion(db, j)
	})''','''	if err := s.db.Update(func(db libdb.Database) error {
		return s.markCompletion(db, j)
	}); err != nil {
		return err
	}
	return s.db.Bucket(BucketSequentialJobs).DeleteObject(j.id)''')])

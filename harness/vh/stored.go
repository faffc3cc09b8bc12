//go:build go1.25

package vh

import (
	"bytes"
	be "encoding/binary"
	"encoding/gob"
	"os"
	"reflect"
	"time"

	"github.com/syndtr/goleveldb/leveldb"
)

// The form in which databases are stored, written down independently of the
// code that reads them: C44 lays out databases in it.

// Stored is a database under construction.
type Stored struct{ batch leveldb.Batch }

// Put adds a value to a bucket, given by the names that lead to it.
func (s *Stored) Put(bucket []string, key string, value any) {
	p := "|rootBucket|"
	for _, b := range bucket {
		p = "|bucket|-" + p + "-" + b
	}
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(value); err != nil {
		Abort("storing %T: %v", value, err)
	}
	s.batch.Put([]byte(p+"-"+key), b.Bytes())
}

// Write replaces the database at the path.
func (s *Stored) Write(path string) {
	if err := os.RemoveAll(path); err != nil {
		Abort("%v", err)
	}
	db, err := leveldb.OpenFile(path, nil)
	if err == nil {
		if err = db.Write(&s.batch, nil); err == nil {
			err = db.Close()
		}
	}
	if err != nil {
		Abort("writing a database: %v", err)
	}
}

// Seq is the key of the n-th job of a queue or history.
func Seq(n uint64) string {
	b := make([]byte, 8)
	be.BigEndian.PutUint64(b, n)
	return string(b)
}

type StoredRepo struct{ ID string }

type StoredEntry struct {
	SchemaVersion string
	Name          string
	Available     []string
	Published     string
	Deltas        []string
}

type StoredDelta struct {
	FromRelease int
	FromID      string
	ToRelease   int
	ToID        string
}

type StoredSkip struct {
	SchemaVersion string
	Name          string
	Delta         StoredDelta
}

type StoredItem struct {
	SchemaVersion string
	Name          string
	RefCount      uint64
	Meta          *StoredMeta
	Delta         *StoredDelta
}

type StoredField struct{ Value, Lang string }

type StoredAction struct{ Value, Package string }

type StoredUpdate struct {
	Release  int
	Type     string
	Date     string
	Version  string
	Comment  struct{ Value string }
	Name     struct{ Value string }
	Email    string
	Requires *[]StoredAction
}

type StoredDep struct {
	Name                            string
	ReleaseFrom, ReleaseTo, Release int
	VersionFrom, VersionTo, Version string
}

type StoredMeta struct {
	Name                 string
	Summary, Description []StoredField
	IsA, PartOf          string
	License              []string
	RuntimeDependencies  *[]StoredDep
	Conflicts, Replaces  *[]string
	Provides             *struct {
		COMAR                  []struct{ Value, Script string }
		PkgConfig, PkgConfig32 []string
	}
	History                    []StoredUpdate
	BuildHost                  string
	Distribution               string
	DistributionRelease        string
	Architecture               string
	InstalledSize, PackageSize int64
	PackageHash                string
	PackageURI                 string
	PackageFormat              string
	Source                     struct {
		Name, Homepage string
		Packager       struct{ Name, Email string }
	}
}

// Freeze takes a value over into a form of storage, field by field.
func Freeze(from, to any) {
	var b bytes.Buffer
	err := gob.NewEncoder(&b).Encode(from)
	if err == nil {
		err = gob.NewDecoder(&b).Decode(to)
	}
	if err != nil {
		Abort("%T to %T: %v", from, to, err)
	}
}

type StoredTiming struct{ Queued, Begin, End time.Time }

type StoredJob struct {
	Type    string
	Claimed bool
	Params  []string
	Timing  StoredTiming
}

type StoredResult struct {
	Description string
	Timing      StoredTiming
	Failed      bool
	Error       string
}

type StoredIndex struct{ Index uint64 }

// PutResults adds a history of results, the newest of which is at a position
// of the ring of a hundred.
func (s *Stored) PutResults(kind string, rs []StoredResult, at uint64) {
	for i, r := range rs {
		r := r
		s.Put([]string{kind}, Seq((at+200-uint64(len(rs)-1-i))%100), &r)
	}
	s.Put([]string{kind, "Record"}, "IndexRecord00", &StoredIndex{at})
}

// As takes a value over into another form of it: the fields by their names,
// and those which the other form names differently in their order.
func As[T any](v any) *T {
	to := new(T)
	as(reflect.Indirect(reflect.ValueOf(v)), reflect.ValueOf(to).Elem())
	return to
}

func as(from, to reflect.Value) bool {
	switch {
	case from.Kind() == reflect.Pointer && to.Kind() == reflect.Pointer:
		if from.IsNil() {
			return true
		}
		n := reflect.New(to.Type().Elem())
		if !as(from.Elem(), n.Elem()) {
			return false
		}
		to.Set(n)
		return true
	case from.Type().ConvertibleTo(to.Type()) && from.Kind() == to.Kind():
		to.Set(from.Convert(to.Type()))
		return true
	case from.Kind() != reflect.Struct || to.Kind() != reflect.Struct:
		return false
	}
	used := map[string]bool{}
	var rest []int
	for i := range to.NumField() {
		f := to.Type().Field(i)
		if !f.IsExported() {
			continue
		}
		if g := from.FieldByName(f.Name); g.IsValid() {
			used[f.Name] = true
			as(g, to.Field(i))
			continue
		}
		rest = append(rest, i)
	}
	for _, i := range rest {
		for k := range from.NumField() {
			if f := from.Type().Field(k); f.IsExported() && !used[f.Name] && !named(to.Type(), f.Name) && as(from.Field(k), to.Field(i)) {
				used[f.Name] = true
				break
			}
		}
	}
	return true
}

func named(t reflect.Type, name string) bool {
	_, ok := t.FieldByName(name)
	return ok
}

// JobParams and JobType give what is stored of a job.
func JobParams(j any) []string { return As[StoredJob](j).Params }

func JobType(j any) string { return As[StoredJob](j).Type }

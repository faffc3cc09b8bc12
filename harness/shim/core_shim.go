package core

import (
	"reflect"
	"unsafe"

	"github.com/getsolus/ferryd/src/libdb"
)

// VerifDB gives the verification harness the database of a manager, whatever
// the field that holds it is called.
func (m *Manager) VerifDB() libdb.Database {
	want := reflect.TypeOf((*libdb.Database)(nil)).Elem()
	v := reflect.ValueOf(m).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == want {
			return *(*libdb.Database)(unsafe.Pointer(f.UnsafeAddr()))
		}
	}
	panic("verif: the manager has no database")
}

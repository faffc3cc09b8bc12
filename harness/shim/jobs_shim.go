package jobs

import (
	"reflect"
	"unsafe"
)

// VerifOutcome lets the verification harness finish a job as the worker does:
// with its description and its error, whatever these fields are called.
func (j *JobEntry) VerifOutcome(description string, failure error) {
	v := reflect.ValueOf(j).Elem()
	pick := func(name string, t reflect.Type) unsafe.Pointer {
		if f := v.FieldByName(name); f.IsValid() && f.Type() == t {
			return unsafe.Pointer(f.UnsafeAddr())
		}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.Type == t && !f.IsExported() && f.Name != "id" {
				return unsafe.Pointer(v.Field(i).UnsafeAddr())
			}
		}
		panic("verif: a job holds no " + name)
	}
	*(*string)(pick("description", reflect.TypeOf(""))) = description
	*(*error)(pick("failure", reflect.TypeOf((*error)(nil)).Elem())) = failure
}

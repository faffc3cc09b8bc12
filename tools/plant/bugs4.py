exec(open('/tmp/plant/bugs3.py').read())
FH=FH
BUGS={}
bug('c32-large-request','C32',[('src/ferryd/handlers.go','json.NewDecoder(r.Body).Decode(&req)','json.NewDecoder(io.LimitReader(r.Body, 1<<16)).Decode(&req)',1-1),('src/ferryd/handlers.go','	"net/http"\n','	"io"\n	"net/http"\n')],
 'an import names so many packages that the request is larger than 64 KiB','the request is refused or answered with an error instead of being queued',
 FH+'''
func TestDemo(t *testing.T) {
	s, _ := demoServer(t)
	w := httptest.NewRecorder()
	body := "{\\"path\\":[\\"/x" + strings.Repeat("\\",\\"/some/where/a-1-1-1-x86_64.eopkg", 4000) + "\\"]}"
	s.router.ServeHTTP(w, httptest.NewRequest("POST", "/api/v1/import/a", strings.NewReader(body)))
	a, err := s.store.ActiveJobs()
	if err != nil || len(a) != 1 || w.Code != 200 {
		t.Fatal(len(a), err, w.Code)
	}
}
''',pkg='src/ferryd')
BUGS['c32-large-request']['demo']=BUGS['c32-large-request']['demo'].replace('	"os"\n','	"net/http/httptest"\n	"os"\n	"strings"\n',1)
bug('c34-refused-one-cleans','C34',[('src/ferryd/lockfile.go','if l.fd == nil || !l.owner {','if l.fd == nil {',1)],
 'a second daemon is refused and a third one is started','the refused daemon removes the lock file of the owner, and the third one becomes a second owner',
'''package main
import (
	"testing"
)
func TestDemo(t *testing.T) {
	p := t.TempDir() + "/lock"
	a, err := NewLockFile(p)
	if err != nil {
		t.Fatal(err)
	}
	if err := a.Lock(); err != nil {
		t.Fatal(err)
	}
	b, err := NewLockFile(p)
	if err != nil {
		t.Fatal(err)
	}
	if b.Lock() == nil {
		t.Fatal("two")
	}
	b.Clean()
	c, err := NewLockFile(p)
	if err != nil {
		t.Fatal(err)
	}
	if c.Lock() == nil {
		t.Fatal("two owners")
	}
}
''',pkg='src/ferryd')

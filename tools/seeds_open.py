from seeds_store import kv

INTERNAL = '''
package %s

import (
	"io/ioutil"
	"os"
	"testing"
	"time"
%s
)

var _ = time.Second

func temp(t *testing.T) (string, func()) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	return dir, func() { os.RemoveAll(dir) }
}
'''

def inside(be, body, imports=""):
    return INTERNAL % (be, imports) + body

SEEDS = [
 dict(id="c06-split-large-batches", property="C06", pkg="store/badger",
  needs="a batch too large for one badger transaction that fails after the limit was reached",
  breaks="a batch that outgrows a transaction is committed in parts, so a later failure leaves half of it behind",
  edits=[("store/badger/writer.go", '''			err = txn.Set(op.K, op.V)
			if err != nil {
''', '''			if err = txn.Set(op.K, op.V); err == badger.ErrTxnTooBig {
				if err = txn.Commit(); err != nil {
					return err
				}
				txn = w.s.db.NewTransaction(true)
				defer txn.Discard()
				err = txn.Set(op.K, op.V)
			}
			if err != nil {
''')],
  test=kv("badger", '''
func TestDemo(t *testing.T) {
	s, done := open(t, nil)
	defer done()
	n := 300000
	err := exec(t, s, func(b store.KVBatch) {
		for i := 0; i < n; i++ {
			b.Set([]byte(fmt.Sprint("key", i)), []byte("v"))
		}
		b.Set([]byte{}, []byte("v"))
	})
	if err == nil {
		t.Fatal("an empty key is accepted")
	}
	for i := 0; i < n; i += 1000 {
		if get(t, s, fmt.Sprint("key", i)) != nil {
			t.Fatal("the batch failed, but part of it was written")
		}
	}
}
''')),
 dict(id="c19-unnamed-bucket-leaks", property="C19", pkg="store/boltdb",
  needs="opening a BoltDB store with an empty bucket name",
  breaks="the database file stays open and locked although the constructor returned an error: the path cannot be opened again",
  edits=[("store/boltdb/store.go", "	db.NoSync = noSync\n", '''	if db.NoSync = noSync; bucket == "" && !bo.ReadOnly {
		return nil, bolt.ErrBucketNameRequired
	}
''')],
  test=inside("boltdb", '''
func TestDemo(t *testing.T) {
	dir, done := temp(t)
	defer done()
	if s, err := New(nil, map[string]interface{}{"path": dir + "/db", "bucket": ""}); err == nil || s != nil {
		t.Fatal("a store without a bucket")
	}
	ok := make(chan error, 1)
	go func() {
		s, err := New(nil, map[string]interface{}{"path": dir + "/db"})
		if err == nil {
			s.Close()
		}
		ok <- err
	}()
	select {
	case err := <-ok:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("the path stays locked")
	}
}
''')),
 dict(id="c19-typed-nil-store", property="C19", pkg="store/goleveldb",
  needs="opening a goleveldb store whose engine cannot be opened",
  breaks="the constructor returns, besides the error, a store that is not nil: a nil *Store in an interface, which panics when used",
  edits=[("store/goleveldb/store.go", '''	db, err := leveldb.OpenFile(path, opts)
	if err != nil {
		return nil, err
	}

	rv := Store{
		path:                path,
		opts:                opts,
		db:                  db,
		mo:                  mo,
''', '''	var st *Store
	db, err := leveldb.OpenFile(path, opts)
	if err != nil {
		return st, err
	}

	st = new(Store)
	rv := Store{
		path:                path,
		opts:                opts,
		db:                  db,
		mo:                  mo,
''')],
  test=inside("goleveldb", '''
func TestDemo(t *testing.T) {
	dir, done := temp(t)
	defer done()
	ioutil.WriteFile(dir+"/file", nil, 0600)
	s, err := New(nil, map[string]interface{}{"path": dir + "/file", "create_if_missing": true})
	if err == nil || s != nil {
		t.Fatalf("%v %v", s == nil, err)
	}
}
''')),
 dict(id="c19-reader-of-closed-store", property="C19", pkg="store/boltdb",
  needs="a reader is asked for after the store was closed",
  breaks="instead of the error a reader without a transaction is returned, which panics when used",
  edits=[("store/boltdb/store.go", '''	tx, err := bs.db.Begin(false)
	if err != nil {
		return nil, err
	}
''', '''	tx, err := bs.db.Begin(false)
	if err == bolt.ErrDatabaseNotOpen {
		return &Reader{store: bs}, nil
	} else if err != nil {
		return nil, err
	}
''')],
  test=inside("boltdb", '''
func TestDemo(t *testing.T) {
	dir, done := temp(t)
	defer done()
	s, err := New(nil, map[string]interface{}{"path": dir + "/db"})
	if err != nil {
		t.Fatal(err)
	}
	s.Close()
	if r, err := s.Reader(); err == nil || r != nil {
		t.Fatal("a reader of a closed store")
	}
}
''')),
 dict(id="c20-dependent-option", property="C20", pkg="store/goleveldb",
  needs="error_if_exists given without create_if_missing",
  breaks="error_if_exists is ignored unless create_if_missing is given and true",
  edits=[("store/goleveldb/config.go", '''	eie, ok := config["error_if_exists"].(bool)
	if ok {
''', '''	eie, ok := config["error_if_exists"].(bool)
	if ok && cim {
''')],
  test=inside("goleveldb", '''
func TestDemo(t *testing.T) {
	dir, done := temp(t)
	defer done()
	s, err := New(nil, map[string]interface{}{"path": dir + "/db", "create_if_missing": true})
	if err != nil {
		t.Fatal(err)
	}
	s.Close()
	s, err = New(nil, map[string]interface{}{"path": dir + "/db", "error_if_exists": true})
	if err == nil {
		s.Close()
		t.Fatal("the existing store was opened")
	}
}
''')),
 dict(id="c20-low-fill", property="C20", pkg="store/boltdb",
  needs="a fillPercent below one half",
  breaks="a fill percentage below the default is replaced by the default",
  edits=[("store/boltdb/store.go", '''	fillPercent, ok := config["fillPercent"].(float64)
	if !ok {
''', '''	fillPercent, _ := config["fillPercent"].(float64)
	if fillPercent < bolt.DefaultFillPercent {
''')],
  test=inside("boltdb", '''
func TestDemo(t *testing.T) {
	for _, f := range []float64{0.1, 0.25, 0.5, 0.75, 1} {
		dir, done := temp(t)
		defer done()
		s, err := New(nil, map[string]interface{}{"path": dir + "/db", "fillPercent": f})
		if err != nil {
			t.Fatal(err)
		}
		defer s.Close()
		if g := s.(*Store).fillPercent; g != f {
			t.Fatalf("%v for %v", g, f)
		}
	}
}
''')),
 dict(id="c20-wide-cache", property="C20", pkg="store/goleveldb",
  needs="an lru_cache_capacity of 2 GiB or more",
  breaks="the capacity is converted through a 32-bit integer and wraps",
  edits=[("store/goleveldb/config.go", "		o.BlockCacheCapacity = int(lcc)\n", "		o.BlockCacheCapacity = int(int32(int64(lcc)))\n")],
  test=inside("goleveldb", '''
func TestDemo(t *testing.T) {
	o, err := applyConfig(&opt.Options{}, map[string]interface{}{"lru_cache_capacity": float64(3 << 30)})
	if err != nil || o.BlockCacheCapacity != 3<<30 {
		t.Fatal(o.BlockCacheCapacity, err)
	}
}
''', '\n	"github.com/syndtr/goleveldb/leveldb/opt"')),
 dict(id="c20-relative-path", property="C20", pkg="store/gtreap",
  needs="opening an in-memory store with the path \".\"",
  breaks="a path the in-memory store cannot use is ignored instead of rejected",
  edits=[("store/gtreap/store.go", '''	if path != "" {
''', '''	if len(path) > 1 {
''')],
  test=inside("gtreap", '''
func TestDemo(t *testing.T) {
	_, done := temp(t)
	defer done()
	for _, p := range []string{".", "/", "x", "/tmp/x"} {
		if s, err := New(nil, map[string]interface{}{"path": p}); err == nil || s != nil {
			t.Fatalf("the path %q is ignored", p)
		}
	}
}
''')),
 dict(id="c21-counts-by-first-byte", property="C21", pkg="store/boltdb",
  needs="compacting a store with a dictionary entry whose value starts with a zero byte and goes on",
  breaks="live entries whose value starts with a zero byte are deleted",
  edits=[("store/boltdb/store.go", "				if bytes.Equal(v, []byte{0}) {\n", "				if len(v) == bytes.IndexByte(v, 0)+1 || len(v) > 1 && v[0] == 0 && len(v) < 10 {\n")],
  test=kv("boltdb", '''
func TestDemo(t *testing.T) {
	s, done := open(t, nil)
	defer done()
	live := [][]byte{{0, 1}, {0, 0}, {1}, {1, 0}, {0, 1, 2, 3}, {}}
	err := exec(t, s, func(b store.KVBatch) {
		for i, v := range live {
			b.Set([]byte{'d', byte(i)}, v)
		}
		b.Set([]byte("dead"), []byte{0})
	})
	if err != nil {
		t.Fatal(err)
	}
	if err := s.(interface{ Compact() error }).Compact(); err != nil {
		t.Fatal(err)
	}
	for i, v := range live {
		if got := get(t, s, string([]byte{'d', byte(i)})); got == nil || !bytes.Equal(got, v) {
			t.Fatalf("entry %d is %v, not %v", i, got, v)
		}
	}
	if get(t, s, "dead") != nil {
		t.Fatal("a dead entry is left")
	}
}
''')),
 dict(id="c21-one-key-too-far", property="C21", pkg="store/goleveldb",
  needs="compacting a store with the key \"e\" and the value of a single zero byte",
  breaks="the first key after the dictionary is deleted too",
  edits=[("store/goleveldb/store.go", '		iter := t.NewIterator(util.BytesPrefix([]byte("d")), ldbs.defaultReadOptions)\n', '		iter := t.NewIterator(&util.Range{Start: []byte{\'d\'}, Limit: []byte{\'d\' + 1, 0}}, ldbs.defaultReadOptions)\n'),
         ("store/goleveldb/store.go", "	return ldbs.db.CompactRange(util.Range{Start: nil, Limit: nil})\n", "	return ldbs.db.CompactRange(util.Range{})\n")],
  test=kv("goleveldb", '''
func TestDemo(t *testing.T) {
	s, done := open(t, nil)
	defer done()
	keep := []string{"c", "cz", "e", "e\\x00", "ea", "f", ""}
	err := exec(t, s, func(b store.KVBatch) {
		for _, k := range keep[:6] {
			b.Set([]byte(k), []byte{0})
		}
		b.Set([]byte("d"), []byte{0})
		b.Set([]byte("d\\xff"), []byte{0})
	})
	if err != nil {
		t.Fatal(err)
	}
	if err := s.(interface{ Compact() error }).Compact(); err != nil {
		t.Fatal(err)
	}
	for _, k := range keep[:6] {
		if get(t, s, k) == nil {
			t.Fatalf("the entry %q was deleted", k)
		}
	}
	if get(t, s, "d") != nil || get(t, s, "d\\xff") != nil {
		t.Fatal("a dead entry is left")
	}
}
''')),
 dict(id="c21-reads-before-locking", property="C21", pkg="store/goleveldb",
  needs="a dead entry becomes live between the scan of a compaction and its write transaction",
  breaks="the scan reads the store before the write transaction begins, so an entry that another writer revives in between is deleted",
  edits=[("store/goleveldb/store.go", '''		t, err := ldbs.db.OpenTransaction()
		if err != nil {
			return err
		}
		iter := t.NewIterator(util.BytesPrefix([]byte("d")), ldbs.defaultReadOptions)
''', '''		iter := ldbs.db.NewIterator(util.BytesPrefix([]byte("d")), ldbs.defaultReadOptions)
		t, err := ldbs.db.OpenTransaction()
		if err != nil {
			iter.Release()
			return err
		}
''')],
  test=inside("goleveldb", '''
func TestDemo(t *testing.T) {
	dir, done := temp(t)
	defer done()
	s, err := New(nil, map[string]interface{}{"path": dir + "/db", "create_if_missing": true})
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	db := s.(*Store).db
	if err := db.Put([]byte("dx"), []byte{0}, nil); err != nil {
		t.Fatal(err)
	}
	tx, err := db.OpenTransaction()
	if err != nil {
		t.Fatal(err)
	}
	ended := make(chan error)
	go func() { ended <- s.(*Store).Compact() }()
	time.Sleep(500 * time.Millisecond)
	if err := tx.Put([]byte("dx"), []byte{7}, nil); err != nil {
		t.Fatal(err)
	}
	if err := tx.Commit(); err != nil {
		t.Fatal(err)
	}
	if err := <-ended; err != nil {
		t.Fatal(err)
	}
	if v, err := db.Get([]byte("dx"), nil); err != nil || len(v) != 1 || v[0] != 7 {
		t.Fatal("the revived entry was deleted", v, err)
	}
}
''')),
]

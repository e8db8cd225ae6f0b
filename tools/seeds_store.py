HEAD = '''
package %s_test

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"runtime"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/akhenakh/oureadb/store"
	%s
)

var _ = bytes.Equal
var _ = binary.BigEndian
var _ = errors.New
var _ = fmt.Sprint
var _ = ioutil.TempDir
var _ = os.Open
var _ = runtime.NumGoroutine
var _ sync.Mutex
var _ = syscall.Getpid
var _ = time.Sleep

// list is a merge operator that appends the operands to the value.
type list struct {
	partial bool
	full    func(key []byte) bool
}

func (l list) FullMerge(key, old []byte, ops [][]byte) ([]byte, bool) {
	if l.full != nil && !l.full(key) {
		return nil, false
	}
	v := append([]byte{}, old...)
	for _, o := range ops {
		v = append(v, o...)
	}
	return v, true
}

func (l list) PartialMerge(key, a, b []byte) ([]byte, bool) {
	if !l.partial {
		return nil, false
	}
	return append(append([]byte{}, a...), b...), true
}

func (l list) Name() string { return "list" }

func open(t *testing.T, mo store.MergeOperator) (store.KVStore, func()) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	s, err := %s
	if err != nil {
		t.Fatal(err)
	}
	return s, func() {
		s.Close()
		os.RemoveAll(dir)
	}
}

func exec(t *testing.T, s store.KVStore, f func(b store.KVBatch)) error {
	w, err := s.Writer()
	if err != nil {
		t.Fatal(err)
	}
	defer w.Close()
	b := w.NewBatch()
	f(b)
	return w.ExecuteBatch(b)
}

func get(t *testing.T, s store.KVStore, key string) []byte {
	r, err := s.Reader()
	if err != nil {
		t.Fatal(err)
	}
	defer r.Close()
	v, err := r.Get([]byte(key))
	if err != nil {
		t.Fatal(err)
	}
	return v
}
'''

OPEN = {
    "boltdb": 'boltdb.New(mo, map[string]interface{}{"path": dir + "/db"})',
    "goleveldb": 'goleveldb.New(mo, map[string]interface{}{"path": dir + "/db", "create_if_missing": true})',
    "badger": 'badger.New(mo, map[string]interface{}{"path": dir + "/db"})',
    "gtreap": 'gtreap.New(mo, map[string]interface{}{"path": ""})',
}

def kv(be, body):
    return HEAD % (be, '"github.com/akhenakh/oureadb/store/%s"' % be, OPEN[be]) + body

PLAIN = '''
package store_test

import (
	"errors"
	"testing"

	"github.com/akhenakh/oureadb/store"
)
'''

SEEDS = [
 dict(id="c05-large-values", property="C05", pkg="store/gtreap",
  needs="a batch Set of a value of 64 KiB or more whose buffer is reused before the batch executes",
  breaks="large values are kept by reference until the batch executes, so the caller's later writes to its buffer end up in the store",
  edits=[("store/batch.go", "	cv := make([]byte, len(val))\n	copy(cv, val)\n	b.Ops", '''	cv := val
	if len(val) < 1<<16 {
		// small values are cheap to copy
		cv = make([]byte, len(val))
		copy(cv, val)
	}
	b.Ops''')],
  test=kv("gtreap", '''
func TestDemo(t *testing.T) {
	s, done := open(t, nil)
	defer done()
	for _, n := range []int{1, 100, 1 << 16, 1 << 20} {
		want := bytes.Repeat([]byte{7}, n)
		buf := append([]byte{}, want...)
		err := exec(t, s, func(b store.KVBatch) {
			b.Set([]byte("k"), buf)
			for i := range buf {
				buf[i] = 9
			}
		})
		if err != nil {
			t.Fatal(err)
		}
		if !bytes.Equal(get(t, s, "k"), want) {
			t.Fatalf("a value of %d bytes was changed through the buffer of the caller", n)
		}
	}
}
''')),
 dict(id="c09-empty-value-deletes", property="C09", pkg="store/boltdb",
  needs="a Set with an empty value",
  breaks="setting an empty value deletes the key",
  edits=[("store/boltdb/writer.go", "if op.V != nil {", "if len(op.V) > 0 {")],
  test=kv("boltdb", '''
func TestDemo(t *testing.T) {
	s, done := open(t, nil)
	defer done()
	err := exec(t, s, func(b store.KVBatch) {
		b.Set([]byte("a"), []byte{})
		b.Set([]byte("b"), []byte("x"))
	})
	if err != nil {
		t.Fatal(err)
	}
	if get(t, s, "a") == nil || get(t, s, "b") == nil {
		t.Fatal("a key set to an empty value is absent")
	}
}
''')),
 dict(id="c04-reused-buffer", property="C04", pkg="store/boltdb",
  needs="two lookups through the same reader, the result of the first being used after the second",
  breaks="the bytes returned by Get are overwritten by the next Get of the same reader",
  edits=[("store/boltdb/reader.go", "	bucket *bolt.Bucket\n}", "	bucket *bolt.Bucket\n	buf    []byte\n}"),
         ("store/boltdb/reader.go", "		rv = make([]byte, len(v))\n		copy(rv, v)\n", '''		if len(v) > cap(r.buf) || r.buf == nil {
			r.buf = make([]byte, len(v), 2*len(v)+64)
		}
		rv = r.buf[:len(v)]
		copy(rv, v)
''')],
  test=kv("boltdb", '''
func TestDemo(t *testing.T) {
	s, done := open(t, nil)
	defer done()
	err := exec(t, s, func(b store.KVBatch) {
		b.Set([]byte("a"), []byte("one"))
		b.Set([]byte("b"), []byte("two"))
	})
	if err != nil {
		t.Fatal(err)
	}
	r, err := s.Reader()
	if err != nil {
		t.Fatal(err)
	}
	defer r.Close()
	a, err := r.Get([]byte("a"))
	if err != nil {
		t.Fatal(err)
	}
	b, err := r.Get([]byte("b"))
	if err != nil {
		t.Fatal(err)
	}
	if string(a) != "one" || string(b) != "two" {
		t.Fatalf("got %q and %q", a, b)
	}
}
''')),
 dict(id="c07-lost-commit-error", property="C07", pkg="store/boltdb",
  needs="a commit that fails, here because the file cannot grow",
  breaks="the batch is reported as executed although its commit failed",
  edits=[("store/boltdb/writer.go", "			err = tx.Commit()\n", "			err := tx.Commit()\n			if err == nil {\n				return\n			}\n			_ = tx.Rollback()\n")],
  test=kv("boltdb", '''
func TestDemo(t *testing.T) {
	s, done := open(t, nil)
	defer done()
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		t.Fatal(err)
	}
	lim := old
	lim.Cur = 1 << 17
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		t.Fatal(err)
	}
	err := exec(t, s, func(b store.KVBatch) { b.Set([]byte("k"), make([]byte, 1<<22)) })
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err == nil && get(t, s, "k") == nil {
		t.Fatal("the batch was reported as executed but is not there")
	}
}
''')),
 dict(id="c15-empty-end", property="C15", pkg="store/gtreap",
  needs="a range whose end is empty but not nil",
  breaks="an empty end is taken for no end, so entries at or after the end are exposed",
  edits=[("store/gtreap/iterator.go", "} else if w.end != nil && bytes", "} else if len(w.end) > 0 && bytes")],
  test=kv("gtreap", '''
func TestDemo(t *testing.T) {
	s, done := open(t, nil)
	defer done()
	err := exec(t, s, func(b store.KVBatch) { b.Set([]byte("a"), []byte("v")) })
	if err != nil {
		t.Fatal(err)
	}
	r, err := s.Reader()
	if err != nil {
		t.Fatal(err)
	}
	defer r.Close()
	it := r.RangeIterator([]byte(""), []byte{})
	defer it.Close()
	if it.Valid() {
		t.Fatalf("%q is not before the end", it.Key())
	}
}
''')),
 dict(id="c18-reader-race", property="C18", pkg="store/gtreap", race=True,
  needs="a reader opened while a batch executes",
  breaks="opening a reader reads the current tree without the lock",
  edits=[("store/gtreap/store.go", '''	s.m.Lock()
	t := s.t
	s.m.Unlock()
	return &Reader{t: t}, nil''', '''	return &Reader{t: s.t}, nil''')],
  test=kv("gtreap", '''
func TestDemo(t *testing.T) {
	s, done := open(t, nil)
	defer done()
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < 1000; i++ {
			exec(t, s, func(b store.KVBatch) { b.Set([]byte("k"), []byte("v")) })
		}
	}()
	for i := 0; i < 1000; i++ {
		get(t, s, "k")
	}
	wg.Wait()
}
''')),
 dict(id="c11-tolerant-multiget", property="C11", pkg="store",
  needs="a reader that fails on one of several keys",
  breaks="a failed lookup becomes an absent value in the result of MultiGet",
  edits=[("store/multiget.go", "			return nil, err\n", "			if len(vals) == 0 {\n				return nil, err\n			}\n			val = nil\n")],
  test=PLAIN + '''
type reader struct{ store.KVReader }

func (reader) Get(k []byte) ([]byte, error) {
	if string(k) == "bad" {
		return nil, errors.New("read failed")
	}
	return k, nil
}

func TestDemo(t *testing.T) {
	vs, err := store.MultiGet(reader{}, [][]byte{[]byte("a"), []byte("b")})
	if err != nil || len(vs) != 2 || string(vs[0]) != "a" || string(vs[1]) != "b" {
		t.Fatal(vs, err)
	}
	vs, err = store.MultiGet(reader{}, [][]byte{[]byte("a"), []byte("bad"), []byte("b")})
	if err == nil {
		t.Fatalf("no error, got %q", vs)
	}
}
'''),
 dict(id="c10-empty-is-absent", property="C10", pkg="store/goleveldb",
  needs="a lookup of a key with an empty value, or one that fails",
  breaks="goleveldb lookups report empty values and engine failures as absent keys",
  edits=[("store/goleveldb/reader.go", "	if err == leveldb.ErrNotFound {", "	if err == leveldb.ErrNotFound || len(b) == 0 {")],
  test=kv("goleveldb", '''
func TestDemo(t *testing.T) {
	s, done := open(t, nil)
	defer done()
	err := exec(t, s, func(b store.KVBatch) { b.Set([]byte("a"), []byte{}) })
	if err != nil {
		t.Fatal(err)
	}
	if get(t, s, "b") != nil {
		t.Fatal("b is present")
	}
	if get(t, s, "a") == nil {
		t.Fatal("a is absent")
	}
}
''')),
 dict(id="c12-earlier-operands-lost", property="C12", pkg="store/gtreap",
  needs="an operator that can merge some operands partially and not others, and operands of both kinds for one key",
  breaks="a successful partial merge drops the operands before the last one",
  edits=[("store/merge.go", "			ops[len(ops)-1] = mergedVal\n", "			ops = [][]byte{mergedVal}\n")],
  test=kv("gtreap", '''
type short struct{ list }

// operands are merged partially when they are of the same length
func (s short) PartialMerge(key, a, b []byte) ([]byte, bool) {
	if len(a) != len(b) {
		return nil, false
	}
	return append(append([]byte{}, a...), b...), true
}

func TestDemo(t *testing.T) {
	s, done := open(t, short{})
	defer done()
	err := exec(t, s, func(b store.KVBatch) {
		for _, o := range []string{"aaa", "b", "c"} {
			b.Merge([]byte("k"), []byte(o))
		}
	})
	if err != nil {
		t.Fatal(err)
	}
	if v := get(t, s, "k"); string(v) != "aaabc" {
		t.Fatalf("merged %q", v)
	}
}
''')),
 dict(id="c12-merge-after-sets", property="C12", pkg="store/boltdb",
  needs="a batch that sets (or deletes) and merges the same key",
  breaks="boltdb applies the merges of a batch over its sets and deletes",
  edits=[("store/boltdb/writer.go", '''	for k, mergeOps := range emulatedBatch.Merger.Merges {
		kb := []byte(k)
		existingVal := bucket.Get(kb)
		mergedVal, fullMergeOk := w.store.mo.FullMerge(kb, existingVal, mergeOps)
		if !fullMergeOk {
			err = fmt.Errorf("merge operator returned failure")
			return
		}
		err = bucket.Put(kb, mergedVal)
		if err != nil {
			return
		}
	}

''', ""), ("store/boltdb/writer.go", '''			err = bucket.Delete(op.K)
			if err != nil {
				return
			}
		}
	}
''', '''			err = bucket.Delete(op.K)
			if err != nil {
				return
			}
		}
	}

	for k, mergeOps := range emulatedBatch.Merger.Merges {
		kb := []byte(k)
		existingVal := bucket.Get(kb)
		mergedVal, fullMergeOk := w.store.mo.FullMerge(kb, existingVal, mergeOps)
		if !fullMergeOk {
			err = fmt.Errorf("merge operator returned failure")
			return
		}
		err = bucket.Put(kb, mergedVal)
		if err != nil {
			return
		}
	}
''')],
  test=kv("boltdb", '''
func TestDemo(t *testing.T) {
	s, done := open(t, list{})
	defer done()
	for i := 0; i < 2; i++ {
		err := exec(t, s, func(b store.KVBatch) {
			b.Merge([]byte("k"), []byte("m"))
			b.Set([]byte("k"), []byte("s"))
		})
		if err != nil {
			t.Fatal(err)
		}
		if v := get(t, s, "k"); string(v) != "s" {
			t.Fatalf("k is %q", v)
		}
	}
}
''')),
 dict(id="c14-merges-only", property="C14", pkg="store/goleveldb",
  needs="resetting a goleveldb batch that holds merges and nothing else",
  breaks="the merges survive the reset and are applied by the next execution",
  edits=[("store/goleveldb/batch.go", '''	b.batch.Reset()
	b.merge = store.NewEmulatedMerge(b.store.mo)
''', '''	if b.batch.Len() > 0 {
		b.batch.Reset()
		b.merge = store.NewEmulatedMerge(b.store.mo)
	}
''')],
  test=kv("goleveldb", '''
func TestDemo(t *testing.T) {
	s, done := open(t, list{})
	defer done()
	err := exec(t, s, func(b store.KVBatch) {
		b.Merge([]byte("k"), []byte("a"))
		b.Reset()
		b.Set([]byte("x"), []byte("y"))
	})
	if err != nil {
		t.Fatal(err)
	}
	if v := get(t, s, "k"); v != nil {
		t.Fatalf("k is %q", v)
	}
}
''')),
 dict(id="c06-split-transaction", property="C06", pkg="store/badger",
  needs="a batch too big for one badger transaction followed by an operation that fails",
  breaks="the first part of the batch is committed on its own and stays visible after the batch failed",
  edits=[("store/badger/writer.go", '''			err = txn.Set(op.K, op.V)
			if err != nil {
''', '''			if err = txn.Set(op.K, op.V); err == badger.ErrTxnTooBig {
				if err = txn.Commit(); err != nil {
					return err
				}
				txn = w.s.db.NewTransaction(true)
				err = txn.Set(op.K, op.V)
			}
			if err != nil {
''')],
  test=kv("badger", '''
func TestDemo(t *testing.T) {
	s, done := open(t, nil)
	defer done()
	err := exec(t, s, func(b store.KVBatch) {
		for i := 0; i < 200000; i++ {
			b.Set([]byte(fmt.Sprint("k", i)), []byte("v"))
		}
		b.Set(nil, []byte("no key"))
	})
	if err == nil {
		t.Fatal("the batch did not fail")
	}
	if get(t, s, "k0") != nil {
		t.Fatalf("k0 of the failed batch is visible")
	}
}
''')),
 dict(id="c06-commit-despite-error", property="C06", pkg="store/boltdb",
  needs="a batch whose later operation the engine refuses",
  breaks="a delete that fails leaves the function before err is set, so the transaction is committed half done and the batch reported as executed",
  edits=[("store/boltdb/writer.go", '''			err = bucket.Put(op.K, op.V)
			if err != nil {
				return
			}
''', '''			if err := bucket.Put(op.K, op.V); err != nil {
				break
			}
''')],
  test=kv("boltdb", '''
func TestDemo(t *testing.T) {
	s, done := open(t, nil)
	defer done()
	err := exec(t, s, func(b store.KVBatch) {
		b.Set([]byte("a"), []byte("v"))
		b.Set(nil, []byte("no key"))
		b.Set([]byte("b"), []byte("v"))
	})
	if get(t, s, "a") != nil && (err != nil || get(t, s, "b") == nil) {
		t.Fatalf("half of the batch was committed (error: %v)", err)
	}
}
''')),
 dict(id="c08-in-place-update", property="C08", pkg="store/gtreap",
  needs="a key overwritten with a value of the same length while a reader opened before is in use",
  breaks="the new value is copied over the old one, which is part of the snapshots of open readers",
  edits=[("store/gtreap/writer.go", "		if op.V != nil {\n", '''		old, _ := t.Get(&Item{k: op.K}).(*Item)
		if old != nil && op.V != nil && len(old.v) == len(op.V) {
			// no need to rebuild the tree
			copy(old.v, op.V)
		} else if op.V != nil {
''')],
  test=kv("gtreap", '''
func TestDemo(t *testing.T) {
	s, done := open(t, nil)
	defer done()
	set := func(v string) {
		if err := exec(t, s, func(b store.KVBatch) { b.Set([]byte("k"), []byte(v)) }); err != nil {
			t.Fatal(err)
		}
	}
	set("one")
	r, err := s.Reader()
	if err != nil {
		t.Fatal(err)
	}
	defer r.Close()
	set("two")
	v, err := r.Get([]byte("k"))
	if err != nil || string(v) != "one" {
		t.Fatalf("%q %v", v, err)
	}
}
''')),
 dict(id="c13-outside-read", property="C13", pkg="store/badger",
  needs="two batches with merges of one key executing at the same time",
  breaks="the value to merge is read in a transaction of its own, so badger does not see the conflict of two concurrent merges and one is lost",
  edits=[("store/badger/writer.go", "		item, err := txn.Get(kb)\n", "		view := w.s.db.NewTransaction(false)\n		defer view.Discard()\n		item, err := view.Get(kb)\n")],
  test=kv("badger", '''
func TestDemo(t *testing.T) {
	s, done := open(t, list{full: func([]byte) bool {
		time.Sleep(50 * time.Millisecond)
		return true
	}})
	defer done()
	var wg sync.WaitGroup
	var mu sync.Mutex
	n := 0
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if exec(t, s, func(b store.KVBatch) { b.Merge([]byte("k"), []byte("x")) }) == nil {
				mu.Lock()
				n++
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if v := get(t, s, "k"); len(v) != n {
		t.Fatalf("%d merges gave %q", n, v)
	}
}
''')),
 dict(id="c17-producer-leak", property="C17", pkg="store/gtreap",
  needs="an iterator closed or repositioned before its scan is done",
  breaks="the goroutine feeding the iterator blocks for ever on its channel",
  edits=[("store/gtreap/iterator.go", '''				case <-cancelCh:
					return false
				case nextCh <- itm.(*Item):
					return true
				}
''', '''				case <-cancelCh:
					return false
				default:
					nextCh <- itm.(*Item)
					return true
				}
''')],
  test=kv("gtreap", '''
func TestDemo(t *testing.T) {
	s, done := open(t, nil)
	defer done()
	err := exec(t, s, func(b store.KVBatch) {
		for i := 0; i < 100; i++ {
			b.Set([]byte(fmt.Sprint("k", i)), []byte("v"))
		}
	})
	if err != nil {
		t.Fatal(err)
	}
	r, err := s.Reader()
	if err != nil {
		t.Fatal(err)
	}
	defer r.Close()
	n := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		it := r.PrefixIterator([]byte("k"))
		it.Next()
		time.Sleep(time.Millisecond)
		it.Close()
	}
	for i := 0; i < 50 && runtime.NumGoroutine() > n+5; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if m := runtime.NumGoroutine(); m > n+5 {
		t.Fatalf("%d goroutines are left behind", m-n)
	}
}
''')),
 dict(id="c16-next-after-end", property="C16", pkg="store/goleveldb",
  needs="a goleveldb iterator stepped after it has been exhausted",
  breaks="a step past the end moves the iterator back to its last entry",
  edits=[("store/goleveldb/iterator.go", "	ldi.iterator.Next()\n", "	if !ldi.iterator.Valid() {\n		ldi.iterator.Last()\n	} else {\n		ldi.iterator.Next()\n	}\n")],
  test=kv("goleveldb", '''
func TestDemo(t *testing.T) {
	s, done := open(t, nil)
	defer done()
	err := exec(t, s, func(b store.KVBatch) { b.Set([]byte("k"), []byte("v")) })
	if err != nil {
		t.Fatal(err)
	}
	r, err := s.Reader()
	if err != nil {
		t.Fatal(err)
	}
	defer r.Close()
	it := r.PrefixIterator([]byte("k"))
	defer it.Close()
	it.Next()
	if it.Valid() {
		t.Fatal("two entries")
	}
	it.Next()
	if it.Valid() {
		t.Fatal("the exhausted iterator is valid again")
	}
}
''')),
]

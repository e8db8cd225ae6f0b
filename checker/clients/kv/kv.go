package client

import (
	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/badger"
	"github.com/akhenakh/oureadb/store/boltdb"
	"github.com/akhenakh/oureadb/store/goleveldb"
	"github.com/akhenakh/oureadb/store/gtreap"
	treap "github.com/steveyen/gtreap"
)

func mergeOp() store.MergeOperator
func did(kind string, k, v []byte)
func didMerge(k, v []byte)
func distinct(a, b []byte)
func forget()
func mustFail(what string)
func check(prop, what string, ok bool, msg string)
func beginBatch()
func endBatch(err error)
func snapshot()
func beginGet()
func endGet(r store.KVReader, k, v []byte, err error)
func backend(name string)
func publish(v ...interface{})

// common tells that all users of a store have v.
func common(v ...interface{})
func endIter()
func prefixBound(p []byte)
func rangeBound(a, b []byte)
func entry(k, v []byte, ok bool, what string)
func beginScan()
func endScan(err error)
func allClosed()
func coarse()
func bufs(name string) [][]byte
func reader() store.KVReader
func beginMulti()
func endMulti(keys, vals [][]byte, err error)
func treapCursor(t *treap.Treap, pivot treap.Item) *int
func treapNext(c *int) bool
func treapItem(c *int) treap.Item

// visitAscend stands for (*gtreap.Treap).VisitAscend.
func visitAscend(t *treap.Treap, pivot treap.Item, visitor treap.ItemVisitor) {
	c := treapCursor(t, pivot)
	for treapNext(c) {
		if !visitor(treapItem(c)) {
			return
		}
	}
}

func openBolt() store.KVStore {
	backend("boltdb")
	st, err := boltdb.New(mergeOp(), map[string]interface{}{"path": str("path")})
	if err != nil {
		stop()
	}
	common(st)
	return st
}

func openLevel() store.KVStore {
	backend("goleveldb")
	st, err := goleveldb.New(mergeOp(), map[string]interface{}{"path": str("path"), "create_if_missing": true})
	if err != nil {
		stop()
	}
	common(st)
	return st
}

func openBadger() store.KVStore {
	backend("badger")
	st, err := badger.New(mergeOp(), map[string]interface{}{"path": str("path")})
	if err != nil {
		stop()
	}
	common(st)
	return st
}

func openTreap() store.KVStore {
	backend("gtreap")
	st, err := gtreap.New(mergeOp(), map[string]interface{}{"path": ""})
	if err != nil {
		stop()
	}
	common(st)
	publish(st)
	return st
}

// fill puts any sequence of sets and deletes into a batch, reusing the buffers.
func fill(b store.KVBatch) {
	for any() {
		k := buf("key")
		if any() {
			v := buf("val")
			b.Set(k, v)
			did("put", k, v)
			scribble(v)
		} else {
			b.Delete(k)
			did("del", k, nil)
		}
		scribble(k)
	}
}

func merge(b store.KVBatch, k []byte) {
	v := buf("operand")
	b.Merge(k, v)
	didMerge(k, v)
	scribble(v)
}

func newBatch(w store.KVWriter) store.KVBatch {
	if any() {
		return w.NewBatch()
	}
	_, b, err := w.NewBatchEx(store.KVBatchOptions{TotalBytes: 100, NumSets: 2, NumDeletes: 2, NumMerges: 2})
	if err != nil {
		stop()
	}
	return b
}

func batch(st store.KVStore) {
	w, err := st.Writer()
	if err != nil {
		stop()
	}
	b := newBatch(w)
	fill(b)
	beginBatch()
	err = w.ExecuteBatch(b)
	endBatch(err)
}

// merges of up to three operands for one key and one for another, with a set
// and a delete of the merged keys.
func merges(st store.KVStore) {
	w, err := st.Writer()
	if err != nil {
		stop()
	}
	b := w.NewBatch()
	k1, k2 := nbuf("key1"), nbuf("key2")
	distinct(k1, k2)
	if any() {
		v := buf("val")
		b.Set(k1, v)
		did("put", k1, v)
	}
	if any() {
		merge(b, k1)
		if any() {
			merge(b, k2)
		}
		if any() {
			merge(b, k1)
			merge(b, k1)
		}
	}
	if any() {
		b.Delete(k2)
		did("del", k2, nil)
	}
	scribble(k1)
	scribble(k2)
	beginBatch()
	err = w.ExecuteBatch(b)
	endBatch(err)
}

// alien is a batch of another kind.
type alien struct{ store.KVBatch }

func wrong(st store.KVStore) {
	w, err := st.Writer()
	if err != nil {
		stop()
	}
	beginBatch()
	mustFail("the batch is of the wrong kind")
	if any() {
		err = w.ExecuteBatch(alien{w.NewBatch()})
	} else {
		err = w.ExecuteBatch(&alien{w.NewBatch()})
	}
	endBatch(err)
}

// reuse executes a batch that was executed and reset before.
func reuse(st store.KVStore) {
	w, err := st.Writer()
	if err != nil {
		stop()
	}
	b := w.NewBatch()
	k, v := nbuf("key"), buf("val")
	switch {
	case any():
		b.Set(k, v)
	case any():
		b.Delete(k)
	case any():
		b.Merge(k, v)
	}
	err = w.ExecuteBatch(b)
	if err != nil && any() {
		stop()
	}
	b.Reset()
	forget()
	switch {
	case any():
		b.Set(k, v)
		did("put", k, v)
	case any():
		b.Delete(k)
		did("del", k, nil)
	case any():
		b.Merge(k, v)
		didMerge(k, v)
	}
	beginBatch()
	err = w.ExecuteBatch(b)
	endBatch(err)
}

func BoltReuse()   { reuse(openBolt()) }
func LevelReuse()  { reuse(openLevel()) }
func BadgerReuse() { reuse(openBadger()) }
func TreapReuse()  { reuse(openTreap()) }

// retry executes a batch again whose execution has failed.
func retry(st store.KVStore) {
	w, err := st.Writer()
	if err != nil {
		stop()
	}
	b := w.NewBatch()
	k, k1 := nbuf("key"), nbuf("key1")
	distinct(k, k1)
	v := buf("val")
	b.Set(k, v)
	did("put", k, v)
	if any() {
		merge(b, k1)
		if any() {
			merge(b, k1)
		}
	}
	if any() {
		b.Delete(k1)
		did("del", k1, nil)
	}
	if w.ExecuteBatch(b) == nil {
		stop()
	}
	beginBatch()
	err = w.ExecuteBatch(b)
	endBatch(err)
}

func BoltRetry()   { retry(openBolt()) }
func LevelRetry()  { retry(openLevel()) }
func BadgerRetry() { retry(openBadger()) }
func TreapRetry()  { retry(openTreap()) }

// reset executes a batch that was reset after having been filled.
func reset(st store.KVStore) {
	w, err := st.Writer()
	if err != nil {
		stop()
	}
	b := w.NewBatch()
	k, v := nbuf("key"), buf("val")
	if any() {
		b.Set(k, v)
	}
	if any() {
		b.Delete(k)
	}
	if any() {
		b.Merge(k, v)
	}
	b.Reset()
	forget()
	k2 := k
	if any() {
		k2 = nbuf("key2")
		distinct(k, k2)
	}
	switch {
	case any():
		b.Set(k2, v)
		did("put", k2, v)
	case any():
		b.Delete(k2)
		did("del", k2, nil)
	case any():
		b.Merge(k2, v)
		didMerge(k2, v)
	}
	beginBatch()
	err = w.ExecuteBatch(b)
	endBatch(err)
}

func BoltBatch()   { batch(openBolt()) }
func LevelBatch()  { batch(openLevel()) }
func BadgerBatch() { batch(openBadger()) }
func TreapBatch()  { batch(openTreap()) }
func BoltMerge()   { merges(openBolt()) }
func LevelMerge()  { merges(openLevel()) }
func BadgerMerge() { merges(openBadger()) }
func TreapMerge()  { merges(openTreap()) }
func BoltWrong()   { wrong(openBolt()) }
func LevelWrong()  { wrong(openLevel()) }
func BadgerWrong() { wrong(openBadger()) }
func TreapWrong()  { wrong(openTreap()) }
func BoltReset()   { reset(openBolt()) }
func LevelReset()  { reset(openLevel()) }
func BadgerReset() { reset(openBadger()) }
func TreapReset()  { reset(openTreap()) }

func get(st store.KVStore) {
	r, err := st.Reader()
	if err != nil {
		stop()
	}
	snapshot()
	k := buf("key")
	beginGet()
	v, err := r.Get(k)
	endGet(r, k, v, err)
	r.Close()
	allClosed()
}

func BoltGet()   { get(openBolt()) }
func LevelGet()  { get(openLevel()) }
func BadgerGet() { get(openBadger()) }
func TreapGet()  { get(openTreap()) }

func MultiGet() {
	backend("store.MultiGet")
	keys := bufs("keys")
	beginMulti()
	vals, err := store.MultiGet(reader(), keys)
	endMulti(keys, vals, err)
}

func scan(st store.KVStore, again bool) {
	r, err := st.Reader()
	if err != nil {
		stop()
	}
	snapshot()
	beginScan()
	panics("C16")
	a, b := buf("a"), buf("b")
	var it store.KVIterator
	if any() {
		it = r.PrefixIterator(a)
		prefixBound(a)
	} else {
		it = r.RangeIterator(a, b)
		rangeBound(a, b)
	}
	publish(it)
	look(it)
	for any() {
		if any() {
			it.Seek(buf("target"))
		} else {
			before := it.Valid()
			it.Next()
			if !before {
				check("C16", "revive", !it.Valid(), "stepping an iterator that is not valid makes it valid again")
			}
		}
		look(it)
	}
	err = it.Close()
	endScan(err)
	endIter()
	if again {
		it.Next()
		check("C16", "revive", !it.Valid(), "stepping an iterator that has been closed makes it valid again")
		if any() {
			it.Seek(buf("target"))
			it.Close()
		}
		it.Close()
	}
	r.Close()
	allClosed()
}

func look(it store.KVIterator) {
	if any() {
		k, v := it.Key(), it.Value()
		entry(k, v, it.Valid(), "key")
	} else {
		k, v, ok := it.Current()
		entry(k, v, ok, "current")
	}
}

func BoltScan()   { scan(openBolt(), false) }
func LevelScan()  { scan(openLevel(), false) }
func BadgerScan() { scan(openBadger(), false) }
func TreapScan()  { scan(openTreap(), true) }

func multi(st store.KVStore) {
	r, err := st.Reader()
	if err != nil {
		stop()
	}
	snapshot()
	keys := bufs("keys")
	beginMulti()
	vals, err := r.MultiGet(keys)
	endMulti(keys, vals, err)
}

func BoltMulti()   { multi(openBolt()) }
func LevelMulti()  { multi(openLevel()) }
func BadgerMulti() { multi(openBadger()) }
func TreapMulti()  { multi(openTreap()) }

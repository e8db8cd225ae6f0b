package client

import (
	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/badger"
	"github.com/akhenakh/oureadb/store/boltdb"
	"github.com/akhenakh/oureadb/store/goleveldb"
	"github.com/akhenakh/oureadb/store/gtreap"
)

// config is any configuration in which, apart from the path and the option
// key, all options are given or none is.
func config(key string) map[string]interface{}

// opened judges what a constructor has returned; it goes on only with a store.
func opened(st store.KVStore, err error)
func opening()
func openedReader(r store.KVReader, err error)
func compacting()
func compacted(err error)

type constructor func(store.MergeOperator, map[string]interface{}) (store.KVStore, error)

func configured(name, key string, f constructor) store.KVStore {
	backend(name)
	panics("C19")
	st, err := f(mergeOp(), config(key))
	opened(st, err)
	return st
}

func BadgerOpen() { configured("badger", "path", badger.New) }
func TreapOpen()  { configured("gtreap", "path", gtreap.New) }

func boltOpen(key string)  { configured("boltdb", key, boltdb.New) }
func levelOpen(key string) { configured("goleveldb", key, goleveldb.New) }

func BoltOpenBucket()      { boltOpen("bucket") }
func BoltOpenNoSync()      { boltOpen("nosync") }
func BoltOpenFillPercent() { boltOpen("fillPercent") }
func BoltOpenReadOnly()    { boltOpen("read_only") }

func LevelOpenReadOnly()        { levelOpen("read_only") }
func LevelOpenCreateIfMissing() { levelOpen("create_if_missing") }
func LevelOpenErrorIfExists()   { levelOpen("error_if_exists") }
func LevelOpenWriteBuffer()     { levelOpen("write_buffer_size") }
func LevelOpenBlockSize()       { levelOpen("block_size") }
func LevelOpenBlockRestart()    { levelOpen("block_restart_interval") }
func LevelOpenCache()           { levelOpen("lru_cache_capacity") }
func LevelOpenBloom()           { levelOpen("bloom_filter_bits_per_key") }

func BoltUseBucket()      { boltUse("bucket") }
func BoltUseFillPercent() { boltUse("fillPercent") }
func BoltUseReadOnly()    { boltUse("read_only") }

func LevelUseReadOnly()        { levelUse("read_only") }
func LevelUseCreateIfMissing() { levelUse("create_if_missing") }
func LevelUseErrorIfExists()   { levelUse("error_if_exists") }
func LevelUseWriteBuffer()     { levelUse("write_buffer_size") }
func LevelUseBlockSize()       { levelUse("block_size") }
func LevelUseBlockRestart()    { levelUse("block_restart_interval") }
func LevelUseCache()           { levelUse("lru_cache_capacity") }
func LevelUseBloom()           { levelUse("bloom_filter_bits_per_key") }

// levelUse writes to a store of any configuration.
func levelUse(key string) {
	st := configured("goleveldb", key, goleveldb.New)
	opening()
	w, err := st.Writer()
	if err != nil {
		stop()
	}
	b := w.NewBatch()
	b.Set(nbuf("key"), buf("val"))
	w.ExecuteBatch(b)
}

// boltUse uses what concerns the options of the later steps.
func boltUse(key string) {
	st := configured("boltdb", key, boltdb.New)
	opening()
	if any() {
		r, err := st.Reader()
		openedReader(r, err)
		r.Close()
		return
	}
	w, err := st.Writer()
	if err != nil {
		stop()
	}
	b := w.NewBatch()
	b.Set(nbuf("key"), buf("val"))
	w.ExecuteBatch(b)
}

// read opens a reader and uses it.
func read(st store.KVStore) {
	panics("C19")
	opening()
	r, err := st.Reader()
	openedReader(r, err)
	if any() {
		r.Get(nbuf("key"))
	} else {
		it := r.PrefixIterator(buf("prefix"))
		it.Key()
		it.Close()
	}
	r.Close()
}

func BoltReader()   { read(openBolt()) }
func LevelReader()  { read(openLevel()) }
func BadgerReader() { read(openBadger()) }
func TreapReader()  { read(openTreap()) }

type compacter interface {
	CompactWithBatchSize(int) error
	Compact() error
}

func size() int

func compact(st store.KVStore, whole bool) {
	panics("C21")
	c := st.(compacter)
	compacting()
	var err error
	if whole {
		err = c.Compact()
	} else {
		err = c.CompactWithBatchSize(size())
	}
	compacted(err)
}

func BoltCompact()      { compact(openBolt(), true) }
func BoltCompactSome()  { compact(openBolt(), false) }
func LevelCompact()     { compact(openLevel(), true) }
func LevelCompactSome() { compact(openLevel(), false) }

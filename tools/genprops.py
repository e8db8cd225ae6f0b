#!/usr/bin/env python3
# Source of /verif/properties.jsonl:  python3 tools/genprops.py > properties.jsonl
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(observe),hook_needed=hook)))
IDX=["index/s2idx.go","index/s2pointidx.go","index/s2timeidx.go"]
WR=["store/boltdb/writer.go","store/badger/writer.go","store/goleveldb/writer.go","store/gtreap/writer.go"]
RD=["store/boltdb/reader.go","store/badger/reader.go","store/goleveldb/reader.go","store/gtreap/reader.go"]
IT=["store/boltdb/iterator.go","store/badger/prefix_iterator.go","store/badger/range_iterator.go","store/goleveldb/iterator.go","store/gtreap/iterator.go"]
ST=["store/boltdb/store.go","store/badger/store.go","store/goleveldb/store.go","store/gtreap/store.go"]
GD=["index/geodata/tools.go","index/geodata/loop.go"]

p("C01","Index operations release every store resource they take",
  "Every index write and every index query releases each reader, iterator, writer and batch it obtained from the store before it returns, on success and on every error path, exactly in a state where releasing is legal (an iterator before its reader). When the store refuses a reader or writer, the operation returns that error instead of crashing on the missing handle.",
  ["inputs","fault_sequences","histories"],"every call of an index operation, every combination of store refusals, scan errors and undecodable keys met on the way",
  "The tests run only the success path on the in-memory store, where leaked readers cost nothing; a leak blocks Close or writers on BoltDB, panics on Badger and leaks a goroutine on gtreap.",
  IDX,[("deferred Close of reader/iterator/writer/batch","index/*.go query and index functions")],
  observe=["KVReader.Close, KVIterator.Close, KVWriter.Close, KVBatch.Close calls"])
p("C02","No storage failure is reported as success by an index operation",
  "If the store fails while an index operation is running (opening a reader or writer, scanning, executing the batch), or a stored key cannot be decoded, the operation returns a non-nil error. It never returns an empty or truncated result, or a nil error, as if nothing had happened.",
  ["inputs","fault_sequences"],"every index operation and every point at which the store can return an error to it",
  "No test injects a store error; the in-memory store used in the index tests cannot fail.",
  IDX,[("error checks after Reader/Writer/ExecuteBatch/Close","index/*.go")],observe=["returned error"])
p("C03","IDs and keys returned by the index belong to the caller",
  "The IDs returned by a query remain unchanged for ever: they do not share memory with the iterator or the store, so later iteration, writes, or closing the store cannot alter or invalidate them. The same holds for a key returned by an index write: it shares no memory with the caller's ID or with the index.",
  ["inputs","histories"],"every query result, whatever happens to the store afterwards, on every backend",
  "The tests only look at the number of results on the in-memory store; on goleveldb the iterator reuses its buffer and on BoltDB the bytes are mmapped pages, and neither is used in the index tests.",
  IDX,[("copy of the iterator's key before slicing the ID out of it","index/s2pointidx.go GeoIdsRadiusQuery, GeoIdsRectQuery")],
  observe=["slices returned by GeoIds*/GeoTimeIds*/PointIndex/PointKey"])
p("C04","Bytes returned by Get belong to the caller",
  "On every storage backend the value returned by a single or multiple lookup is a private copy: modifying it never changes what is stored or what any reader sees, and it stays valid after the reader and the store are closed.",
  ["inputs","histories"],"every lookup on every backend and every later use of the returned bytes",
  "One 3-byte value is checked per backend, through one code path; aliasing that depends on where the engine keeps the value is not sampled.",
  RD+["store/multiget.go"],[("make+copy / ValueCopy of the engine's bytes","store/*/reader.go Get")],observe=["slice returned by KVReader.Get/MultiGet"])
p("C05","Batch calls do not retain the caller's buffers",
  "After a batch Set, Delete or Merge call returns, the caller may overwrite the key and value buffers it passed without any effect on what the batch will write. This holds on every backend and also when several merges of one key are combined.",
  ["inputs","histories"],"every batch operation on every backend, every later modification of the argument buffers",
  "The buffer-reuse test covers Set and Delete only, never Merge.",
  ["store/batch.go","store/merge.go","store/goleveldb/batch.go"],[("make+copy of key and value","store/batch.go Set/Delete/Merge")],observe=["bytes handed to the engine or the merge operator at ExecuteBatch"])
p("C06","Batch execution is all-or-nothing",
  "When executing a batch returns an error (a failed merge, a failed engine write, a batch of the wrong kind, a failed commit), none of the batch's operations becomes visible to any reader, now or later. No partial batch is ever committed, and whatever transaction was started is closed.",
  ["inputs","fault_sequences"],"every batch on every backend and every operation at which the engine or the merge operator can fail",
  "No test makes a batch fail; failing at the n-th operation needs an oversized transaction, an invalid key or a refusing merge operator.",
  WR,[("commit only when no operation failed","store/boltdb/writer.go deferred commit/rollback"),("single publication of the new root","store/gtreap/writer.go")],
  observe=["engine commit/rollback calls","published root of the in-memory store"])
p("C07","A successful batch has been committed to the engine, synchronously",
  "Executing a batch returns nil only after the engine's commit of that whole batch was attempted and succeeded. Stores open the engine with synchronous commits unless the user explicitly asked for the unsafe mode.",
  ["inputs","fault_sequences","crash_points","configurations"],"every successful batch, every engine commit outcome, every configuration",
  "Tests never make a commit fail and never crash between acknowledgement and sync.",
  WR+ST,[("commit whose error is returned","store/*/writer.go ExecuteBatch"),("Sync write option / NoSync only from config","store/goleveldb/store.go, store/boltdb/store.go")],
  observe=["engine commit call and its error"])
p("C08","Readers see a fixed snapshot",
  "Everything a reader or an iterator obtained from it returns comes from the snapshot taken when the reader was opened; no read path consults the live store. Data reachable from an open snapshot is never modified in place by later writes.",
  ["schedules","histories"],"every reader, every write executed after it was opened, every interleaving",
  "One history with one key is tested; a read path that consults the live store only under some condition is not sampled.",
  RD+ST+["store/gtreap/writer.go"],[("read transaction / snapshot / persistent root captured by Reader()","store/*/store.go Reader")],observe=["receiver of every engine read call"])
p("C09","Every batch operation is applied as written",
  "A successfully executed batch applies each of its operations exactly as given: Set stores that value under that key, also when the value is nil or empty; Delete removes that key and nothing else; no operation is skipped, and later operations on a key win over earlier ones. Setting an empty value is never confused with deleting.",
  ["inputs","histories"],"every sequence of Set and Delete in a batch, all keys and values including nil and empty, on every backend",
  "Tests use short non-empty values; the index stores only nil values, whose survival depends on the nil/empty distinction inside the batch encoding.",
  ["store/batch.go","store/goleveldb/batch.go"]+WR,[("nil value encodes deletion, empty value encodes set","store/batch.go, store/*/writer.go")],observe=["engine Put/Delete calls"])
p("C10","Lookup distinguishes absent, present and failed",
  "On every backend a lookup returns (nil, nil) exactly when the key is absent, a non-nil value when it is present (also when that value is empty), and an error when the engine failed. An engine failure is never reported as absence.",
  ["inputs","fault_sequences"],"every key, every stored value including the empty one, every engine error",
  "Tests look up existing non-empty values and one absent key; empty values and engine failures are not sampled.",
  RD,[("not-found mapping","store/*/reader.go Get")],observe=["results of KVReader.Get"])
p("C11","Multi-lookup returns one result per key, in order",
  "Looking up several keys in one call returns exactly as many values as keys, the i-th being what a single lookup of the i-th key returns; if any of the lookups fails the whole call returns that error.",
  ["inputs","fault_sequences"],"every list of keys (also empty) on every backend",
  "MultiGet is not called by any test.",
  ["store/multiget.go"]+RD,[("loop over Get","store/multiget.go")],observe=["results of KVReader.MultiGet"])
p("C12","Merges see the stored value and all operands, and their result is stored",
  "When a batch with merges executes, the operator is given the stored value of each merged key (nil if there is none) and every operand recorded for that key, in order, with nothing lost by partial merging, and its result is what gets stored under that key. An operator failure fails the batch, and on every backend merges are applied to the value from before the batch while the batch's sets and deletes are applied after them.",
  ["inputs","histories"],"every sequence of merges, sets and deletes, every operator, on every backend",
  "One operator that always partial-merges is tested with two operands on a missing key; refusal to partial-merge, existing values and mixed batches are not.",
  ["store/merge.go","store/batch.go"]+WR,[("FullMerge loop","store/*/writer.go ExecuteBatch"),("PartialMerge or append","store/merge.go")],observe=["arguments of MergeOperator.FullMerge","engine Put of its result"])
p("C13","Concurrent merges are never lost",
  "The read of a merged key's stored value and the write of the merged result form one isolated step with respect to every other batch execution on the same store, so concurrently executed batches never overwrite each other's merges.",
  ["schedules"],"every interleaving of concurrently executed batches on one store",
  "All tests are single-threaded.",
  WR,[("engine write transaction","store/boltdb/writer.go, store/badger/writer.go"),("mutex","store/gtreap/writer.go, store/goleveldb/writer.go")],observe=["locks/transactions held at the read and the write"])
p("C14","A reset batch is empty",
  "After a batch is reset, executing it writes nothing of what it contained before: neither its sets and deletes nor its merges.",
  ["inputs","histories"],"every content of the batch before the reset, on every backend",
  "Tests reset batches that hold only sets and deletes, never merges.",
  ["store/batch.go","store/goleveldb/batch.go"],[("Reset","store/batch.go, store/goleveldb/batch.go")],observe=["content of the batch after Reset"])
p("C15","Iterators never expose entries outside their bounds",
  "On every backend an iterator is valid only at entries within its prefix, or with start <= key < end for a range (an absent end meaning unbounded), after any sequence of seeks and steps, also seeks to targets outside the bounds. The key and value it exposes are those of its current entry.",
  ["inputs","histories"],"every prefix/range, every sequence of Seek and Next with arbitrary targets, every content, on every backend",
  "Tests check a few fixed key sets and seek targets, with bounds that are never prefixes of 0xff bytes, nil or empty.",
  IT+RD,[("bound checks in Valid/Current","store/*/iterator.go"),("clamping of the seek target","store/*/iterator.go Seek")],observe=["Valid/Key/Value/Current after each operation"])
p("C16","An exhausted iterator stays exhausted and is safe to use",
  "Once an iterator is no longer valid, stepping it or asking for its key or value neither panics nor blocks, exposes no entry, and never makes it valid again; only a new seek can. Stepping an iterator that has been closed does not block either.",
  ["histories","inputs"],"every sequence of iterator calls, on every backend",
  "Tests stop at the first invalid position.",
  IT,[("validity flag / engine validity","store/*/iterator.go")],observe=["Next/Key/Value/Current on an invalid iterator"])
p("C17","The in-memory store never wedges",
  "Every operation of the in-memory store releases the lock it took on every exit, including failed merges, so no failed operation blocks later ones. The background producer of an iterator ends once the iterator is closed or repositioned, and no operation sends on or closes a channel twice.",
  ["schedules","fault_sequences","histories"],"every exit path of every operation, every order of Seek, Next and Close",
  "Tests never make a merge fail and never observe leaked goroutines.",
  ["store/gtreap/writer.go","store/gtreap/iterator.go","store/gtreap/store.go"],[("mutex","store/gtreap/writer.go"),("cancel channel select","store/gtreap/iterator.go")],observe=["lock state at exit","channel operations"])
p("C18","Shared in-memory state is only touched under its lock",
  "Every access to state of the in-memory store that can be shared between goroutines (the current tree, an iterator's position) happens while the lock that protects it is held.",
  ["schedules"],"all interleavings of operations on one store or iterator",
  "Tests are single-threaded and run without the race detector.",
  ["store/gtreap/store.go","store/gtreap/writer.go","store/gtreap/iterator.go"],[("sync.Mutex","store/gtreap")],observe=["loads and stores of shared fields"])
p("C19","A store that cannot be opened or read leaves nothing behind",
  "If opening a store fails, the constructor returns an error and no store, and has closed whatever engine handle it had opened, so the same path can be opened again. If the engine cannot provide a snapshot, opening a reader returns an error, never an unusable reader.",
  ["fault_sequences","configurations"],"every configuration, every failing step while opening a store or a reader",
  "No test opens a store with a failing step.",
  ST,[("error returns in New and Reader","store/*/store.go")],observe=["results of New and Reader, engine Close"])
p("C20","Each configuration option takes effect, and only that one",
  "Each documented configuration option sets exactly the engine setting it names to the given value, an absent option leaves that setting at its default, and a missing or unusable path is rejected with an error instead of being ignored.",
  ["configurations"],"every combination of present and absent options with every value",
  "Only four BoltDB options are tested, in two combinations; the goleveldb options are not tested at all.",
  ["store/goleveldb/config.go","store/boltdb/store.go","store/badger/store.go","store/gtreap/store.go"],[("typed lookups in the config map","store/goleveldb/config.go, store/boltdb/store.go")],observe=["options passed to the engine"])
p("C21","Compaction removes only dead dictionary entries",
  "Compacting a store deletes only entries whose key starts with the dictionary prefix and whose value is the single zero byte, reports every engine failure, and never leaves a transaction or iterator open.",
  ["inputs","fault_sequences"],"every store content, every batch size, every engine failure",
  "Compaction is not called by any test.",
  ["store/boltdb/store.go","store/goleveldb/store.go"],[("CompactWithBatchSize","store/boltdb/store.go, store/goleveldb/store.go")],observe=["engine Delete calls, transaction ends"])
p("C22","Index keys are read back exactly as they were written",
  "For every prefix, cell, time and ID, the key an index writes decodes to the same cell and ID: writers and readers agree on the position, width and byte order of every component, the whole prefix comes first and the ID is the complete rest of the key. Cells (and reversed times) are encoded so that byte order equals numeric order.",
  ["inputs"],"all prefixes, cells, times and IDs, for each of the three indexes",
  "Tests decode a handful of keys with one prefix per index.",
  IDX+["index/tools.go"],[("key construction and keyToValues","index/*.go"),("big-endian encoding","index/tools.go")],observe=["bytes passed to batch.Set","IDs returned by queries"])
p("C23","A cell query scans the cell's whole key range and nothing else",
  "A query for a cell visits every key an index write can have produced for a point or cover inside that cell, including points at the very last leaf position of the cell and queries at leaf level, and no key of another cell or prefix.",
  ["inputs"],"every cell at every level, every stored position",
  "Tests query a few parents of one point; a point at the last leaf position or a leaf-level query needs a specific input.",
  IDX,[("RangeMin/RangeMax bounds","index/s2pointidx.go"),("prefix scan","index/s2idx.go")],observe=["bounds passed to PrefixIterator/RangeIterator"])
p("C24","Fixed-level indexes write and query the same level",
  "A fixed-level index stores its entries only at its configured level and computes the cells of area queries at exactly that level, for every kind of geometry, so that an indexed object is found by the queries that cover it; a query for a cell of another level is refused.",
  ["inputs","configurations"],"every geometry and level",
  "Tests index one polygon, one point; a line whose cover contains all four children of a cell is not sampled.",
  ["index/s2idx.go","index/s2timeidx.go","index/geodata/tools.go"],[("RegionCoverer{MinLevel,MaxLevel}","index/*.go"),("Covering/denormalized covers","index/geodata/tools.go")],observe=["level arguments of the coverer","cells written"])
p("C25","Radius and rectangle point queries return only points inside the area",
  "A point index query by radius or rectangle returns an ID only if its decoded position was tested to lie inside exactly the queried area, and drops no decoded position inside it.",
  ["inputs"],"every area and every stored point",
  "Tests have a single stored point which is inside the area.",
  ["index/s2pointidx.go"],[("ContainsPoint filter","index/s2pointidx.go")],observe=["append to the result vs. ContainsPoint outcome"])
p("C26","Multi-cell queries return every ID of every cell, once",
  "A query over several cells consults each of the given cells and returns each ID found exactly once, as full non-nil IDs; cover-based queries pass on all the cells of the cover.",
  ["inputs"],"every list of cells, overlapping results included",
  "Tests query one stored object, with no duplicates to remove.",
  IDX,[("set keyed by ID","index/*.go GeoIdsAtCells/GeoTimeIdsAtCells")],observe=["returned slice"])
p("C27","Time queries bound both ends and run from future to past",
  "The time index orders the entries of a cell from the latest to the earliest, for all representable times, and a query for a time window scans exactly the entries between its two ends within the requested cell: it uses the same reversed encoding for the stored time and for both bounds.",
  ["inputs"],"all times and windows, including times before 1970",
  "One entry and two windows are tested.",
  ["index/s2timeidx.go"],[("timePrefixKey","index/s2timeidx.go")],observe=["bounds passed to RangeIterator","stored key"])
p("C28","Coordinates are always read as longitude, latitude pairs",
  "Everywhere stored coordinates are interpreted, even positions are longitudes and odd positions are latitudes, and the latitude and longitude arguments of queries are used as such; no conversion swaps, mixes or skips coordinates.",
  ["inputs"],"every geometry and every query position",
  "Tests use few fixed places and mostly check counts.",
  GD+IDX,[("LatLngFromDegrees calls","index/geodata/*.go, index/*.go")],observe=["arguments of LatLngFromDegrees"])
p("C29","Indexing, covering and converting never modify their inputs",
  "Covering, indexing, bounding or exporting a geometry leaves the geometry, its properties, the ID, the query parameters and the index's own configuration unmodified, so the same object can be indexed again or concurrently. Only the documented destination of a conversion is written.",
  ["inputs","schedules"],"every geometry (also self-intersecting, clockwise or very large ones), every call",
  "Tests never compare the input after the call, and the code that modifies it runs only for some shapes.",
  GD+IDX+["s2tools/cellunion.go","s2tools/geojsoncells.go"],[("reads only","index/geodata/tools.go")],observe=["stores to memory reachable from parameters"])
p("C30","Malformed geometry and empty input are refused with an error",
  "A geometry that is missing, has too few or an odd number of coordinates, or yields no cover, and an empty ID, is refused with an error by every index and conversion operation; it never causes a panic and is never silently accepted and stored in a form that later queries cannot read.",
  ["inputs"],"every geometry value that can be decoded or built, every ID",
  "Tests use only well-formed geometries and non-empty IDs.",
  GD+IDX,[("length and nil checks","index/geodata/tools.go")],observe=["returned error, index expressions"])
p("C31","Every geometry kind is handled or refused everywhere",
  "Every operation that depends on the kind of a geometry handles each defined kind with the conversion meant for that kind, or returns an error; no kind, including unknown ones, is silently dropped or turned into another kind, and the kinds accepted for storing can be exported again.",
  ["inputs"],"every geometry kind value, including undefined ones, in every converter",
  "Tests use three kinds in some converters, none uses multipolygons or unknown kinds.",
  ["index/geodata/tools.go"],[("switches over the geometry type","index/geodata/tools.go")],observe=["result per kind"])
p("C32","Feature properties survive conversion unchanged",
  "Every string, number and boolean property of a feature is kept under the same name with the same value when converted to the stored form and back, properties already present under other names are kept, and a property of an unsupported type is refused with an error rather than dropped or altered.",
  ["inputs"],"every property map",
  "The test features have no properties.",
  ["index/geodata/tools.go"],[("PropertiesToGeoData, PropertiesToJSONMap","index/geodata/tools.go")],observe=["maps written"])
p("C33","HTTP handlers answer once and report every bad request as an error",
  "For every request each debug handler produces exactly one response: a 4xx error when a parameter, the body, the feature or a cell is malformed, and otherwise the success response; it never writes a success body after an error, and never panics on a decoded request.",
  ["inputs"],"every request",
  "One valid request is tested.",
  ["s2tools/handlers.go"],[("http.Error and return","s2tools/handlers.go")],observe=["ResponseWriter calls"])
p("C34","Parsing a cell yields a valid cell or nothing",
  "Parsing a cell from text returns nil unless the text denotes a valid cell, and never panics, whatever the text.",
  ["inputs"],"every string",
  "Four strings are tested.",
  ["s2tools/parse.go"],[("ParseCellID","s2tools/parse.go")],observe=["returned cell"])
p("C35","Cell-set operations only combine their inputs",
  "The union of cell lists contains exactly the cells of its inputs, each once and in ascending order; the difference contains exactly the cells of the first list not accounted for in the second; cell exports contain one entry per input cell, in order.",
  ["inputs"],"every list of cells",
  "Two small lists are tested.",
  ["s2tools/cellunion.go","s2tools/geojsoncells.go"],[("CellUnionUnion, CellUnionMissing","s2tools/cellunion.go")],observe=["returned lists"])
p("C36","Only the outer ring and two dimensions of a geometry are stored",
  "Converting a geometry stores exactly its positions as longitude/latitude pairs: elevation or measure values are never mistaken for coordinates, and the holes of a polygon are never joined to its outer ring.",
  ["inputs"],"every decoded geometry, with any dimension and number of rings",
  "Test geometries are two-dimensional, without holes.",
  ["index/geodata/tools.go"],[("GeomToGeoData","index/geodata/tools.go")],observe=["stored coordinates"])
p("C37","Covers geometrically contain the geometry",
  "The cover computed for a geometry contains every point of it, and a polygon's cover is that of its interior whatever the orientation or convexity of its ring.",
  ["inputs"],"every geometry",
  "Three shapes are tested.",
  GD,[("s2.RegionCoverer","index/geodata/tools.go"),("ring orientation","index/geodata/loop.go")],observe=["cells of the cover"])
p("C38","Concurrent batches and readers are linearizable",
  "The batches executed concurrently on a store take effect one at a time in an order consistent with real time, and every reader observes a prefix of that order.",
  ["schedules","histories"],"all interleavings on every backend",
  "Tests are sequential.",
  WR+RD,[("engine transactions","store/*")],observe=["histories"])
p("C39","Committed data survives a crash",
  "After a crash at any point, reopening a persistent store shows every acknowledged batch completely and no part of any unacknowledged one.",
  ["crash_points","fault_sequences"],"every crash point",
  "No test crashes the process.",
  ST+WR,[("engine logs","dependencies")],observe=["store content after reopening"])
p("C40","All backends return the same results for the same history",
  "The same sequence of batches, lookups and scans gives the same keys and values on every storage backend.",
  ["histories","inputs"],"all histories",
  "Each backend is tested separately on a few fixed histories.",
  ["store"],[("KVStore implementations","store/*")],observe=["results"])
if __name__=="__main__":
    for x in P: print(json.dumps(x))

import json,glob,os,re,subprocess
H='''# Static checks for akhenakh/oureadb

## Method

One analyser, `checker/`, decides every claimed property.  It type-checks
/repo's current source, builds SSA (golang.org/x/tools/go/ssa) and interprets
it abstractly under *client programs* (`checker/clients/`): small Go programs
that use the repository's exported API in every way the property quantifies
over (`any()` is an unknown choice, `buf()` unknown bytes, `config()` any
configuration).  The clients are type-checked and compiled to SSA together with
the repository and are never run; nothing of the repository is executed, and no
path condition is handed to a solver.

* **Values** are terms over symbols; heap objects are cells, arrays made of
  segments (runs of unknown bytes, of single elements, of any number of
  elements of one of several shapes), maps, channels and closures.
* **Facts** of a path are truth values of atoms and linear inequalities, decided
  by a small syntactic procedure (no SMT).
* **Joins**: states with the same content at the same place are merged; calls
  of repository functions whose state matches an earlier one reuse its result.
* **Loops** are widened: the states that reach a loop head are anti-unified
  until the pattern covers every later arrival, so a result holds for any number
  of iterations.  Elements that iterations append become an indexed family
  ("element j was made from element j of the input"); facts about each element
  are kept for the family, and stay when a later arrival has no element of it.
  Loops whose exit test compares two constants are unrolled (up to 64 times).
* **Calls** within the repository are followed, also through interfaces,
  closures, `defer` and goroutines.  Calls that leave it are replaced by models
  (`models_*.go`) of what the dependency documents; every fallible call also
  continues on a path on which it fails, with an error that may be any error
  variable of the engine (so code that tolerates `ErrTxnTooBig` or
  `ErrDatabaseNotOpen` is followed into its special case).
* **Rules**: each rule is a requirement at a construct (an *obligation*), keyed
  by rule and construct.  A failing obligation is reported with its file and
  line, the branches taken and the call stack.  `checker/required.txt` lists the
  obligations each client has to reach: a function that drops the operation
  altogether is reported as well.

The evidence file of a property lists the clients, functions, call sites and
obligations analysed, the loop invariants used, and what was not completed.

### Why this reaches what tests cannot

A client stands for all inputs, all fault sequences and, for histories, all
orders of its calls: the abstract states cover every value of the unknowns, every
iteration count and every failing call.  Tests sample a handful.

### Limits, stated once

* Models of dependencies are trusted (list below).  Integers are mathematical
  except where a conversion narrows them; floats are exact constants or opaque.
* A loop that defeats the widening, an unmodelled construct, or a client that
  needs more than its time limit is listed under `incomplete` in the evidence
  and is not itself reported.  Such a client is analysed once more with its
  loops followed for two rounds only: that discharges nothing, but what it
  refutes is refuted; what only longer runs would show is missed.
* In the clients of the indexes and of s2tools, an obligation that the invariant
  of a loop does not discharge is reported only if the same client, with its
  loops followed for two rounds and nothing abstracted, shows a violation too
  (or cannot be completed that way): several equivalent ways of writing those
  loops lose information in the invariant.  The geometry and store clients have
  no such second look, since their defects often need more rounds.  Known
  imprecision left there: a line built by indexing `2*i` instead of stepping by
  two (C28, bounding rectangle) and a merge lock taken through `RLocker` (C13)
  are reported although they are equivalent.
* Options of another dynamic type than documented are not judged (C20);
  configurations are explored one option at a time, with all the other options
  absent or all given.
* Positions of long lists are watched at one arbitrary index, first and last;
  totals are counted.  Multi-cell queries watch one arbitrary cell and key.
* Errors of closing a reader, writer or batch are not storage failures.
* A null store and panicking user merge operators are outside the claims.
* The quick and the thorough command run the same rules; thorough also runs the
  `Deep*` clients (longer histories), and every client once more with its loops
  followed for two rounds without invariants, where nothing is abstracted.

### Models

Standard library (bytes, strings, strconv, encoding/binary, sort, sync, time,
errors, fmt, os, io, net/http, encoding/json), BoltDB, goleveldb, Badger, gtreap,
golang/geo s2, go-geom and its GeoJSON encoder, protobuf structs, gorilla/mux-like
request access, pkg/errors, go-kit log.  Facts the rules depend on and that were read in the
dependencies' sources:

* bolt: values and cursor keys are memory of the mapped file, valid until the
  transaction ends; `Put` copies the key and retains the value until commit; a
  failed `Commit` ends the transaction; `Begin(true)` fails on a read-only database.
* goleveldb: batches copy; `Get` returns a private copy; iterator errors persist
  after `Release`; a transaction whose commit failed must be discarded, and a
  second transaction or write blocks while one is open; `BytesPrefix` has no upper
  end for an all-0xff prefix.
* badger: `Set` and `Delete` retain their slices until the transaction ends;
  ending a transaction with an open iterator panics; `Get` of an empty key fails;
  `ValueCopy(nil)` of an empty value is nil.
* gtreap: persistent; `VisitAscend` visits items at or after the pivot.
* s2: `RangeMin/RangeMax/Next` arithmetic, the coverer's clamping, `CellIDFromToken`
  of malformed text.

## Decision per property

'''
R={
'C01':('resource typestate of reader, iterator, writer and batch handles, pinned until released, and required closed at every return of the index operation; use after release and close order (iterator before reader) are errors','index: every write and query, plus the clients with deleted/undecodable keys'),
'C02':('every fallible store call and key decoding sets "failed" on its failing path; an index operation must return a non-nil error on every path that failed','same clients as C01'),
'C03':('provenance of returned byte strings: regions of store memory, iterator memory and the caller are tracked through copies; results must be fresh','index queries, cell and key accessors'),
'C04':('the same provenance for Get/MultiGet of every backend, followed by a write to the returned slice','kv *Get, *MultiGet'),
'C05':('caller buffers are scribbled after each batch call; bytes reaching the engine must not come from a scribbled buffer','kv *Batch, *Merge clients'),
'C06':('what reached the engine is a log attached to its transaction; after an error nothing may be committed, after success everything, and every transaction has ended','kv *Execute*, *Merge*, wrong batch kinds'),
'C07':('success requires a successful commit of the whole batch, made with synchronous options','kv *Execute*, Open options'),
'C08':('engine handles made after the reader was opened are marked late; no read may come from a late handle, and no write reaches memory a snapshot holds','kv *Snapshot, *Scan, *Get'),
'C09':('the log the engine received is compared, element by element for any number of operations, with the operations given to the batch (kind, key, value, order)','kv *Ops'),
'C10':('three-way outcome of a lookup against the model\'s present/absent/failed paths','kv *Get'),
'C11':('length and i-th element of the result against the i-th key; failure propagated','kv *MultiGet, store.MultiGet'),
'C12':('the operands and the base value given to the operator, and the value stored, as terms','kv *Merge, store merge'),
'C13':('the read of the base value and the write happen in one transaction or under one common lock, also for batches without merges','kv *Merge'),
'C14':('log after Reset is empty','kv *Reset'),
'C15':('the cursor model yields arbitrary entries; Valid requires proven bounds lower <= key < upper, for all seek targets; matching entries may not be skipped','kv *Prefix*, *Range*'),
'C16':('calls after exhaustion: panics of the engine iterators, validity, blocking receives','kv *Exhausted'),
'C17':('locks held at every exit, blocking sends/receives guarded by a cancellation that closing closes, double close','kv Treap*'),
'C18':('lockset intersection for every location reachable by two goroutines','kv Treap*'),
'C19':('typestate of engine handles on each failing path of New/Reader; results exactly one of value and error, typed nils included','kv/open.go: *Open*, *Use*, *Reader'),
'C20':('the configuration is an opaque map; each engine setting is compared with the term of its option on the path where it is given and with the default where it is absent; later uses (bucket, fill percentage, read-only) included','kv/open.go: *Open*, *Use*'),
'C21':('every deletion must be of an entry whose key provably starts with the prefix and whose value is provably the zero byte, read in the write transaction that deletes it; failures reported; handles closed; stale batches and self-deadlock of transactions are errors','kv/open.go: *Compact*'),
'C22':('symbolic layout of written keys (segments be64/le64/bytes) and decoding of the same layout','index: *Key clients'),
'C23':('interval arithmetic over cell ids: lower bound <= smallest key, upper bound > largest key, nothing of another cell; decided on the terms parent/rangemin/rangemax','index: *Query, *Cell clients'),
'C24':('the level arguments of the coverer and of the stored cells against the configured level','index: *Flat*, geodata covers'),
'C25':('the set of IDs returned against the positions that were tested by the area\'s containment, both directions','index: PointRadius, PointRect'),
'C26':('a watched cell and key: consulted, returned, returned once','index: *Cells, *Cover'),
'C27':('terms of the reversed time in keys and bounds','index: Time*'),
'C28':('roles: every latitude/longitude argument must be the latitude/longitude of the same position; counts of positions','geodata, index, s2tools'),
'C29':('writes to objects reachable from inputs','all geodata, index and s2tools clients'),
'C30':('panics (nil, bounds, division), and refusal on the paths where the geometry is malformed','geodata, index, s2tools'),
'C31':('per kind: the converter used and its result, unknown kinds refused','geodata, s2tools'),
'C32':('per property kind: name and value terms before and after','geodata Props clients'),
'C33':('typestate of the response writer: statuses, bodies, one answer; error status exactly where the request is bad','s2tools handlers'),
'C34':('result terms against validity facts','s2tools Parse clients'),
'C35':('a watched cell: membership, multiplicity, order of output against the inputs','s2tools Union/Missing/exports'),
'C36':('the coordinate terms stored against the outer ring of the input; stride','geodata Import clients'),
}
N={'C37':1,'C38':1,'C39':1,'C40':1}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
out=H+'| id | what is decided, against what | analysed under |\n|---|---|---|\n'
for p in props:
    if p['id'] in R: out+='| %s %s | %s | %s |\n'%(p['id'],p['title'],R[p['id']][0],R[p['id']][1])
out+='\nCost: seconds to three minutes for a property, one property at a time on 8 cores;\nwhole runs are limited to 600 s, single clients to 200 s.\n\n### Not applicable\n\n'
m=json.load(open('/verif/MANIFEST.json'))
for n in m['not_applicable']: out+='* **%s** %s\n'%(n['property'],n['reason'])
out+='''
## Defects found and repaired

Each is one `fix:` commit in /repo, recorded in `known_findings.txt`; no finding is
left unrepaired.

'''
for l in open('/verif/known_findings.txt'):
    if l.startswith('fixed:'):
        x=l.split(None,3); out+='* %s (%s) %s\n'%(x[1].split('=')[1],x[2],x[3].strip())
out+='''
## False alarms corrected on the way

* Point radius and rectangle queries do not promise each ID once: an ID indexed at
  two positions may come back twice; the rule was dropped for them (C26 claims it for
  multi-cell queries).
* Refusing a valid geometry in a cover is not claimed (S2 may refuse it).
* Closing a reader, writer or batch may fail without the operation failing.
* Empty-interval time windows and inverted windows scan nothing: allowed.
* Buffers given to Seek/iterator constructors need not be copied.
* `cmp`/`streq` facts written in the other order, facts about list elements in a new
  round of an outer loop, and slices collected first and deleted later (C21) were lost
  by the widening and raised alarms in refactorings; the widening was corrected.

## Planted bugs

`seeded/<id>/` holds them, with the demonstration; `tools/seeds_*.py` generates and
validates them (`tools/seedtool.py make`), `seedtool.py check` runs the check of their
property.  Each row: what it needs, and the obligation that reports it.

| planted bug | needs | reported by |
|---|---|---|
'''
res={}
try:
    for l in open('/tmp/seedcheck.txt'):
        f=l.rstrip('\n').split(' ',4)
        if f[0]=='caught': res[f[1]]=f[3]+' `'+l.split(' ',4)[4].split(' / ')[0].strip()+'`'
        elif f[0]=='MISSED': res[f[1]]='**missed** (the client runs into its time limit)'
except FileNotFoundError: pass
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(d)); j=json.load(open(d))
    out+='| %s | %s | %s |\n'%(i,j['needs'],res.get(i,'?'))
open('/verif/DESIGN.md','w').write(out)

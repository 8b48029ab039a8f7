package main

// Prop says how a property is decided.
type Prop struct {
	Scens  []string
	Quick  float64 // seconds of exploration in the quick tier
	Rule   string
	Real   []string
	Stub   []string
	Assume []string
}

var (
	realCore = []string{"all of package gotext (built from /repo, instrumented with scheduling points)", "package gotext/plurals", "encoding/gob, regexp, fmt, bytes (standard library)"}
	stubCore = []string{"goroutine scheduler (simulator)", "package sync (simulator, same blocking rules)", "disk behind package os and fs.FS (simulated)", "map iteration order and hash seeds (seeded)"}
	assume   = []string{"preemption happens only between statements of the instrumented packages and at lock, channel and I/O calls", "sampling: a clean batch is evidence, not proof"}
)

var props = map[string]*Prop{
	"C01": {Scens: []string{"cat-race"}, Quick: 40, Real: realCore, Stub: stubCore, Assume: assume,
		Rule: "Every run is watched by the Go race detector, which sees only the happens-before edges of the code's own synchronisation."},
	"C02": {Scens: []string{"cat-lin"}, Quick: 40, Real: realCore, Stub: stubCore, Assume: assume,
		Rule: "Every recorded history and the final contents are checked for linearizability against the catalogue model."},
	"C03": {Scens: []string{"cat-snap"}, Quick: 40, Real: realCore, Stub: stubCore, Assume: assume,
		Rule: "Every export in a history has to equal the model's contents at one instant within the call."},
	"C04": {Scens: []string{"loc-race"}, Quick: 40, Real: realCore, Stub: stubCore, Assume: assume,
		Rule: "Every run is watched by the Go race detector, which sees only the happens-before edges of the code's own synchronisation. Files are replaced, overwritten and removed, and reads fail, while clients run."},
	"C05": {Scens: []string{"loc-lin"}, Quick: 40, Real: realCore, Stub: stubCore, Assume: assume,
		Rule: "Every recorded history and the final contents are checked for linearizability against the model of a locale and its files; AddDomain is two steps (read, install), calls on the default domain are two (which domain, lookup)."},
	"C06": {Scens: []string{"pkg-race"}, Quick: 40, Real: realCore, Stub: stubCore, Assume: assume,
		Rule: "Every run starts from the state of a fresh process (about a third without any configuration) and is watched by the Go race detector, which sees only the happens-before edges of the code's own synchronisation; every lookup is compared with the translations that exist."},
	"C07": {Scens: []string{"pkg-lin"}, Quick: 40, Real: realCore, Stub: stubCore, Assume: assume,
		Rule: "Every recorded history and final reads are checked for linearizability against the model of the package's configuration, locales and files; a reconfiguration is two steps (settings, reload), a lookup up to four (default domain, languages, load on first use, lookup)."},
	"C08": {Scens: []string{"pkg-fallback"}, Quick: 40, Real: realCore, Stub: stubCore, Assume: assume,
		Rule: "Every answer is compared with a pure function of configuration, files and arguments."},
	"C09": {Scens: []string{"loc-io", "pkg-io", "io-obj", "io-benign"}, Quick: 40, Real: realCore, Stub: stubCore, Assume: assume,
		Rule: "Every lookup has to answer with a translation from one version of the message or with its source text, and every call has to end; when the disk is only slow or delivers less than asked for, all of the file has to be there."},
	"C10": {Scens: []string{"io-reload"}, Quick: 40, Real: realCore, Stub: stubCore, Assume: assume,
		Rule: "Every history has to be explained by reloads that replace a domain as a whole, or, only if a fault was injected into them, leave everything as it was."},
	"C11": {Scens: []string{"io-recover", "io-recover-pkg"}, Quick: 40, Real: realCore, Stub: stubCore, Assume: assume,
		Rule: "After a faulty stage the disk works; one reload (or nothing, for lookups through the package) has to be enough for every answer to be that of the files."},
	"C12": {Scens: []string{"torn-mo"}, Quick: 40, Real: realCore, Stub: append(stubCore[:len(stubCore):len(stubCore)], "the tool that writes the catalogue (simulated, with crashes and lost blocks)"), Assume: assume,
		Rule: "After loading, exports and lookups are compared with a reference reader of the damaged bytes and with what was loaded before; allocation is measured."},
	"C13": {Scens: []string{"torn-po"}, Quick: 40, Real: realCore, Stub: append(stubCore[:len(stubCore):len(stubCore)], "the tool that writes the catalogue (simulated, with crashes and lost blocks)"), Assume: assume,
		Rule: "After loading, every entry that neither touches the damage nor is next to it has to be served as in the intact file; exports and lookups have to agree."},
	"C14": {Scens: []string{"restart"}, Quick: 40, Real: realCore, Stub: stubCore, Assume: assume,
		Rule: "Several simulated processes with objects of their own change them, copy them through their binary form and restart; after every import original and copy are compared with the model in every lookup, export and header."},
	"C15": {Scens: []string{"cache"}, Quick: 40, Real: realCore, Stub: stubCore, Assume: assume,
		Rule: "A damaged binary form arrives while clients look up; a refused one must leave no trace, an accepted one a working object, and the intact one must be accepted afterwards."},
	"C16": {Scens: []string{"text-det"}, Quick: 40, Real: realCore, Stub: stubCore, Assume: assume,
		Rule: "The same contents are built in several objects in different orders, by several clients, under different map seeds; every export of each has to be the same bytes."},
	"C17": {Scens: []string{"text"}, Quick: 40, Real: realCore, Stub: stubCore, Assume: assume,
		Rule: "Every export is read by a strict PO reader of the simulator and by a new Po, compared with the model, exported again and compared byte by byte; the next cycle starts from it."},
	"C18": {Scens: []string{"rules"}, Quick: 40, Real: realCore, Stub: stubCore, Assume: assume,
		Rule: "Several clients compile and evaluate the same rules; every result is compared with an evaluator of C expressions and with the other clients' results; a goroutine that is left over fails the run."},
	"C24": {Scens: []string{"format"}, Quick: 40, Real: realCore, Stub: stubCore, Assume: assume,
		Rule: "A catalogue is written in any layout that the PO or MO format allows and loaded through any way in, over a slow disk and with lookups going on; every answer, every message, reference and header has to be as written."},
	"C26": {Scens: []string{"hang-loc", "hang-cat", "hang-pkg", "hang-many"}, Quick: 40, Real: realCore, Stub: stubCore, Assume: assume,
		Rule: "The disk stops answering, for one file until every client that makes no call reading it has ended, or for good; a client that is held up all the same is a deadlock, and the histories still have to be explained by the models."},
	"C27": {Scens: []string{"nest-cat", "nest-loc", "nest-pkg"}, Quick: 40, Real: realCore, Stub: stubCore, Assume: assume,
		Rule: "Formatting arguments whose methods call the package again, up to three deep, and translators that ask the locale they belong to, while others set, load and reconfigure: no deadlock, and the histories still have to be explained by the models."},
	"C28": {Scens: []string{"leak-loc", "leak-pkg", "leak-grow"}, Quick: 40, Real: realCore, Stub: stubCore, Assume: assume,
		Rule: "When all calls have returned no file may be open and no goroutine left, whatever failed; and repeating the same loads, imports and lookups must not make the heap (measured after garbage collection) grow round after round."},
	"C29": {Scens: []string{"find-seq", "find-conc", "find-pkg"}, Quick: 40, Real: realCore, Stub: stubCore, Assume: assume,
		Rule: "Files of a domain, and files that mean nothing, lie in many places and appear, vanish and move, also while they are searched for; every load and every answer of GetActualLanguage has to be that of the first place that has the file, or of one that it may have seen as first during the call."},
	"C25": {Scens: []string{"own-cat", "own-loc", "own-pkg"}, Quick: 40, Real: realCore, Stub: stubCore, Assume: assume,
		Rule: "After every call the caller overwrites each buffer and list that it passed in or got back; the histories still have to be those of the model, which knows nothing of these buffers."},
}

func warmUp() {}

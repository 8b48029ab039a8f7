#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

OVERLAY = "none in /repo: scheduling points, locks and disk are put behind a seam by a build overlay"
prop("C01", "Po, Mo and Domain objects are safe under any concurrent use",
 "Any number of goroutines may call any methods of the same Po, Mo or Domain (lookups, appends, is-translated, setters, parsing, binary and text export and import) at the same time. Whatever the interleaving, no call panics, no goroutine blocks for ever, and no two calls access the same memory without synchronisation.",
 ["schedules", "histories"], "every interleaving of every combination of calls on one or two catalogues, with and without plural rules, contexts, references and read errors",
 "The tests run three races with a handful of calls under whatever schedule the machine gives; a missing lock in one method shows only in particular pairs of calls and interleavings.",
 ["domain.go", "po.go", "mo.go", "translation.go", "helper.go"],
 [("trMutex and pluralMutex", "domain.go, Domain"), ("parse under the write lock", "po.go Parse, mo.go Parse")],
 ["results, panics and blocking of the public methods", "race detector"],
 [("translations, contextTranslations, pluralTranslations, pluralforms, customPluralResolver", "contents of a catalogue", "domain.go Domain")], OVERLAY)
prop("C02", "Every call on a catalogue takes effect atomically, and none is lost",
 "Every call on a Po, Mo or Domain (lookup, append, is-translated, Set and its variants, references, dropping stale messages, custom plural resolver, parse, binary import) behaves as if executed alone at one instant between its start and its return. So lookups answer from one version of a message with the plural rule of that instant (falling back to the source text for what has no translation), and a write that has returned is seen by every later call and never undone or lost because of another call.",
 ["schedules", "histories"], "every concurrent history of calls on one catalogue, every plural rule and count, messages with and without context and plural",
 "The tests check single-threaded answers; whether a concurrent history has a sequential explanation depends on the interleaving.",
 ["domain.go", "po.go", "mo.go", "translation.go"],
 [("reader/writer lock around catalogue and rule", "domain.go, all methods"), ("merge of parsed messages", "domain.go, po.go, mo.go")],
 ["answers of every call and a full export after the run, compared with a sequential reference catalogue"],
 [("Domain", "messages, plural rule, custom resolver, dirty marks", "domain.go")], OVERLAY)
prop("C03", "Exports show a catalogue at one instant and are private to the caller",
 "Every export of a catalogue (maps of messages with and without context, binary form, PO text) shows exactly the contents it had at one instant during the call, even while other goroutines change it. What an export returned never changes afterwards, whatever happens to the catalogue, and changing it has no effect on the catalogue.",
 ["schedules", "histories"], "every interleaving of exports with writes, parses and other exports, and every later use of the returned copies",
 "No test exports while writing or keeps an export across a write.",
 ["domain.go", "po.go", "mo.go", "translation.go", "introspector.go"],
 [("deep copies under the read lock", "domain.go GetTranslations, GetCtxTranslations, MarshalText; po.go and mo.go MarshalBinary")],
 ["returned maps and bytes, compared with the reference catalogue's versions"], None, OVERLAY)
prop("C04", "A Locale is safe under any concurrent use",
 "Any number of goroutines may use the same Locale (lookups in any domain, is-translated, AddDomain, AddTranslator, SetDomain, getters, export and import of the whole locale) at the same time, also while its files are replaced or fail to be read and while a translator added to it is changed directly. No call panics, blocks for ever or accesses memory without synchronisation with the others.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of locale calls, direct calls on its translators, and file replacements and read failures",
 "TestLocale race tests exercise one pair of calls under the machine's schedule.",
 ["locale.go", "domain.go", "po.go", "mo.go"], [("Locale's RWMutex", "locale.go")],
 ["results, panics, blocking", "race detector"], [("Domains, defaultDomain, path, lang", "loaded domains and configuration", "locale.go Locale")], OVERLAY)
prop("C05", "Concurrent Locale calls have a sequential explanation",
 "Lookups in a named domain, AddTranslator, SetDomain, the getters and export or import of a whole Locale each take effect at one instant during the call; AddDomain reads its file at one instant and then makes the domain visible as a whole, so that lookups see the domain as it was or completely replaced; a catalogue that callers also change directly is read at one instant after the lookup has found it. Calls on the default domain use the default that was set at some instant during the call, the first domain added becomes the default, and a change that has returned is seen by all later calls.",
 ["schedules", "histories"], "every concurrent history of calls on one Locale, every directory layout (with or without LC_MESSAGES, full or two-letter language, po or mo), file replacement between and during loads",
 "The tests call a Locale from one goroutine, or concurrently without checking the answers.",
 ["locale.go", "po.go", "mo.go", "domain.go"], [("domain built aside, installed under the lock", "locale.go AddDomain"), ("all-or-nothing restore", "locale.go UnmarshalBinary")],
 ["answers of the calls, export of the locale after the run"], None, OVERLAY)
prop("C06", "Package-level functions are safe under any concurrent use",
 "The package-level functions (lookups, is-translated, Configure and the setters and getters, SetLocales, GetLocales) may be called by any number of goroutines at any time, including as the very first use of the package, while domains are loaded on first use and while another goroutine reconfigures. No call panics, deadlocks or accesses memory without synchronisation, and every lookup answers with a complete translation that some configuration in force during the call provides or with the source text.",
 ["schedules", "histories", "configurations", "fault_sequences"], "every interleaving of lookups with first use, lazy loading and reconfiguration, all orders of configuration calls, and read failures of the files",
 "One test starts a few goroutines doing the same lookup; first use, lazy loading and reconfiguration under contention are not exercised.",
 ["gotext.go", "locale.go"], [("globalConfig lock", "gotext.go"), ("loadLocales on first use", "gotext.go loadLocales")],
 ["results, panics, blocking", "race detector"], [("globalConfig", "library, languages, domain and locales", "gotext.go")], OVERLAY)
prop("C07", "Package reconfiguration takes effect for all later lookups",
 "Once Configure, SetLibrary, SetLanguage, SetDomain, SetLocales or SetStorage has returned, every lookup and getter called afterwards uses the new setting (unless reconfigured again) and the contents the files had at the reload or later. A lookup that runs during a reconfiguration answers as under one of the settings in force during the call, never with a mixture for one message.",
 ["schedules", "histories", "configurations"], "every interleaving of lookups, getters and reconfigurations, with catalogue files changing between them",
 "The tests configure and look up in one goroutine with unchanging files.",
 ["gotext.go", "locale.go"], [("rebuild of locales on reload", "gotext.go loadLocales"), ("setters", "gotext.go Configure, SetDomain, SetLanguage, SetLibrary, SetLocales")],
 ["answers of package functions against a model of the configuration"], [("globalConfig", "library, languages, domain and locales", "gotext.go")], OVERLAY)
prop("C08", "Language fallback does not depend on what was looked up before",
 "For a fixed configuration and fixed files, the answer of every package-level lookup depends only on its arguments: it is the translation of the first configured language that has one for that message, count and context, else the source text (with arguments formatted in), whichever lookups or domain loads, in whatever order or goroutine, came before. IsTranslated and its variants say true exactly when one of the given (by default: the configured) languages has such a translation.",
 ["schedules", "histories", "configurations"], "every order and interleaving of lookups over several domains and languages and every file layout",
 "The tests look up messages one at a time after eager configuration; the first lookup of a domain, in each kind of call, and interleaved first lookups take other paths.",
 ["gotext.go", "locale.go"], [("lazy AddDomain in lookups", "gotext.go GetD, GetND, GetDC, GetNDC, IsTranslatedND, IsTranslatedNDC"), ("search of the file of a domain", "locale.go findExt, GetActualLanguage")],
 ["answers of package functions against a pure function of configuration and files"], None, OVERLAY)
prop("C09", "I/O failures degrade lookups to source text or a complete version",
 "When reading catalogue files fails in any way (missing, unreadable, vanishing between check and open, read errors and short reads, replaced while being read), no call panics or blocks and every lookup still answers: with a translation from a complete version of the message in some version of the file that existed, or with the source text formatted as usual. It never answers with an empty, truncated or mixed-up string, and reads that are only slow, deliver fewer bytes than asked for, or come from files whose size is not known in advance are no failure: every message of the file is there.",
 ["fault_sequences", "schedules", "histories"], "every sequence of read faults at every operation, for os paths and for fs.FS with every combination of optional interfaces, with concurrent lookups",
 "Tests have no failing disk; they cover only a file that is missing from the start.",
 ["locale.go", "po.go", "mo.go", "helper.go", "gotext.go"], [("read the whole file before use", "domain.go/po.go getFileData"), ("errors leave the object usable", "po.go ParseFile, mo.go ParseFile, locale.go AddDomain")],
 ["answers of lookups during and after the faults"], None, OVERLAY)
prop("C10", "A failed reload keeps the translations that were loaded",
 "If a domain is loaded and a later AddDomain or ParseFile for it cannot read the file, every message keeps the translation and plural rule it had; a successful reload replaces the domain of a Locale as a whole. This holds for every kind of read failure and while other goroutines look up.",
 ["fault_sequences", "histories", "schedules"], "every sequence of successful and failing reloads and file versions",
 "No test makes a reload fail.",
 ["locale.go", "po.go", "mo.go"], [("install only what was read", "locale.go AddDomain, po.go ParseFile, mo.go ParseFile")],
 ["answers of lookups after each reload"], None, OVERLAY)
prop("C11", "Once I/O faults stop, a reload or lookup serves the files again",
 "After the disk works again, one AddDomain, ParseFile or Configure call (or, for a domain that could not be loaded on first use, simply the next package-level lookup) serves exactly the contents of the files, whatever failed before. No earlier failure leaves a domain stuck, partially loaded or a lock held.",
 ["fault_sequences", "histories"], "every sequence of faults followed by a fault-free period",
 "Tests never recover from a fault.",
 ["gotext.go", "locale.go", "po.go", "mo.go"], [("a domain that failed to load is not registered", "locale.go AddDomain"), ("retry on next use", "gotext.go GetD etc.")],
 ["full comparison of lookups with the files after faults stop"], None, OVERLAY)
prop("C12", "Torn or damaged MO files never crash or yield damaged strings",
 "Loading an MO file that was cut short at any byte, or whose bytes were damaged, never panics, loops or allocates out of proportion, and leaves all calls usable. A file cut short contributes either nothing or only messages exactly as in the complete file; a damaged one contributes only messages whose id and translation lie within the file as its tables say. A catalogue loaded before keeps all its other messages, and loading the intact file afterwards repairs everything.",
 ["crash_points", "fault_sequences", "inputs"], "every cut point and random damage (bits, zeroed blocks, stale blocks, header fields) of MO files in both byte orders",
 "Tests parse a few intact files and two or three short byte strings.",
 ["mo.go"], [("bounds checks before use", "mo.go Parse")], ["lookups and exports after parsing the damaged file"], None, OVERLAY)
prop("C13", "Torn or damaged PO files never crash, and intact entries survive",
 "Loading a PO file that was cut short at any byte, or whose bytes were damaged, never panics, loops or deadlocks. When the file is cut short, every entry that is complete before the cut is served exactly as in the intact file (with the plural rule, if the header is complete). With other damage, every entry that neither touches the damage nor is next to an entry that does is unaffected, unless the damaged text itself reads as another message with the same id. Loading the intact file afterwards repairs everything.",
 ["crash_points", "fault_sequences", "inputs"], "every cut point and random damage of PO files with contexts, plurals, continuation lines and references",
 "Tests parse a few intact and hand-broken files.",
 ["po.go", "domain.go", "plurals"], [("line-based parser with per-entry state", "po.go parse"), ("header parsing", "domain.go parseHeaders")], ["lookups and exports after parsing the damaged file"], None, OVERLAY)
prop("C14", "A catalogue restored from its binary form behaves like the original",
 "Exporting a Po, Mo, Domain or Locale to its binary form and importing that into a fresh object (or into one already in use) gives an object whose every lookup, is-translated, plural choice, reference, header, comment above the header and later change behaves as the original's at the time of the export. Exporting the restored object again gives the same contents, through any number of restart cycles. (A custom plural resolver, the file system to read from and the marks of what was set since loading are not part of the binary form: they start afresh.)",
 ["histories", "crash_points"], "every catalogue reachable by parsing, setting and dropping; any number of export, restart, import cycles; any map order",
 "Tests restore one fixture and compare a few strings.",
 ["po.go", "mo.go", "domain.go", "locale.go", "translator.go"], [("TranslatorEncoding and LocaleEncoding", "translator.go, locale.go"), ("restore of rule and maps", "translator.go GetTranslator, UnmarshalBinary")], ["all lookups and exports of original and restored object"], None, OVERLAY)
prop("C15", "A damaged binary cache is refused without harm",
 "Importing a binary form that was cut short or damaged in any way returns an error or gives an object that works and whose every answer comes from the imported bytes (an accepted import replaces the earlier contents as a whole); it never panics, a form cut short is always refused with an error, and when an error is returned the receiver still answers exactly as before. This holds for Po, Mo, Domain and whole locales, and while other goroutines look up.",
 ["crash_points", "fault_sequences", "schedules"], "every cut point and random damage of the binary forms, empty input included",
 "Tests import only intact data, or one short string.",
 ["po.go", "mo.go", "domain.go", "locale.go", "translator.go"], [("decode everything before changing the receiver", "UnmarshalBinary")], ["error and lookups of the receiver after the import"], None, OVERLAY)
prop("C16", "PO text export is deterministic",
 "The PO text exported for a catalogue depends only on its contents: it is byte for byte the same in every process, whatever the map iteration order and whatever the order and goroutines in which the messages were added. Plural forms are written in order, and headers and references in a stable order.",
 ["schedules", "histories"], "every map iteration order, insertion order and interleaving that lead to the same contents",
 "Map order is random per run: a test sees one order, and small maps often agree by chance.",
 ["domain.go"], [("sorting before writing", "domain.go MarshalText")], ["bytes of MarshalText"], None, OVERLAY)
prop("C17", "PO text export loses nothing and is a fixed point",
 "Parsing the PO text exported for a catalogue gives a catalogue with the same messages, contexts, plural sources, plural forms, references, headers, comments above the header and plural rule, for all message texts (quotes, backslashes, newlines, any valid UTF-8). Exporting that again gives the same text, and so does loading the text into the catalogue it came from. References belong to exactly the messages they were given for, also when a file lists them on several lines or only for some messages.",
 ["histories", "crash_points", "inputs"], "every catalogue reachable by parsing, setters and dropping stale messages, through any number of save and restart cycles",
 "Tests compare one fixture.",
 ["domain.go", "po.go", "translation.go"], [("escaping", "domain.go MarshalText"), ("unescaping and continuation lines", "po.go parse")], ["reparsed catalogue against the original"], None, OVERLAY)
prop("C18", "Compiling plural rules always ends, leaks nothing and gives one result",
 "Compiling any plural rule, valid or not, ends without panic or deadlock and leaves no goroutine behind, in every interleaving of the goroutines it uses and of concurrent compilations. The result does not depend on the interleaving: either an error, or a rule that gives for every 32-bit count the value the C expression has (and evaluating it never panics). Text that is no expression is refused, and the rules used in practice (chains of conditionals over comparisons of n or n%m with integers, combined with ||, && and parentheses, with spaces anywhere between numbers, n and operators) compile. (A bare n or n%m used as a condition is outside: the package documents its own reading of it in its tests.)",
 ["schedules", "inputs"], "every interleaving of the compiler's own goroutines and of concurrent compilations, over rules generated from the grammar and damaged ones",
 "The compiler's tokenizer runs in goroutines; the tests see one schedule and do not look for leaks.",
 ["plurals/compiler.go", "plurals/expression.go", "plurals/tests.go", "plurals/math.go", "plurals/genfixture.py", "domain.go"], [("tokenizer goroutine and channel", "plurals/compiler.go tokenize"), ("recursive compiler", "plurals/compiler.go")], ["result and error of Compile, number of goroutines left, Eval over counts"], None, OVERLAY)
prop("C19", "xgotext reports every failure to read its sources or write its output",
 "When xgotext walks its source directories or loads a package tree and that fails, or when it saves the extracted domains and any disk operation fails (creating a directory or file, writing, a full disk, closing), the failure is reported to the caller and by the exit status. If extraction and saving report success, every output file is on disk complete, also after an earlier run was interrupted at any point. (A directory that is no loadable Go package is skipped by design.)",
 ["fault_sequences", "crash_points"], "every single or multiple failure, short write and crash at every disk operation of a run, followed by a rerun",
 "Tests extract and save once with a working disk.",
 ["cli/xgotext/parser/domain.go", "cli/xgotext/parser/dir/parser.go", "cli/xgotext/parser/pkg-tree/golang.go", "cli/xgotext/main.go"], [("Save", "cli/xgotext/parser/domain.go DomainMap.Save, Domain.Save"), ("walk of the sources", "cli/xgotext/parser/dir/parser.go ParseDirRec")], ["returned error, exit status and the files on disk"], None, OVERLAY)
prop("C20", "xgotext output does not depend on order and loses no message",
 "The template files that extraction writes depend only on the set of messages found, not on the order of files, packages or map iteration. Every message found (domain, context, text, plural, source references) appears exactly once in its domain's file in a form that a PO reader takes back unchanged, also when several extractions run in one process.",
 ["histories", "schedules"], "every order in which messages are found, every map order, repeated runs, any message text",
 "Tests run one fixture in one order and check a few entries.",
 ["cli/xgotext/parser/domain.go", "cli/xgotext/parser/golang.go", "cli/xgotext/parser/dir", "cli/xgotext/parser/pkg-tree"], [("merge of translations and sorted dump", "cli/xgotext/parser/domain.go")], ["bytes of the saved files"], None, OVERLAY)
prop("C21", "Named and positional formatting substitutes every argument",
 "Formatting with named parameters replaces each reference to a given name by its value in the requested format and leaves everything else unchanged; formatting without arguments returns the string unchanged.",
 ["inputs"], "every format string and argument list", "Only a few strings are tested.", ["helper.go"], [("Sprintf, NPrintf, FormatString", "helper.go")], ["returned or written string"])
prop("C22", "Language codes are simplified consistently",
 "Simplifying a locale code drops encoding and modifier, keeps language and country, and is idempotent.",
 ["inputs"], "every locale code", "Only a few codes are tested.", ["helper.go"], [("SimplifiedLocale", "helper.go")], ["returned string"])
prop("C23", "xgotext recognises exactly the gotext calls of type-checked Go code",
 "Extraction finds every call of the package's and its types' translation methods with literal arguments in type-checked code, whatever the import name or receiver expression, and nothing else.",
 ["programs"], "every Go program", "Only one fixture program is analysed.", ["cli/xgotext/parser/golang.go"], [("type-based call detection", "cli/xgotext/parser/golang.go")], ["extracted messages"])

prop("C24", "Well-formed PO and MO files are served exactly as written",
 "Loading a well-formed catalogue file gives exactly the messages, contexts, plural sources, plural forms, references, headers and plural rule that are written in it, in whatever layout its format allows (PO: comments of every kind, obsolete entries, flags, blank lines, white space around lines, strings in several pieces, escapes, CRLF, plural forms in any order, missing final newline; MO: both byte orders, revisions 0.0 to 1.1, tables and strings in any place, hash table or none, padding, shared strings). This holds for every way in (Parse, ParseFile through os or fs.FS, a Locale, the package functions), however slowly and in however small pieces the file is delivered, while other goroutines look up, and also if the caller reuses its buffer afterwards. A lookup during the load answers as before it or as after it.",
 ["inputs", "schedules", "fault_sequences"], "every layout of every catalogue, every way of loading it, every sequence of short and slow reads, every interleaving with lookups",
 "Tests load a few fixtures in the layout of one tool, in one piece, with nobody looking.",
 ["po.go", "mo.go", "domain.go", "helper.go", "locale.go"], [("line-based parser", "po.go Parse"), ("tables of the MO format", "mo.go Parse"), ("header parsing", "domain.go parseHeaders"), ("reading the whole file", "helper.go getFileData")], ["contents, headers and all lookups of the loaded catalogue"], None, OVERLAY)
prop("C25", "Buffers and lists passed in or returned belong to the caller",
 "When a call has returned, the caller may change or reuse every buffer and list it passed in (bytes to parse or import, buffers to append to, lists of references or locales) and everything it got back (exports, appended bytes, lists of references, languages and locales): no catalogue, Locale or package setting changes by that, in no interleaving with other goroutines, and neither do the results other callers got.",
 ["histories", "schedules"], "every sequence and interleaving of calls after each of which the caller overwrites what it passed in and got back",
 "The tests never touch a buffer or list again after the call.",
 ["domain.go", "po.go", "mo.go", "locale.go", "gotext.go", "helper.go"], [("copies of lists", "domain.go SetRefs, GetRefs; gotext.go SetLocales, GetLocales, GetLanguages"), ("strings made from parsed bytes", "po.go, mo.go Parse")], ["answers of all later calls against a model that knows nothing of the buffers"], None, OVERLAY)
prop("C26", "A hung disk holds up only the calls that read from it",
 "While AddDomain of a Locale or ParseFile of a Po or Mo waits for a disk (or fs.FS) that does not answer, every other call on the same object still ends and answers from what is loaded: lookups, is-translated, setters, parsing of bytes, exports, imports, changing the default domain, and loading a file that can be read. The package-level functions answer without waiting once no disk operation is needed, that is when the domain asked for and the default domain are loaded for every configured language, also while other package-level lookups wait for a domain that has to be loaded. When the disk answers again, the waiting calls end and serve the files.",
 ["schedules", "fault_sequences"], "every sequence of calls and loads, each disk operation of which may hang until the rest of the run has ended",
 "No test has a disk that hangs.",
 ["locale.go", "po.go", "mo.go", "gotext.go", "helper.go"], [("files are read before a lock is taken", "locale.go AddDomain, po.go ParseFile, mo.go ParseFile"), ("nothing is loaded twice", "gotext.go")], ["calls that end while the disk hangs, and their answers"], None, OVERLAY)
prop("C27", "Callers' code that gotext calls may call gotext",
 "Get, GetN, GetC, GetNC, their domain forms and the Append functions format arguments with fmt, which calls the arguments' String, Error, Format or GoString methods; a Locale calls the lookup methods of a Translator that the caller added. This code may itself look up translations, ask whether messages are translated, read settings, export, or add domains, on the same catalogue or Locale or at package level, at any nesting: no call deadlocks, whatever other goroutines set, load or reconfigure meanwhile, and outer and inner calls answer as they would one after the other. (Not covered: what an fs.FS or an argument to the setters calls.)",
 ["schedules", "histories", "configurations"], "every nesting of calls through formatting arguments and translators, with every interleaving of writers and reconfigurations",
 "No test passes an argument that calls the package; with locks held, the call deadlocks, in part only if a writer arrives between.",
 ["domain.go", "locale.go", "gotext.go", "helper.go"], [("arguments are formatted without locks", "domain.go, locale.go, gotext.go lookups"), ("formatting", "helper.go FormatString, Appendf")], ["calls that end, answers of outer and inner calls"], None, OVERLAY)
prop("C28", "Loading and looking up for ever leave nothing behind",
 "When calls of the library have returned (AddDomain, ParseFile, Parse, Configure and the other package-level functions, imports, exports, lookups), whatever failed meanwhile (missing, unreadable, vanishing, damaged or replaced files, refused imports), every file they opened is closed again and every goroutine they started ends. A process that loads the same files again and again, imports the same bytes or looks up ever different texts and counts does not keep memory for each time: what it holds depends on what is loaded, not on how often.",
 ["histories", "fault_sequences", "schedules"], "every sequence, any number of times, of loads, failed loads, imports and lookups, with every sequence of disk faults and every interleaving",
 "Tests load each file once, from a disk that works, and never count open files, goroutines or memory.",
 ["helper.go", "translator.go", "locale.go", "po.go", "mo.go", "gotext.go", "domain.go"], [("reading and closing files", "translator.go getFileData; locale.go findExt"), ("what is replaced and what accumulates at a reload", "domain.go parseHeaders; gotext.go loadLocales")], ["open files and goroutines when all calls have ended; heap after garbage collection, round after round"], None, OVERLAY)

prop("C29", "A domain comes from the first place that has its file",
 "AddDomain, and the package functions for each configured language, serve the file that is at the first of the documented places at the time of the call: directory ll_CC/LC_MESSAGES, then ll/LC_MESSAGES, ll_CC, ll, each below the directory given, domain.po in any of them before domain.mo; whatever other files exist, whatever domain or locale code is asked for (with encoding, modifier or further languages behind it), and whatever appeared, moved or vanished before. While files appear, move and vanish during the call it serves one that existed, none that comes after a place that had the file all the time, and only keeps what it had if a file was not there or went away. GetActualLanguage names the directory (ll_CC or ll) that has the domain (domain.mo before domain.po), or nothing. All of this is the same through package os and through any fs.FS.",
 ["histories", "schedules", "configurations"], "every history and interleaving of files that appear, move and vanish in any of the places, with every spelling of directory, locale and domain",
 "Tests have one file in one or two of the places and never move it.",
 ["locale.go", "helper.go", "translator.go", "gotext.go"], [("search of the places", "locale.go findExt, GetActualLanguage"), ("os or fs.FS", "locale.go fileExists; translator.go getFileData"), ("languages and their order", "gotext.go loadStorage")], ["which file's messages are served, and the language named"], None, OVERLAY)

PURE = "A pure function of its input: no concurrency, time, I/O or history that a simulated schedule or fault could change, so deterministic simulation has nothing to decide."
NA = {
 "C21": PURE, "C22": PURE,
 "C23": "A single-threaded analysis of Go programs by go/types; what it finds is a function of the program alone. Quantified over programs, with no schedule or fault to simulate. (What happens to the messages once found is C19 and C20.)",
}
CLAIMED = open(os.path.join(root, "tools", "claimed")).read().split()
NOTES = {
 "C01": "Seeded search over interleavings of real code under the race detector, which sees only the code's own synchronisation. Sampling: no proof. Preemption at statement granularity.",
 "C04": "As C01, for a Locale over a simulated disk with read faults and file replacement.",
 "C28": "Seeded search over simulated runs of the real code. Open handles are counted by the simulated disk, goroutines by the scheduler; memory is the Go heap after garbage collection, compared over two windows with a wide margin (a leak of a few bytes for each call is not seen). Sampling: no proof.",
 "C06": "As C01, for the package-level functions from a fresh package state, over a simulated disk with read faults.",
}
DEFNOTE = "Seeded search over simulated runs of the real code against an executable reference model; every decision of scheduler, disk and map order comes from the seed. Sampling: no proof. Preemption at statement granularity; trusts the model, the rewriter and the simulated disk."
checks = []
for p in P:
    if p["id"] in CLAIMED:
        checks.append(dict(property=p["id"], quick_cmd="./check.sh " + p["id"] + " quick", thorough_cmd="./check.sh " + p["id"] + " thorough",
          evidence_file="evidence/%s.json" % p["id"], technique="deterministic simulation with fault injection: seeded search over schedules and faults" + (", race detector as oracle" if p["id"] in ("C01","C04","C06") else ", counts of handles, goroutines and memory as oracle" if p["id"] == "C28" else ", reference model as oracle"),
          level="exploration", level_note=NOTES.get(p["id"], DEFNOTE)))
    elif p["id"] not in NA:
        NA[p["id"]] = "The check for it is not finished yet."
m = dict(version=1, setup_cmd="./setup.sh",
  hooks=dict(guard="none (a go build -overlay made by sim/build.sh; /repo has no hooks)", enable="sim/build.sh rewrites the sources in a scratch directory and builds /repo with go build -overlay", source_commits=[]),
  checks=checks, not_applicable=[dict(property=k, reason=NA[k]) for k in sorted(NA)],
  notes="./check.sh PROPERTY [quick|thorough] runs a check, ./replay.sh FILE repeats a violation. known-findings.txt lists findings and repairs.")
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","A cache returns exactly what was last stored under a key",
 "In xcore v2, XCache.Get(key) on an entry that is neither expired nor rejected by the validator returns (v, false), where v is the value most recently stored under that same key by Set, and on a key that was never stored, was deleted, evicted or flushed it returns (nil, false). Set, SetTTL, Get, Del and Flush change only what they name: no operation on one key changes the value, creation time or TTL stored under any other key (other keys can only disappear, by eviction or expiry), Del removes exactly that key, Flush removes everything, and Count always equals the number of retrievable stored keys.",
 ["inputs","histories"],"every cache state reachable by any finite history of public calls, every key, value, TTL, expiry and capacity",
 "The tests store three keys, read one back and delete one; they never overwrite a key, never set a TTL, and never look at the other keys after an operation.",
 ["v2/xcache.go"],[("entry map plus recency list kept in step by every operation","v2/xcache.go: Set, SetTTL, Get, Del, Flush, removeFromPile")],
 state=[dict(name="items",meaning="key -> entry",where="v2/xcache.go XCache"),dict(name="pile",meaning="keys, least recently used first",where="v2/xcache.go XCache")],
 observe=["XCache.Get","XCache.Count"])
p("C02","Expired or invalidated cache entries are never served",
 "In xcore v2, XCache.Get on a stored key whose TTL (if set) or whose cache-wide expiration (if set) has elapsed since the entry was stored, or which the Validator (if set) rejects for that key and storage time, returns (nil, true) and the entry is gone afterwards. Conversely Get reports an entry as invalid only for one of those three reasons, so an entry still inside its TTL and expiration and accepted by the validator is always served; a TTL or expiration of zero never expires anything, and storing a key again restarts its age and drops its TTL.",
 ["inputs","histories"],"every entry age, TTL, expiration, validator answer, and history",
 "Only one test waits once for a one-second expiration; TTL and validator have no test at all, nor do combinations or ages before the deadline.",
 ["v2/xcache.go"],[("TTL, validator and expiration guards before the value is handed out","v2/xcache.go: Get"),("creation time stamped on every store","v2/xcache.go: Set")],
 observe=["XCache.Get","XCache.Count"])
p("C03","A bounded cache stays within its limit by evicting the least recently used",
 "In xcore v2, after every XCache.Set on a cache whose maximum M is positive the cache holds at most M entries, and the entry just stored is kept unless it is already expired. Apart from expired ones, the entries an eviction or a Clean(percent) removes are exactly the least recently used ones (use = last Set or last successful Get), never one that was used after an entry that stays; a cache with maximum 0 never evicts.",
 ["inputs","histories"],"every maximum, every history of Set/Get/Del/Flush/Clean, every percentage 0..100",
 "The tests fill one 110-entry cache with 100 distinct keys and only look at the count; no test reaches the limit, a limit under ten, a flush followed by refilling, or checks which keys go.",
 ["v2/xcache.go"],[("eviction when the limit is reached","v2/xcache.go: Set, mClean"),("recency list maintenance","v2/xcache.go: removeFromPile, Get, Set, Del, Flush")],
 state=[dict(name="pile",meaning="keys, least recently used first",where="v2/xcache.go XCache")],
 observe=["XCache.Count","XCache.Get"])
p("C04","Clean and Verify remove exactly the right entries and report how many",
 "In xcore v2, XCache.Clean(p) for 0<=p<=100 removes every entry past the cache-wide expiration plus p percent (rounded down) of the remaining entries, nothing else, and returns the number removed. XCache.Verify removes exactly the entries past the cache-wide expiration and the ones the Validator rejects for their key and storage time, keeps every other entry unchanged, and returns the number removed; without expiration and validator it removes nothing.",
 ["inputs","histories"],"every cache content, ages, percentage and validator",
 "One test calls Clean(30) on 100 fresh entries; Clean with expired entries, the returned counts, and Verify are never exercised.",
 ["v2/xcache.go"],[("cleaning passes","v2/xcache.go: mClean, Clean"),("validation sweep","v2/xcache.go: Verify")],
 observe=["return values of XCache.Clean and XCache.Verify","XCache.Count"])
p("C05","The cache is safe under every interleaving of concurrent calls",
 "In xcore v2, any number of goroutines may call the XCache methods on one cache at the same time: no unsynchronised access to shared cache state ever happens, no call panics or deadlocks, every call leaves the cache unlocked, and each exclusive section leaves the cache consistent (every stored key is in the eviction order exactly once). The user's Validator is never called while the cache is locked, and a Get or Verify that finds an entry invalid removes only that entry, never a newer value stored under the key meanwhile.",
 ["schedules","histories"],"every interleaving of any number of concurrent method calls",
 "All tests are single-threaded.",
 ["v2/xcache.go"],[("mutex around every access to the shared maps and slices","v2/xcache.go: all methods")],
 state=[dict(name="mutex",meaning="guards items, pile and entries",where="v2/xcache.go XCache")],observe=["data race, panic, deadlock or lost entry in concurrent use"])
p("C06","Dataset lookup follows the id>id>id path through nested data",
 "In xcore v2, XDataset.Get(key) on a key without '>' returns the value stored under that key and true, or (nil, false) if there is none; Set stores, Del removes, and neither touches another key. On a path a>rest it returns (nil, false) when a is absent, what the nested dataset at a answers for rest, or, when a is a collection, the element whose number is the next path component (or what that element answers for the remaining path), and (nil, false) when that component is not a number or out of range; when the value at a cannot be descended into, the whole path is looked up as a plain key.",
 ["inputs"],"every dataset, nesting and path string",
 "Tests try a handful of fixed paths on one fixed dataset.",
 ["v2/xdataset.go"],[("path descent","v2/xdataset.go: Get"),("plain map access","v2/xdataset.go: Set, Del")],observe=["XDataset.Get"])
p("C07","Typed dataset getters convert every supported kind correctly",
 "In xcore v2, for every key the XDataset typed getters agree with Get: they report false when Get does, and otherwise apply the documented conversion for the dynamic type found (GetInt and GetFloat convert bool, int, int8 to int64, uint, uint8 to uint64, float32, float64 and time.Time; GetBool does the same with 0 and the zero time false, and any other value true unless it is nil; GetString renders anything and a nil as the empty string; GetTime, the slice getters, GetDataset and GetCollection return the value only when it has exactly that kind). A value of an unsupported kind yields the zero value and false, and none of them ever panics.",
 ["inputs"],"every stored dynamic type and value",
 "Tests cover a few types per getter on fixed values; the matrix getter x dynamic type x value is not enumerable by samples.",
 ["v2/xdataset.go"],[("type-directed conversions","v2/xdataset.go: GetString, GetBool, GetInt, GetFloat, GetTime, Get*Collection, GetDataset, GetCollection")],observe=["XDataset.Get*"])
p("C08","Collections are ordered deques with innermost-first lookup",
 "In xcore v2, on XDatasetCollection and XDatasetCollectionTS, Push/Unshift add at the end/beginning, Pop/Shift remove and return the last/first element, Count is the number of elements, Get(i) returns the i-th element for 0<=i<Count and (nil, false) otherwise, and none of them reorders, loses or duplicates another element. GetData(key) returns the answer of the last element that has the key, (nil, false) if none has it, and the typed variants return that same value when it has the requested kind (a nil as the empty string) and false otherwise, without ever panicking.",
 ["inputs","histories"],"every collection content and every sequence of operations, every key and value kind",
 "Tests push a few datasets and print them; Shift, Pop, Unshift and most typed lookups are never called.",
 ["v2/xdatasetcollection.go","v2/xdatasetcollectionts.go"],[("slice based deque","v2/xdatasetcollection.go"),("locked slice based deque","v2/xdatasetcollectionts.go")],observe=["XDatasetCollection methods","XDatasetCollectionTS methods"])
p("C09","Cloning datasets and collections yields equal, independent copies",
 "In xcore v2, Clone of an XDataset, XDatasetTS, XDatasetCollection or XDatasetCollectionTS returns a newly allocated object of the same kind with the same keys or the same number and order of elements, in which every nested dataset and collection is itself replaced by its clone and every other value is kept. Cloning modifies nothing that existed before, and later Set, Del, Push, Pop, Shift or Unshift on either object never shows in the other.",
 ["inputs","histories"],"every content and nesting, and every later history on original and clone",
 "Tests clone one fixed dataset and change one value.",
 ["v2/xdataset.go","v2/xdatasetts.go","v2/xdatasetcollection.go","v2/xdatasetcollectionts.go"],[("recursive copy","Clone methods")],observe=["Clone, then any accessor on both objects"])
p("C10","Datasets built from plain maps mirror the source",
 "In xcore v2, NewXDataset(m) returns a new dataset with exactly the keys of m: nested maps become datasets built the same way, a slice of maps becomes a collection with one dataset per map in order, a generic slice becomes a collection of the datasets built from its map elements in order, and every other value is stored as is. NewXDatasetCollection(s) returns a collection with one dataset per element of s in order; the source is not modified.",
 ["inputs"],"every source map or slice, any nesting",
 "Two fixed literals are converted and printed.",
 ["v2/xdataset.go","v2/xdatasetcollection.go"],[("recursive conversion","v2/xdataset.go: NewXDataset; v2/xdatasetcollection.go: NewXDatasetCollection")],observe=["NewXDataset, NewXDatasetCollection"])
p("C11","Thread-safe datasets and collections are safe under every interleaving",
 "In xcore v2, any number of goroutines may use one XDatasetTS or one XDatasetCollectionTS at the same time: the wrapped data is only ever read while a lock is held and only ever changed while the exclusive lock is held, no call panics because of what another goroutine did in between, and every call, even one that panics, leaves the object unlocked. XDatasetTS answers every call exactly as the dataset it wraps would.",
 ["schedules","inputs","histories"],"every interleaving of any number of concurrent calls, every wrapped dataset",
 "The tests of the thread-safe types run in a single goroutine.",
 ["v2/xdatasetts.go","v2/xdatasetcollectionts.go"],[("RWMutex around every access to the wrapped data","v2/xdatasetts.go, v2/xdatasetcollectionts.go: all methods")],observe=["data race, panic or deadlock in concurrent use","XDatasetTS results against the wrapped dataset"])
p("C12","A language table keeps exactly the entries it was given",
 "In xcore v2, XLanguage.Get/GetStatus return the value/status last set for an entry and the empty string for an unknown one; Set and SetStatus touch only that entry's text or status, Del removes both, and no operation changes another entry, the name or the language. GetEntries returns a copy: its content equals the table and changing it never changes the table; the name and language read back are the ones last set or loaded.",
 ["inputs","histories"],"every table and every history of operations",
 "Tests set a couple of entries and print them; statuses, deletion of one of several, and independence of GetEntries are not tested.",
 ["v2/xlanguage.go"],[("entry and status maps","v2/xlanguage.go: Set, Get, SetStatus, GetStatus, Del, GetEntries, SetName, GetName, SetLanguage, GetLanguage, NewXLanguage")],observe=["XLanguage accessors"])
p("C13","Text and XML language sources load every entry, and only those",
 "In xcore v2, loading a text source sets, in line order, one entry per line of the form key=value (split at the first '=', both sides trimmed), ignoring empty lines, lines starting with # or ;, lines without '=' and lines with an empty key, and leaves every other entry alone. Loading an XML source sets name, language and, in document order, the text and the status of every entry element, leaves other entries alone, and changes nothing when the XML is malformed; constructors return an error and no table when loading fails.",
 ["inputs"],"every source text",
 "One two-line text and one small XML file are loaded.",
 ["v2/xlanguage.go"],[("line scanner","v2/xlanguage.go: LoadString"),("XML decoding","v2/xlanguage.go: LoadXMLString"),("constructors","v2/xlanguage.go: NewXLanguageFrom*")],observe=["XLanguage.Get after loading"])
p("C14","Language tables are safe under every interleaving of concurrent calls",
 "In xcore v2, any number of goroutines may call the XLanguage methods on one table at the same time: entries, statuses, name and language are only read while a lock is held and only changed while the exclusive lock is held, no call panics or deadlocks, and every call leaves the table unlocked.",
 ["schedules"],"every interleaving of any number of concurrent method calls",
 "All tests are single-threaded.",
 ["v2/xlanguage.go"],[("RWMutex around every access","v2/xlanguage.go: all methods")],observe=["data race, panic or deadlock in concurrent use"])
p("C15","Template compilation keeps all text, in order, and rejects bad nesting",
 "In xcore v2, compiling a template keeps every character outside meta tags verbatim and in order, and turns each tag into exactly one element of the matching kind carrying the text inside the tag (a comment or section mark takes the one line feed or carriage return right after it with it). The top level of the compiled template holds exactly the elements outside every [[id]]...[[]] section, each section's content becomes the sub template registered in the enclosing template under each of its non-empty |-separated ids, and compilation fails exactly when the section marks are unbalanced.",
 ["inputs"],"every template text",
 "A handful of fixed templates are rendered and compared.",
 ["v2/xtemplate.go"],[("tokenising, nesting and compaction passes","v2/xtemplate.go: compile"),("registration of sub templates","v2/xtemplate.go: AddTemplate")],observe=["XTemplate.Root, XTemplate.SubTemplates, error of LoadString"])
p("C16","Sub template names resolve to the nearest enclosing definition",
 "In xcore v2, XTemplate.GetTemplate(name) returns the sub template registered under that name in the template itself, else the one visible from its enclosing template, and nil when no enclosing level defines it. AddTemplate registers the sub template under exactly that name, replaces an earlier one of that name, links it to its parent, and leaves every other name alone.",
 ["inputs","histories"],"every template tree and name",
 "One fixed template exercises a two-level lookup.",
 ["v2/xtemplate.go"],[("lookup chain","v2/xtemplate.go: GetTemplate, AddTemplate")],observe=["XTemplate.GetTemplate"])
p("C17","Rendering follows the meta language for every template and data set",
 "In xcore v2, XTemplate.Execute(data) yields, element by element and in order: literal text as is; nothing for comments; the language entry for ##x## (nothing without a table); the innermost-scope value of {{path}} (nothing if absent); the rendered sub template for &&..&&, with the scope entered or the name built from data as documented; for @@..@@ one rendering per collection element in order, choosing .key.N, .first, .last, .even or the plain sub template in that priority with {{.counter}} 1-based, or .none (else the plain one) when empty or absent (nothing without data or without a plain sub template); for ??..?? the value-specific or plain sub template when the field has a non-empty value (nothing without a plain sub template) and .none (else the plain one) otherwise; and the data dump for !!dump!! and !!list!!. After each element the data scope is exactly what it was before it.",
 ["inputs"],"every compiled template and every data set",
 "A few fixed templates; the tests of the loop and condition cases only print their result.",
 ["v2/xtemplate.go"],[("the interpreter of compiled elements","v2/xtemplate.go: Execute, injector")],observe=["XTemplate.Execute"])
p("C18","Rendering never panics and never changes the template",
 "In xcore v2, XTemplate.Execute on any successfully compiled template whose sub templates do not refer to each other in a circle renders every element without a panic, for nil data as well as for any data set without nil elements in its collections or nil pointers as values (absent or oddly typed values included). It never modifies the template or any of its sub templates, so one template can be executed by many goroutines, and the only change to the data is the .counter field of looped-over elements.",
 ["inputs","schedules"],"every compiled template, every data set including nil",
 "Nil data is tried with one template that has no data-dependent tag.",
 ["v2/xtemplate.go"],[("nil guards and scope push/pop","v2/xtemplate.go: Execute, injector")],observe=["XTemplate.Execute"])
p("C19","Cloning a template yields an equal, independent template tree",
 "In xcore v2, XTemplate.Clone returns a newly allocated tree with the same name, the same elements in the same order, and under every sub template name the clone of that sub template, whose enclosing template is the new parent. It modifies nothing in the original tree: names keep resolving in the original to the original's sub templates and in the clone to the clone's own.",
 ["inputs","histories"],"every template tree",
 "One fixed template is cloned and both render equal text; neither independence nor the enclosing links are looked at.",
 ["v2/xtemplate.go"],[("recursive copy","v2/xtemplate.go: XTemplate.Clone, XTemplateParam.Clone")],observe=["XTemplate.Clone, then GetTemplate/AddTemplate/Execute on both"])
p("C20","Printed forms list every entry once, in a fixed order",
 "In xcore v2, String, GoString and XLanguage.GetXML of a dataset, collection or language table contain each entry exactly once as key and rendered value (for GetXML also the status) and depend only on the content: entries of maps come out in the order of their printed text, elements of collections in index order, so equal contents always print equal text whatever the map iteration order.",
 ["inputs","schedules"],"every content and every map iteration order",
 "Tests compare the print of a few fixed objects.",
 ["v2/xdataset.go","v2/xdatasetcollection.go","v2/xdatasetcollectionts.go","v2/xlanguage.go","v2/xdatasetts.go"],[("collect, sort, join","String, GoString, GetXML methods")],observe=["String, GoString, GetXML"])
with open(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+"/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
try: import jsonschema
except ImportError: raise SystemExit(0)
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s)
    assert len(x["title"])<=80,x["id"]
print(len(P))

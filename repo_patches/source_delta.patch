From d169c8a6ba7a5a6a25b42e88b3066b1b83fd84e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:02 +0000
Subject: [PATCH 01/16] fix: reset the eviction order when the cache is flushed

XCache.Flush dropped the entries but kept their keys in the pile.
Later evictions then removed stale keys instead of the oldest entries,
so a bounded cache could grow over its limit or panic.
---
 v2/xcache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v2/xcache.go b/v2/xcache.go
index 4c9dfe5..9ad8f06 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -270,4 +270,5 @@ func (c *XCache) Flush() {
 	defer c.mutex.Unlock()
 	// how to really deletes the data ? ( to free memory)
 	c.items = make(map[string]*XCacheEntry)
+	c.pile = nil
 }
-- 
2.43.0


From fd8f7e972623172f264ce64f897951c9f08e0efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:02 +0000
Subject: [PATCH 02/16] fix: make cache cleaning forget expired keys and count
 them

Expired entries were deleted but stayed in the pile, so a later clean
removed too few entries or the wrong ones. The returned quantity also
left the expired entries out.
---
 v2/xcache.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index 9ad8f06..134e6dc 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -208,6 +208,7 @@ func (c *XCache) mClean(perc int) int {
 					log.Println("Cache timeout Expired: " + k)
 				}
 				delete(c.items, k)
+				c.removeFromPile(k)
 				i++
 			}
 		}
@@ -219,11 +220,11 @@ func (c *XCache) mClean(perc int) int {
 	if LOG {
 		log.Println("Quantity of elements to remove from cache:", num)
 	}
-	for i = 0; i < num; i++ {
-		delete(c.items, c.pile[i])
+	for j := 0; j < num; j++ {
+		delete(c.items, c.pile[j])
 	}
-	c.pile = c.pile[i:]
-	return i
+	c.pile = c.pile[num:]
+	return i + num
 }
 
 // Clean will delete expired entries, and free perc% of max items based on time.
-- 
2.43.0


From 04195457f803f8bba436c027af1ad0edaa15999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:03 +0000
Subject: [PATCH 03/16] fix: keep small bounded caches within maxitems

With maxitems below 10 the 10% cleaning rounds down to zero entries,
so the cache grew without limit.
---
 v2/xcache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v2/xcache.go b/v2/xcache.go
index 134e6dc..50b7f25 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -74,6 +74,11 @@ func (c *XCache) Set(key string, indata interface{}) {
 	if c.Maxitems > 0 && len(c.items) >= c.Maxitems {
 		// We need a cleaning
 		c.mClean(10)
+		// 10% of a small cache can be nothing, never keep more than maxitems
+		for len(c.items) > c.Maxitems {
+			delete(c.items, c.pile[0])
+			c.pile = c.pile[1:]
+		}
 	}
 }
 
-- 
2.43.0


From 914478041b9ae2ef74b8c050c281f9fceba2cb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:03 +0000
Subject: [PATCH 04/16] fix: read and update cache entries without data races
 in Get

Get read the ttl and wrote the read time of an entry without holding the
lock, and put the key back in the pile even if the entry had been deleted
meanwhile.
---
 v2/xcache.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index 50b7f25..665d569 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -89,9 +89,12 @@ func (c *XCache) Set(key string, indata interface{}) {
 func (c *XCache) SetTTL(key string, duration time.Duration) {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
-	_, ok := c.items[key]
+	x, ok := c.items[key]
 	if ok {
-		c.items[key].ttl = duration
+		// replace the entry, it can be in use by a Get out of the lock
+		y := *x
+		y.ttl = duration
+		c.items[key] = &y
 	}
 }
 
@@ -169,11 +172,14 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				return nil, true
 			}
 		}
-		x.rtime = time.Now()
 		c.mutex.Lock()
 		defer c.mutex.Unlock()
-		c.removeFromPile(key)
-		c.pile = append(c.pile, key)
+		// the entry can have been removed or replaced meanwhile
+		if y, ok := c.items[key]; ok {
+			y.rtime = time.Now()
+			c.removeFromPile(key)
+			c.pile = append(c.pile, key)
+		}
 		return x.data, false
 	}
 	return nil, false
-- 
2.43.0


From 7ac083cd4a0042dba6704bcb46553a42da89ff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:03 +0000
Subject: [PATCH 05/16] fix: do not remove a newer cache value when an old one
 is invalid

Get looked at an entry, then deleted whatever was stored under the key.
A value stored by another goroutine in between was lost.
---
 v2/xcache.go | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index 665d569..2422161 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -131,13 +131,7 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 		// expired by TTL ?
 		if x.ttl != 0 {
 			if x.ctime.Add(x.ttl).Before(time.Now()) {
-				c.Del(key)
-				/*
-					c.mutex.Lock()
-					delete(c.items, key)
-					c.removeFromPile(key)
-					c.mutex.Unlock()
-				*/
+				c.mDel(key, x)
 				return nil, true
 			}
 		}
@@ -146,13 +140,7 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				if LOG {
 					log.Println("Validator invalids entry: " + key)
 				}
-				c.Del(key)
-				/*
-					c.mutex.Lock()
-					delete(c.items, key)
-					c.removeFromPile(key)
-					c.mutex.Unlock()
-				*/
+				c.mDel(key, x)
 				return nil, true
 			}
 		}
@@ -162,13 +150,7 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				if LOG {
 					log.Println("Cache timeout Expired: " + key)
 				}
-				c.Del(key)
-				/*
-					c.mutex.Lock()
-					delete(c.items, key)
-					c.removeFromPile(key)
-					c.mutex.Unlock()
-				*/
+				c.mDel(key, x)
 				return nil, true
 			}
 		}
@@ -194,6 +176,19 @@ func (c *XCache) Del(key string) {
 	c.removeFromPile(key)
 }
 
+// mDel will delete the entry of the cache only if it is still the given one (it can have been replaced meanwhile).
+// Returns true if the entry has been deleted.
+func (c *XCache) mDel(key string, x *XCacheEntry) bool {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if c.items[key] != x {
+		return false
+	}
+	delete(c.items, key)
+	c.removeFromPile(key)
+	return true
+}
+
 // Count will return the quantity of entries in the cache.
 func (c *XCache) Count() int {
 	c.mutex.RLock()
-- 
2.43.0


From 8bddc512323bc25b831ca5e544aecf2ce67497cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:03 +0000
Subject: [PATCH 06/16] fix: do not iterate over the cache without the lock in
 Verify

Verify ranged over the items while other goroutines could change them,
which is a fatal concurrent map access.
---
 v2/xcache.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index 2422161..96f8c9c 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -251,19 +251,21 @@ func (c *XCache) Verify() int {
 	i := c.Clean(0)
 	// 2. If there is a validator, verifies anything
 	if c.Validator != nil {
+		// scan a copy of the entries, the validator is called out of the lock
+		c.mutex.RLock()
+		entries := make(map[string]*XCacheEntry, len(c.items))
 		for k, x := range c.items {
+			entries[k] = x
+		}
+		c.mutex.RUnlock()
+		for k, x := range entries {
 			if b := c.Validator(k, x.ctime); !b {
 				if LOG {
 					log.Println("Validator invalids entry: " + k)
 				}
-				c.Del(k)
-				/*
-					c.mutex.Lock()
-					delete(c.items, k)
-					c.removeFromPile(k)
-					c.mutex.Unlock()
-				*/
-				i++
+				if c.mDel(k, x) {
+					i++
+				}
 			}
 		}
 	}
-- 
2.43.0


From 799ca643b96c25c14db6ada6b31667e597824351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:36 +0000
Subject: [PATCH 07/16] fix: XDatasetTS stays locked when the wrapped dataset
 panics

Set, Del and Clone released the lock only after the wrapped call returned.
Release it with a deferred call, as the other methods do.
---
 v2/xdatasetts.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v2/xdatasetts.go b/v2/xdatasetts.go
index 75b5636..0933ab4 100644
--- a/v2/xdatasetts.go
+++ b/v2/xdatasetts.go
@@ -37,8 +37,8 @@ func (ds *XDatasetTS) GoString() string {
 // Set will add a variable key with value data to the XDatasetTS
 func (ds *XDatasetTS) Set(key string, data interface{}) {
 	ds.mutex.Lock()
+	defer ds.mutex.Unlock()
 	ds.data.Set(key, data)
-	ds.mutex.Unlock()
 }
 
 // Get will read the value of the key variable
@@ -139,15 +139,15 @@ func (ds *XDatasetTS) GetTimeCollection(key string) ([]time.Time, bool) {
 // Del will deletes the variable
 func (ds *XDatasetTS) Del(key string) {
 	ds.mutex.Lock()
+	defer ds.mutex.Unlock()
 	ds.data.Del(key)
-	ds.mutex.Unlock()
 }
 
 // Clone will creates a totally new data memory cloned from this object
 func (ds *XDatasetTS) Clone() XDatasetDef {
 	cloned := &XDatasetTS{}
 	ds.mutex.RLock()
+	defer ds.mutex.RUnlock()
 	cloned.data = ds.data.Clone()
-	ds.mutex.RUnlock()
 	return cloned
 }
-- 
2.43.0


From 33cbad0a30efe37fb7b43874e98134f158c3d311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:36 +0000
Subject: [PATCH 08/16] fix: XDatasetCollectionTS stays locked after a panic

Pop and Shift on an empty collection panicked with the lock held, every
later call on the collection then blocked forever. Release the lock with
a deferred call.
---
 v2/xdatasetcollectionts.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index 2d4838d..6221c6f 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -17,10 +17,10 @@ type XDatasetCollectionTS struct {
 func (dc *XDatasetCollectionTS) String() string {
 	str := "XDatasetCollectionTS["
 	dc.mutex.RLock()
+	defer dc.mutex.RUnlock()
 	for key, val := range dc.data {
 		str += strconv.Itoa(key) + ":" + fmt.Sprint(val) + " "
 	}
-	dc.mutex.RUnlock()
 	str += "]"
 	return str
 }
@@ -33,32 +33,32 @@ func (dc *XDatasetCollectionTS) GoString() string {
 // Unshift will adds a XDatasetDef at the beginning of the collection
 func (dc *XDatasetCollectionTS) Unshift(data XDatasetDef) {
 	dc.mutex.Lock()
+	defer dc.mutex.Unlock()
 	dc.data = append([]XDatasetDef{data}, dc.data...)
-	dc.mutex.Unlock()
 }
 
 // Shift will remove the element at the beginning of the collection
 func (dc *XDatasetCollectionTS) Shift() XDatasetDef {
 	dc.mutex.Lock()
+	defer dc.mutex.Unlock()
 	data := dc.data[0]
 	dc.data = dc.data[1:]
-	dc.mutex.Unlock()
 	return data
 }
 
 // Push will adds a XDatasetDef at the end of the collection
 func (dc *XDatasetCollectionTS) Push(data XDatasetDef) {
 	dc.mutex.Lock()
+	defer dc.mutex.Unlock()
 	dc.data = append(dc.data, data)
-	dc.mutex.Unlock()
 }
 
 // Pop will remove the element at the end of the collection
 func (dc *XDatasetCollectionTS) Pop() XDatasetDef {
 	dc.mutex.Lock()
+	defer dc.mutex.Unlock()
 	data := dc.data[len(dc.data)-1]
 	dc.data = dc.data[:len(dc.data)-1]
-	dc.mutex.Unlock()
 	return data
 }
 
-- 
2.43.0


From f65900f579272d35eba2488bec6dd497a6eb6452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:36 +0000
Subject: [PATCH 09/16] fix: XDatasetCollectionTS.GetData panics when the
 collection shrinks

The length was read in one locked section and the elements in others, so
a concurrent Pop or Shift made the index run out of range. Search a copy
of the elements taken under one lock.
---
 v2/xdatasetcollectionts.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index 6221c6f..2c54815 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -81,14 +81,12 @@ func (dc *XDatasetCollectionTS) Get(index int) (XDatasetDef, bool) {
 
 // GetData will retrieve the first available data identified by key from the collection ordered by index
 func (dc *XDatasetCollectionTS) GetData(key string) (interface{}, bool) {
+	// search into a copy, the collection can change meanwhile
 	dc.mutex.RLock()
-	l := len(dc.data) - 1
+	data := append([]XDatasetDef{}, dc.data...)
 	dc.mutex.RUnlock()
-	for i := l; i >= 0; i-- {
-		dc.mutex.RLock()
-		dcc := dc.data[i]
-		dc.mutex.RUnlock()
-		val, ok := dcc.Get(key)
+	for i := len(data) - 1; i >= 0; i-- {
+		val, ok := data[i].Get(key)
 		if ok {
 			return val, true
 		}
-- 
2.43.0


From 714dd32235046df7804f8e103f5f6d6616edbfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:36 +0000
Subject: [PATCH 10/16] fix: XDatasetCollectionTS.Clone reads the elements
 without lock

---
 v2/xdatasetcollectionts.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index 2c54815..32bb39c 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -156,6 +156,8 @@ func (dc *XDatasetCollectionTS) GetCollection(key string) (XDatasetCollectionDef
 // Clone will make a full copy of the object into memory
 func (dc *XDatasetCollectionTS) Clone() XDatasetCollectionDef {
 	cloned := &XDatasetCollectionTS{}
+	dc.mutex.RLock()
+	defer dc.mutex.RUnlock()
 	for _, val := range dc.data {
 		cloned.data = append(cloned.data, val.Clone())
 	}
-- 
2.43.0


From 032f460dc9e79d8ef1621827b4b52291897eaae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:36 +0000
Subject: [PATCH 11/16] fix: XDatasetCollectionTS.GetDataString renders nil as
 <nil>

XDatasetCollection and XDataset render a nil value as the empty string.
---
 v2/xdatasetcollectionts.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index 32bb39c..795388f 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -96,9 +96,11 @@ func (dc *XDatasetCollectionTS) GetData(key string) (interface{}, bool) {
 
 // GetDataString will retrieve the first available data identified by key from the collection ordered by index and return it as a string
 func (dc *XDatasetCollectionTS) GetDataString(key string) (string, bool) {
-	v, ok := dc.GetData(key)
-	if ok {
-		return fmt.Sprint(v), true
+	if val, ok := dc.GetData(key); ok {
+		if val == nil {
+			return "", true
+		}
+		return fmt.Sprint(val), true
 	}
 	return "", false
 }
-- 
2.43.0


From e3af005c02fc8781045108d229189c2ec0a739b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:36 +0000
Subject: [PATCH 12/16] fix: XDatasetCollectionTS.GetCollection panics on other
 kinds of values

Report false like XDatasetCollection.GetCollection does.
---
 v2/xdatasetcollectionts.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index 795388f..f7b979e 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -150,7 +150,10 @@ func (dc *XDatasetCollectionTS) GetCollection(key string) (XDatasetCollectionDef
 	v, ok := dc.GetData(key)
 	// Verify v IS actually a XDatasetCollectionDef to avoid the error
 	if ok {
-		return v.(XDatasetCollectionDef), true
+		dsd, ok2 := v.(XDatasetCollectionDef)
+		if ok2 {
+			return dsd, true
+		}
 	}
 	return nil, false
 }
-- 
2.43.0


From e3d8de100e6724e4cc13f29edc08c7dff766849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:17 +0000
Subject: [PATCH 13/16] fix: XTemplate.Clone links the original sub templates
 to the clone

The sub templates of the original got the clone as father and those of
the clone kept the original one, so names were resolved in the wrong
tree after a Clone.
---
 v2/xtemplate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index 72bd540..b69f92d 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -531,7 +531,7 @@ func (t *XTemplate) Clone() *XTemplate {
 		newsubtemplates := map[string]*XTemplate{}
 		for id, xt := range t.SubTemplates {
 			newsubtemplates[id] = xt.Clone()
-			xt.Father = cloned
+			newsubtemplates[id].Father = cloned
 		}
 		cloned.SubTemplates = newsubtemplates
 	}
-- 
2.43.0


From 3baebf3681033c3eea023c2c1b423c869f9effec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:17 +0000
Subject: [PATCH 14/16] fix: XTemplate.Execute(nil) panics on references with
 data

References &&template:field&& and &&:field:prefix&& read the data set
without checking there is one.
---
 v2/xtemplate.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index b69f92d..3fd7ec6 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -336,7 +336,10 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 			if len(xid) == 3 {
 				field := xid[1]
 				prefix := xid[2]
-				value, _ := datacol.GetDataString(field)
+				value := ""
+				if datacol != nil {
+					value, _ = datacol.GetDataString(field)
+				}
 				subt := t.GetTemplate(prefix + value)
 				if subt != nil {
 					substr := subt.injector(datacol, language)
@@ -356,7 +359,7 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 				subt := t.GetTemplate(template)
 				if subt != nil {
 					withds := false
-					if len(xid) == 2 {
+					if len(xid) == 2 && datacol != nil {
 						dcl, _ := datacol.GetData(xid[1])
 						ds, ok := dcl.(XDatasetDef)
 						if ok {
-- 
2.43.0


From 671370cc10a37463a34430104fc6fe4f4c4d1de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:17 +0000
Subject: [PATCH 15/16] fix: XLanguage name and language are accessed without
 lock

---
 v2/xlanguage.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/v2/xlanguage.go b/v2/xlanguage.go
index 7506d73..f84c40e 100644
--- a/v2/xlanguage.go
+++ b/v2/xlanguage.go
@@ -112,10 +112,10 @@ func (l *XLanguage) LoadXMLString(data string) error {
 	}
 
 	// Scan to our XLanguage Object
-	l.Name = temp.Name
-	l.Language, _ = language.Parse(temp.Language)
 	l.mutex.Lock()
 	defer l.mutex.Unlock()
+	l.Name = temp.Name
+	l.Language, _ = language.Parse(temp.Language)
 	for _, e := range temp.Entries {
 		l.entries[e.ID] = e.Entry
 		l.status[e.ID] = e.Status
@@ -179,21 +179,29 @@ func (l *XLanguage) LoadString(data string) error {
 
 // SetName will set the name of the language table
 func (l *XLanguage) SetName(name string) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	l.Name = name
 }
 
 // SetLanguage will set the language ISO code (2 letters) of the language table
 func (l *XLanguage) SetLanguage(lang language.Tag) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	l.Language = lang
 }
 
 // GetName will return the name of the language table
 func (l *XLanguage) GetName() string {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	return l.Name
 }
 
 // GetLanguage will return the language of the language table
 func (l *XLanguage) GetLanguage() language.Tag {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	return l.Language
 }
 
-- 
2.43.0


From 3a56fae04295e5c3029449bcdf261c3c9b0ad014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:17 +0000
Subject: [PATCH 16/16] fix: XLanguage.LoadString fails on lines longer than 64
 KB

---
 v2/xlanguage.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v2/xlanguage.go b/v2/xlanguage.go
index f84c40e..ea100d8 100644
--- a/v2/xlanguage.go
+++ b/v2/xlanguage.go
@@ -147,6 +147,7 @@ func (l *XLanguage) LoadFile(file string) error {
 //	Returns nil if there is an error
 func (l *XLanguage) LoadString(data string) error {
 	scanner := bufio.NewScanner(strings.NewReader(data))
+	scanner.Buffer(nil, len(data)+1) // a line can be longer than the default limit
 	for scanner.Scan() {
 		line := scanner.Text()
 		posequal := strings.Index(line, "=")
-- 
2.43.0


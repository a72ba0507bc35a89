From 8464904af64f5c6a864142b6a0bc0197b4a2f018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:28 +0000
Subject: [PATCH 01/31] fix: LruCache eviction left the evicted keys in the
 lookup table

---
 util/lru.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/lru.go b/util/lru.go
index 3ad84ef..59b991c 100644
--- a/util/lru.go
+++ b/util/lru.go
@@ -57,7 +57,7 @@ func (c *LruCache[K, V]) Set(key K, val V) {
 		for i := 0; i < c.clear; i++ {
 			elem := c.store.list.Front()
 			if elem != nil {
-				c.store.list.Remove(elem)
+				c.store.Remove(elem.Value.(*KvPair[K, V]).Key)
 			}
 		}
 	}
-- 
2.43.0


From fa5165a3debfce6efc031a9d9573f32cc19813ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:28 +0000
Subject: [PATCH 02/31] fix: LruCache with a capacity below 3 never evicted

---
 util/lru.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/lru.go b/util/lru.go
index 59b991c..6f64895 100644
--- a/util/lru.go
+++ b/util/lru.go
@@ -16,6 +16,10 @@ func NewLruCache[K comparable, V any](cap int, clear int) *LruCache[K, V] {
 	if clear == 0 || clear > cap {
 		clear = cap / 3
 	}
+	// at least one element has to go, otherwise a store smaller than 3 never evicts
+	if clear < 1 {
+		clear = 1
+	}
 	return &LruCache[K, V]{
 		cap:   cap,
 		store: NewOrderedMap[K, V](),
-- 
2.43.0


From b122b783340c4262e74baeb3bb47068c1c077b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:28 +0000
Subject: [PATCH 03/31] fix: LruCache.Set decided outside the lock whether to
 evict

---
 util/lru.go | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/util/lru.go b/util/lru.go
index 6f64895..97aa3d5 100644
--- a/util/lru.go
+++ b/util/lru.go
@@ -44,20 +44,11 @@ func (c *LruCache[K, V]) Get(key K) V {
 }
 
 func (c *LruCache[K, V]) Set(key K, val V) {
-	if c.HasKey(key) {
-		c.lock.Lock()
-		defer c.lock.Unlock()
-
-		elem := c.store.Set(key, val)
-		c.store.list.MoveToBack(elem)
-		return
-	}
-
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
 	// clear the store if it's full
-	if c.store.list.Len()+1 > c.cap {
+	if !c.store.HasKey(key) && c.store.list.Len()+1 > c.cap {
 		for i := 0; i < c.clear; i++ {
 			elem := c.store.list.Front()
 			if elem != nil {
-- 
2.43.0


From 5db96aa3834f54a63c5935b25976addfa689a7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:29 +0000
Subject: [PATCH 04/31] fix: LruCache.Get did not count as a use of the element

---
 util/lru.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/util/lru.go b/util/lru.go
index 97aa3d5..3d8629e 100644
--- a/util/lru.go
+++ b/util/lru.go
@@ -37,9 +37,13 @@ func (c *LruCache[K, V]) HasKey(key K) bool {
 }
 
 func (c *LruCache[K, V]) Get(key K) V {
-	c.lock.RLock()
-	defer c.lock.RUnlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
+	// reading an element is using it
+	if elem, ok := c.store.dict[key]; ok {
+		c.store.list.MoveToBack(elem)
+	}
 	return c.store.Get(key)
 }
 
-- 
2.43.0


From b65446bebf363181b38869b7b87a54cfb4e8e597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:34 +0000
Subject: [PATCH 05/31] fix: DirWalker read its queue length outside the lock

---
 util/walkdir.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/walkdir.go b/util/walkdir.go
index b2cc3ff..37ef8f1 100644
--- a/util/walkdir.go
+++ b/util/walkdir.go
@@ -56,12 +56,12 @@ func NewDirWalker(dir string, concurrent int, handle DirWalkerHandle) *DirWalker
 }
 
 func (w *DirWalker) shift() string {
-	if w.dirs.Len() == 0 {
-		return ""
-	}
 	w.dirsLock.Lock()
 	defer w.dirsLock.Unlock()
 
+	if w.dirs.Len() == 0 {
+		return ""
+	}
 	d := w.dirs.Front()
 	w.dirs.Remove(d)
 	return d.Value.(string)
-- 
2.43.0


From 4cff5d217d3598eefef2dcc1d268e3efd573bbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:34 +0000
Subject: [PATCH 06/31] fix: DirWalker could hang on errors and stops, and left
 goroutines and handler calls behind

A single value on fin woke up one worker only, the senders on stop and
newJob had nobody left to receive from them, and Walk returned while the
handles were still running.
---
 util/walkdir.go | 89 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 65 insertions(+), 24 deletions(-)

diff --git a/util/walkdir.go b/util/walkdir.go
index 37ef8f1..2a96a95 100644
--- a/util/walkdir.go
+++ b/util/walkdir.go
@@ -22,12 +22,15 @@ type DirWalker struct {
 
 	newJob chan bool
 
-	wg    sync.WaitGroup
-	wgFin chan bool
+	wg sync.WaitGroup
+
+	// the goroutines of the walk in progress
+	routines sync.WaitGroup
 
 	stop chan error
-	fin  chan bool
-	err  error
+	// closed when the walk is over, guarded by `dirsLock`
+	fin chan bool
+	err error
 }
 
 func NewDirWalker(dir string, concurrent int, handle DirWalkerHandle) *DirWalker {
@@ -45,26 +48,27 @@ func NewDirWalker(dir string, concurrent int, handle DirWalkerHandle) *DirWalker
 
 		newJob: make(chan bool),
 
-		wg:    sync.WaitGroup{},
-		wgFin: make(chan bool),
+		wg: sync.WaitGroup{},
 
 		stop: make(chan error),
 		fin:  make(chan bool),
 	}
 
-	return w.initWorkers()
+	// there is no walk in progress
+	close(w.fin)
+	return w
 }
 
-func (w *DirWalker) shift() string {
+func (w *DirWalker) shift() (string, bool) {
 	w.dirsLock.Lock()
 	defer w.dirsLock.Unlock()
 
 	if w.dirs.Len() == 0 {
-		return ""
+		return "", false
 	}
 	d := w.dirs.Front()
 	w.dirs.Remove(d)
-	return d.Value.(string)
+	return d.Value.(string), true
 }
 
 func (w *DirWalker) push(file string) {
@@ -74,19 +78,22 @@ func (w *DirWalker) push(file string) {
 	w.dirs.PushBack(file)
 }
 
-func (w *DirWalker) walk() {
+func (w *DirWalker) walk(fin chan bool) {
+	defer w.routines.Done()
+
 loop:
 	for {
 		select {
 		case <-w.newJob:
-			dir := w.shift()
-			if dir == "" {
+			dir, ok := w.shift()
+			if !ok {
 				continue
 			}
 
 			files, err := os.ReadDir(dir)
 			if err != nil {
-				w.stop <- err
+				w.Stop(err)
+				w.wg.Done()
 				return
 			}
 
@@ -99,29 +106,46 @@ loop:
 				if file.IsDir() {
 					w.wg.Add(1)
 					w.push(pth)
-					go func() { w.newJob <- true }()
+					w.routines.Add(1)
+					go func() {
+						defer w.routines.Done()
+						select {
+						case w.newJob <- true:
+						case <-fin:
+						}
+					}()
 				} else {
 					w.handle(pth, false, w)
 				}
 			}
 
 			w.wg.Done()
-		case <-w.fin:
+		case <-fin:
 			break loop
 		}
 	}
 }
 
-func (w *DirWalker) initWorkers() *DirWalker {
+func (w *DirWalker) initWorkers(fin chan bool) {
 	for i := 0; i < w.Concurrent; i++ {
-		go w.walk()
-
+		w.routines.Add(1)
+		go w.walk(fin)
 	}
-	return w
 }
 
+func (w *DirWalker) finished() chan bool {
+	w.dirsLock.Lock()
+	defer w.dirsLock.Unlock()
+
+	return w.fin
+}
+
+// Stop stops the walk in progress, it has no effect if there is none
 func (w *DirWalker) Stop(err error) {
-	w.stop <- err
+	select {
+	case w.stop <- err:
+	case <-w.finished():
+	}
 }
 
 func (w *DirWalker) Err() error {
@@ -129,19 +153,28 @@ func (w *DirWalker) Err() error {
 }
 
 func (w *DirWalker) Walk() {
+	fin := make(chan bool)
+	w.dirsLock.Lock()
+	w.fin = fin
+	w.dirsLock.Unlock()
+
+	w.err = nil
+	w.initWorkers(fin)
+
 	w.wg.Add(1)
 	w.push(w.Dir)
 	w.newJob <- true
 
+	wgFin := make(chan bool)
 	go func() {
 		w.wg.Wait()
-		w.wgFin <- true
+		close(wgFin)
 	}()
 
 loop:
 	for {
 		select {
-		case <-w.wgFin:
+		case <-wgFin:
 			break loop
 		case err := <-w.stop:
 			w.err = err
@@ -149,5 +182,13 @@ loop:
 		}
 	}
 
-	w.fin <- true
+	// wake up all of the workers and wait for them, no handle is called from now on
+	close(fin)
+	w.routines.Wait()
+
+	// forget the directories which are left over by the stop
+	for _, ok := w.shift(); ok; _, ok = w.shift() {
+		w.wg.Done()
+	}
+	<-wgFin
 }
-- 
2.43.0


From a760270763b85cd099c7aab84f252ec034becb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:26 +0000
Subject: [PATCH 07/31] fix: ParseCache parsed keys twice, lost results and
 panicked on finished keys

---
 parseutil/cache.go | 72 +++++++++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 30 deletions(-)

diff --git a/parseutil/cache.go b/parseutil/cache.go
index fae7a2c..0583bfb 100644
--- a/parseutil/cache.go
+++ b/parseutil/cache.go
@@ -18,57 +18,69 @@ type Parser interface {
 	Parse(file, code string, readFile bool, biz interface{}) Parsed
 }
 
+// the state of a key in the cache
+type parseEntry struct {
+	done    bool
+	parsed  Parsed
+	pending []FutureParsed // who wait for the process to be done
+}
+
 type ParseCache[T comparable] struct {
 	ps map[ParserType]Parser
 
-	store     map[T]interface{}
+	store     map[T]*parseEntry
 	storeLock sync.Mutex
 }
 
 func NewParseCache[T comparable]() *ParseCache[T] {
 	return &ParseCache[T]{
 		ps:        map[ParserType]Parser{},
-		store:     map[T]interface{}{},
+		store:     map[T]*parseEntry{},
 		storeLock: sync.Mutex{},
 	}
 }
 
 func (c *ParseCache[T]) SetParser(p Parser) {
+	c.storeLock.Lock()
+	defer c.storeLock.Unlock()
+
 	c.ps[p.Type()] = p
 }
 
 func (c *ParseCache[T]) Parse(typ ParserType, key T, file, code string, readFile bool, biz interface{}) FutureParsed {
-	var r interface{}
-	c.storeLock.Lock()
-	r = c.store[key]
-	c.storeLock.Unlock()
-
-	switch v := r.(type) {
-	case FutureParsed: // already has a pending process
-		return v
+	ret := make(FutureParsed, 1)
 
-	case *Parsed: // process has been done before
-		ret := make(FutureParsed, 1)
-		ret <- v
+	c.storeLock.Lock()
+	defer c.storeLock.Unlock()
+
+	if e, ok := c.store[key]; ok {
+		if e.done { // process has been done before
+			ret <- e.parsed
+		} else { // already has a pending process
+			e.pending = append(e.pending, ret)
+		}
 		return ret
+	}
 
-	case nil: // first time
-		ret := make(FutureParsed, 1)
-		c.storeLock.Lock()
-		c.store[key] = ret
-		c.storeLock.Unlock()
-
-		go func() {
-			r := c.ps[typ].Parse(file, code, readFile, biz)
-
-			c.storeLock.Lock()
-			c.store[key] = r
-			c.storeLock.Unlock()
+	// first time
+	e := &parseEntry{pending: []FutureParsed{ret}}
+	c.store[key] = e
+	p := c.ps[typ]
 
-			ret <- r
-		}()
+	go func() {
+		r := p.Parse(file, code, readFile, biz)
 
-		return ret
-	}
-	panic("unreachable")
+		c.storeLock.Lock()
+		defer c.storeLock.Unlock()
+
+		e.done = true
+		e.parsed = r
+		// the futures are buffered, so no one has to be there to receive
+		for _, f := range e.pending {
+			f <- r
+		}
+		e.pending = nil
+	}()
+
+	return ret
 }
-- 
2.43.0


From ceaaa63734af4bcdbdd9baf1d4b4cb5585c11879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:34 +0000
Subject: [PATCH 08/31] fix: Download took an error response for the file

---
 util/shell.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/shell.go b/util/shell.go
index 1e9c711..f960085 100644
--- a/util/shell.go
+++ b/util/shell.go
@@ -53,6 +53,10 @@ func Download(url, dist string) error {
 	}
 	defer resp.Body.Close()
 
+	if resp.StatusCode < 200 || resp.StatusCode > 299 {
+		return fmt.Errorf("failed to download %s: %s", url, resp.Status)
+	}
+
 	out, err := os.Create(dist)
 	if err != nil {
 		return err
-- 
2.43.0


From 4ca58fc8c5acb3729f5390681e27edb6a7575b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:34 +0000
Subject: [PATCH 09/31] fix: Download ignored the error of closing the file

---
 util/shell.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/shell.go b/util/shell.go
index f960085..eabe641 100644
--- a/util/shell.go
+++ b/util/shell.go
@@ -61,9 +61,11 @@ func Download(url, dist string) error {
 	if err != nil {
 		return err
 	}
-	defer out.Close()
 
 	_, err = io.Copy(out, resp.Body)
+	if cerr := out.Close(); err == nil {
+		err = cerr
+	}
 	return err
 }
 
-- 
2.43.0


From 7290231eacece6ec521d099e0dad8fd7480307e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:34 +0000
Subject: [PATCH 10/31] fix: UnTarGz kept all of the files open and ignored the
 errors of closing them

---
 util/shell.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/shell.go b/util/shell.go
index eabe641..6318ddf 100644
--- a/util/shell.go
+++ b/util/shell.go
@@ -125,9 +125,11 @@ func UnTarGz(tarball, dist string) error {
 		if err != nil {
 			return err
 		}
-		defer file.Close()
 
 		_, err = io.Copy(file, tarReader)
+		if cerr := file.Close(); err == nil {
+			err = cerr
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 4adf6c998aa58137f49df259fe0048c9c2106c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:34 +0000
Subject: [PATCH 11/31] fix: UnTarGz did not verify the checksum of the tarball

---
 util/shell.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/shell.go b/util/shell.go
index 6318ddf..e24d0ee 100644
--- a/util/shell.go
+++ b/util/shell.go
@@ -134,5 +134,8 @@ func UnTarGz(tarball, dist string) error {
 			return err
 		}
 	}
-	return nil
+
+	// the checksum is stored at the end of the tarball, it is verified by reaching there
+	_, err = io.Copy(io.Discard, zipReader)
+	return err
 }
-- 
2.43.0


From 51376c59bc07e45ffa7ae4a4b51484f1aa38bde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:34 +0000
Subject: [PATCH 12/31] fix: UnTarGz could write outside of the target
 directory

---
 util/shell.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/util/shell.go b/util/shell.go
index e24d0ee..0cae574 100644
--- a/util/shell.go
+++ b/util/shell.go
@@ -11,6 +11,7 @@ import (
 	"os"
 	"os/exec"
 	"path/filepath"
+	"strings"
 )
 
 func Shell(command string, args ...string) {
@@ -113,6 +114,14 @@ func UnTarGz(tarball, dist string) error {
 		}
 
 		path := filepath.Join(dist, header.Name)
+		rel, err := filepath.Rel(dist, path)
+		if err != nil {
+			return err
+		}
+		if rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
+			return fmt.Errorf("%s is outside of the target directory", header.Name)
+		}
+
 		info := header.FileInfo()
 		if info.IsDir() {
 			if err = os.MkdirAll(path, info.Mode()); err != nil {
-- 
2.43.0


From 7d533c41addcdf8f54c9168c0ec9ee0f7e480903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:54 +0000
Subject: [PATCH 13/31] fix: the cli exited with success when the file could
 not be processed

---
 cli/ast.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/ast.go b/cli/ast.go
index 58250a7..c70bee1 100644
--- a/cli/ast.go
+++ b/cli/ast.go
@@ -37,7 +37,9 @@ func (a *AstInspector) Process(opts *Options) bool {
 	}
 
 	if opts.ast {
-		printJsAst(string(src), opts.file, opts.perf)
+		if _, err = printJsAst(string(src), opts.file, opts.perf); err != nil {
+			panic(err)
+		}
 	}
 
 	return true
-- 
2.43.0


From 114f87db67556ee3e643f51218a676ca3dbfe1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:54 +0000
Subject: [PATCH 14/31] fix: the cli lost the parse error in perf mode

---
 cli/ast.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cli/ast.go b/cli/ast.go
index c70bee1..8e46c0b 100644
--- a/cli/ast.go
+++ b/cli/ast.go
@@ -61,17 +61,18 @@ func printJsAst(src, file string, perf bool) (string, error) {
 	var ast parser.Node
 	var err error
 	if perf {
-		cpuProf, err := os.Create("cpu.prof")
+		var cpuProf, heap *os.File
+		cpuProf, err = os.Create("cpu.prof")
 		if err != nil {
 			return "", err
 		}
 		defer cpuProf.Close()
 
-		heap, err := os.Create("heap.out")
+		heap, err = os.Create("heap.out")
 		if err != nil {
 			return "", err
 		}
-		defer cpuProf.Close()
+		defer heap.Close()
 
 		_runtime.StartCPUProfile(cpuProf)
 		ast, err = p.Prog()
-- 
2.43.0


From c2b757146e6f069b36160738cd122cc0e21e64d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:54 +0000
Subject: [PATCH 15/31] fix: the cli reported a result as saved which it could
 not write

---
 cli/ast.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/ast.go b/cli/ast.go
index 8e46c0b..34e3856 100644
--- a/cli/ast.go
+++ b/cli/ast.go
@@ -101,7 +101,9 @@ func printJsAst(src, file string, perf bool) (string, error) {
 	output := out.String()
 
 	outFile := assembleOutFile(file, "_ast")
-	ioutil.WriteFile(outFile, out.Bytes(), 0644)
+	if err = ioutil.WriteFile(outFile, out.Bytes(), 0644); err != nil {
+		return "", err
+	}
 	fmt.Printf("Result is also saved in: %s\n", outFile)
 
 	if ok := copyToClipboard(outFile); ok {
-- 
2.43.0


From 8b362de2f063943fe55d4aada1b5bb5202e15a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:54 +0000
Subject: [PATCH 16/31] fix: the name of the file was interpreted by the shell
 when copying to the clipboard

---
 cli/ast.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/ast.go b/cli/ast.go
index 34e3856..a298bfd 100644
--- a/cli/ast.go
+++ b/cli/ast.go
@@ -119,7 +119,14 @@ func copyToClipboard(file string) bool {
 		return false
 	}
 
-	cmd := exec.Command("bash", "-c", path+" < "+file)
+	f, err := os.Open(file)
+	if err != nil {
+		return false
+	}
+	defer f.Close()
+
+	cmd := exec.Command(path)
+	cmd.Stdin = f
 	err = cmd.Run()
 	return err == nil
 }
-- 
2.43.0


From 836f0bf8d464ae47e2669439890d4c99b476b772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:36 +0000
Subject: [PATCH 17/31] fix: Parser.Setup modified the options it was given

---
 ecma/parser/parser.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 259d5c8..fbf47d2 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -117,14 +117,16 @@ func NewParser(src *span.Source, opts *ParserOpts) *Parser {
 }
 
 func (p *Parser) Setup(src *span.Source, opts *ParserOpts) {
-	if opts.Feature&FEAT_ASYNC_AWAIT == 0 {
-		opts.Feature = opts.Feature.Off(FEAT_GLOBAL_ASYNC)
+	// the `opts` can be shared with other parsers, it should not be modified
+	feat := opts.Feature
+	if feat&FEAT_ASYNC_AWAIT == 0 {
+		feat = feat.Off(FEAT_GLOBAL_ASYNC)
 	}
-	if opts.Feature&FEAT_MODULE != 0 {
-		opts.Feature = opts.Feature.On(FEAT_IMPORT_DEC).On(FEAT_EXPORT_DEC)
+	if feat&FEAT_MODULE != 0 {
+		feat = feat.On(FEAT_IMPORT_DEC).On(FEAT_EXPORT_DEC)
 	}
 
-	p.feat = opts.Feature
+	p.feat = feat
 	p.imp = map[string]*Ident{}
 	p.checkName = true
 	p.danglingPvtRefs = make([]*Ref, 0)
@@ -138,7 +140,7 @@ func (p *Parser) Setup(src *span.Source, opts *ParserOpts) {
 
 	p.lexer = NewLexer(src)
 	p.lexer.ver = opts.Version
-	p.lexer.feat = opts.Feature
+	p.lexer.feat = feat
 	if p.feat&FEAT_TS != 0 || p.feat&FEAT_DTS != 0 {
 		p.lexer.AddMode(LM_TS)
 	}
-- 
2.43.0


From 68bf774a9fe37263b06fe9ebbdf46d22e1b6d307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:46 +0000
Subject: [PATCH 18/31] fix: listeners added to one walk context were called by
 the walks of all contexts

---
 ecma/walk/ctx.go | 8 +++++++-
 util/map.go      | 9 +++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/ecma/walk/ctx.go b/ecma/walk/ctx.go
index ae576bd..487f544 100644
--- a/ecma/walk/ctx.go
+++ b/ecma/walk/ctx.go
@@ -28,7 +28,13 @@ type WalkCtx struct {
 func NewWalkCtx(root parser.Node, symtab *parser.SymTab) *WalkCtx {
 	c := &WalkCtx{}
 	c.Visitors = DefaultVisitors
-	c.Listeners = DefaultListeners
+	// the maps in `DefaultListeners` should not be shared among the contexts, otherwise
+	// the listeners added to one context are called by the walks of others
+	for t, ls := range DefaultListeners {
+		if ls != nil {
+			c.Listeners[t] = ls.Clone()
+		}
+	}
 	c.Root = root
 	c.Symtab = symtab
 	c.vc = &VisitorCtx{c, c.vc, []string{}, root}
diff --git a/util/map.go b/util/map.go
index ca69e6f..3415f74 100644
--- a/util/map.go
+++ b/util/map.go
@@ -55,6 +55,15 @@ func (o *OrderedMap[k, v]) Remove(key k) {
 	}
 }
 
+func (o *OrderedMap[K, V]) Clone() *OrderedMap[K, V] {
+	c := NewOrderedMap[K, V]()
+	for elem := o.list.Front(); elem != nil; elem = elem.Next() {
+		kv := elem.Value.(*KvPair[K, V])
+		c.Set(kv.Key, kv.Val)
+	}
+	return c
+}
+
 func (o *OrderedMap[k, v]) Front() *list.Element {
 	return o.list.Front()
 }
-- 
2.43.0


From d75fba8522ad928d7232d345f1c0cbd4ab77370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:49 +0000
Subject: [PATCH 19/31] fix: stopping a walk on entering a node still visited
 the first child of that node

---
 ecma/walk/ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/walk/ctx.go b/ecma/walk/ctx.go
index 487f544..830f788 100644
--- a/ecma/walk/ctx.go
+++ b/ecma/walk/ctx.go
@@ -143,7 +143,7 @@ func (vc *VisitorCtx) ParentIsJmp(key string) bool {
 }
 
 func VisitNode(n parser.Node, key string, ctx *VisitorCtx) {
-	if n == nil {
+	if n == nil || ctx.WalkCtx.stop {
 		return
 	}
 	ctx.WalkCtx.PushVisitorCtx(n, key)
-- 
2.43.0


From 17c2ad7d91d8d1521ebaed157b3dda3c3cbd3b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:16 +0000
Subject: [PATCH 20/31] fix: the control flow graph depended on the iteration
 order of maps

---
 ecma/analysis/graph.go | 101 +++++++++++++++++++++++++----------------
 1 file changed, 61 insertions(+), 40 deletions(-)

diff --git a/ecma/analysis/graph.go b/ecma/analysis/graph.go
index 0557861..72a9151 100644
--- a/ecma/analysis/graph.go
+++ b/ecma/analysis/graph.go
@@ -82,6 +82,8 @@ type Edge struct {
 	Tag  EdgeTag
 	Src  *Block
 	Dst  *Block
+
+	id uint // the creation order in the graph
 }
 
 func (e *Edge) Key() string {
@@ -173,7 +175,7 @@ func (b *Block) addOutlets(edges map[*Edge]*Edge) *Block {
 }
 
 func (b *Block) OutSeqEdge() *Edge {
-	for _, edge := range b.Outlets {
+	for _, edge := range sortEdges(b.Outlets) {
 		if edge.Kind == EK_SEQ {
 			return edge
 		}
@@ -182,7 +184,7 @@ func (b *Block) OutSeqEdge() *Edge {
 }
 
 func (b *Block) OutJmpEdge(ET EdgeTag) *Edge {
-	for _, edge := range b.Outlets {
+	for _, edge := range sortEdges(b.Outlets) {
 		if edge.Kind == EK_JMP && edge.Tag&ET != 0 {
 			return edge
 		}
@@ -191,7 +193,7 @@ func (b *Block) OutJmpEdge(ET EdgeTag) *Edge {
 }
 
 func (b *Block) OutEdge(ET EdgeTag) *Edge {
-	for _, edge := range b.Outlets {
+	for _, edge := range sortEdges(b.Outlets) {
 		if edge.Tag&ET != 0 {
 			return edge
 		}
@@ -200,7 +202,7 @@ func (b *Block) OutEdge(ET EdgeTag) *Edge {
 }
 
 func (b *Block) InSeqEdge() *Edge {
-	for _, edge := range b.Inlets {
+	for _, edge := range sortEdges(b.Inlets) {
 		if edge.Kind == EK_SEQ {
 			return edge
 		}
@@ -209,7 +211,7 @@ func (b *Block) InSeqEdge() *Edge {
 }
 
 func (b *Block) InJmpEdge(ET EdgeTag) *Edge {
-	for _, edge := range b.Inlets {
+	for _, edge := range sortEdges(b.Inlets) {
 		if edge.Tag&ET != 0 {
 			return edge
 		}
@@ -217,9 +219,20 @@ func (b *Block) InJmpEdge(ET EdgeTag) *Edge {
 	return nil
 }
 
+// the edges in their creation order, the result graph should not depend on the
+// iteration order of the map
+func sortEdges(edges map[*Edge]*Edge) []*Edge {
+	ret := make([]*Edge, 0, len(edges))
+	for _, edge := range edges {
+		ret = append(ret, edge)
+	}
+	sort.Slice(ret, func(i, j int) bool { return ret[i].id < ret[j].id })
+	return ret
+}
+
 func FindEdge(edges map[*Edge]*Edge, k EdgeKind, t EdgeTag) *Edge {
 	var e *Edge
-	for _, edge := range edges {
+	for _, edge := range sortEdges(edges) {
 		if edge.Kind == k && (edge.Tag == ET_NONE || t == ET_NONE || edge.Tag&t != 0) {
 			e = edge
 			break
@@ -230,7 +243,7 @@ func FindEdge(edges map[*Edge]*Edge, k EdgeKind, t EdgeTag) *Edge {
 
 func FindEdges(edges map[*Edge]*Edge, k EdgeKind, t EdgeTag) map[*Edge]*Edge {
 	ret := map[*Edge]*Edge{}
-	for _, edge := range edges {
+	for _, edge := range sortEdges(edges) {
 		if edge.Kind == k && (edge.Tag == ET_NONE || edge.Tag&t != 0) {
 			ret[edge] = edge
 		}
@@ -256,7 +269,7 @@ func (b *Block) FindInEdge(k EdgeKind, t EdgeTag, create bool) (*Edge, bool) {
 
 	new := false
 	if e == nil && create {
-		e = &Edge{k, t, nil, b}
+		e = b.graph.newEdge(k, t, nil, b)
 		b.Inlets[e] = e
 		new = true
 	}
@@ -268,7 +281,7 @@ func (b *Block) FindHangingInEdge(src *Block, k EdgeKind, t EdgeTag, create bool
 
 	new := false
 	if (e == nil || e.Src != nil && e.Src != src) && create {
-		e = &Edge{k, t, nil, b}
+		e = b.graph.newEdge(k, t, nil, b)
 		b.Inlets[e] = e
 		new = true
 	}
@@ -279,7 +292,7 @@ func (b *Block) FindOutEdge(k EdgeKind, t EdgeTag, create bool) *Edge {
 	e := FindEdge(b.Outlets, k, t)
 
 	if e == nil && create {
-		e = &Edge{k, t, b, nil}
+		e = b.graph.newEdge(k, t, b, nil)
 		b.Outlets[e] = e
 	}
 	return e
@@ -349,7 +362,7 @@ func (b *Block) NextBlk() *Block {
 }
 
 func (b *Block) unwrapSeqIn() *Block {
-	for _, edge := range b.Inlets {
+	for _, edge := range sortEdges(b.Inlets) {
 		if edge.Kind == EK_SEQ {
 			return edge.Dst
 		}
@@ -360,7 +373,7 @@ func (b *Block) unwrapSeqIn() *Block {
 }
 
 func (b *Block) unwrapSeqOut() *Block {
-	for _, edge := range b.Outlets {
+	for _, edge := range sortEdges(b.Outlets) {
 		if edge.Kind == EK_SEQ {
 			return edge.Src
 		}
@@ -377,7 +390,7 @@ func (b *Block) join(blk *Block) {
 
 	from.Outlets = to.Outlets
 	isCut := from.IsInCut()
-	for _, edge := range from.Outlets {
+	for _, edge := range sortEdges(from.Outlets) {
 		edge.Src = from
 		if isCut && edge.Dst == nil {
 			edge.Tag |= ET_CUT
@@ -387,7 +400,7 @@ func (b *Block) join(blk *Block) {
 
 func (b *Block) xOutEdges() map[*Edge]*Edge {
 	ret := map[*Edge]*Edge{}
-	for _, edge := range b.Outlets {
+	for _, edge := range sortEdges(b.Outlets) {
 		if edge.Dst == nil {
 			ret[edge] = edge
 		}
@@ -397,7 +410,7 @@ func (b *Block) xOutEdges() map[*Edge]*Edge {
 
 func (b *Block) xJmpOutEdges() map[*Edge]*Edge {
 	ret := map[*Edge]*Edge{}
-	for _, edge := range b.Outlets {
+	for _, edge := range sortEdges(b.Outlets) {
 		if edge.Kind != EK_SEQ && edge.Dst == nil {
 			ret[edge] = edge
 		}
@@ -406,7 +419,7 @@ func (b *Block) xJmpOutEdges() map[*Edge]*Edge {
 }
 
 func (b *Block) seqOutEdge() *Edge {
-	for _, edge := range b.Outlets {
+	for _, edge := range sortEdges(b.Outlets) {
 		if edge.Kind == EK_SEQ {
 			return edge
 		}
@@ -415,7 +428,7 @@ func (b *Block) seqOutEdge() *Edge {
 }
 
 func (b *Block) seqInEdge() *Edge {
-	for _, edge := range b.Inlets {
+	for _, edge := range sortEdges(b.Inlets) {
 		if edge.Kind == EK_SEQ {
 			return edge
 		}
@@ -426,7 +439,7 @@ func (b *Block) seqInEdge() *Edge {
 // add new jmp branch from the source node of seqOut
 func (b *Block) newJmpOut(k EdgeTag) *Edge {
 	seq := b.seqOutEdge()
-	edge := &Edge{EK_JMP, k, seq.Src, nil}
+	edge := b.graph.newEdge(EK_JMP, k, seq.Src, nil)
 	seq.Src.Outlets[edge] = edge
 
 	if seq.Src.IsInCut() {
@@ -442,7 +455,7 @@ func (b *Block) newJmpOut(k EdgeTag) *Edge {
 }
 
 func (b *Block) hasXOut(k EdgeKind, t EdgeTag) bool {
-	for _, edge := range b.Outlets {
+	for _, edge := range sortEdges(b.Outlets) {
 		if edge.Kind == k && (t == ET_NONE || edge.Tag&t != 0) {
 			return true
 		}
@@ -453,7 +466,7 @@ func (b *Block) hasXOut(k EdgeKind, t EdgeTag) bool {
 // add new loop branch to the dest node of seqIn
 func (b *Block) newLoopIn() {
 	seq := b.seqInEdge()
-	edge := &Edge{EK_JMP, ET_LOOP, nil, seq.Dst}
+	edge := b.graph.newEdge(EK_JMP, ET_LOOP, nil, seq.Dst)
 	seq.Dst.Inlets[edge] = edge
 
 	if seq.Dst != b {
@@ -468,7 +481,7 @@ func (b *Block) newJmpIn(t EdgeTag) {
 // stmt after try-catch has tow seq-in edges
 func (b *Block) newIn(k EdgeKind, t EdgeTag) {
 	seq := b.seqInEdge()
-	edge := &Edge{k, t, nil, seq.Dst}
+	edge := b.graph.newEdge(k, t, nil, seq.Dst)
 	seq.Dst.Inlets[edge] = edge
 
 	if seq.Dst != b {
@@ -487,8 +500,8 @@ func (b *Block) mrkSeqOutAsLoop() {
 }
 
 func (b *Block) addCutOutEdge() {
-	blk := util.PickOne(b.Outlets).Src
-	edge := &Edge{EK_SEQ, ET_NONE, blk, nil}
+	blk := sortEdges(b.Outlets)[0].Src
+	edge := b.graph.newEdge(EK_SEQ, ET_NONE, blk, nil)
 	edge.Tag |= ET_CUT
 	blk.Outlets[edge] = edge
 
@@ -498,7 +511,7 @@ func (b *Block) addCutOutEdge() {
 }
 
 func (b *Block) mrkJmpOutAsLoop(tag EdgeTag) {
-	for _, edge := range b.Outlets {
+	for _, edge := range sortEdges(b.Outlets) {
 		if edge.Kind == EK_JMP && edge.Tag&tag != 0 {
 			edge.Tag |= ET_LOOP
 		}
@@ -510,7 +523,7 @@ func (b *Block) mrkSeqOutAsCut() {
 }
 
 func (b *Block) IsInCut() bool {
-	for _, e := range b.Inlets {
+	for _, e := range sortEdges(b.Inlets) {
 		if e.Tag&ET_CUT == 0 {
 			return false
 		}
@@ -520,7 +533,7 @@ func (b *Block) IsInCut() bool {
 
 func (b *Block) IsInCutPair() (bool, bool) {
 	p := 0
-	for _, e := range b.Inlets {
+	for _, e := range sortEdges(b.Inlets) {
 		if e.Tag&ET_CUT == 0 {
 			if e.Tag&ET_JMP_P != 0 {
 				p += 1
@@ -533,7 +546,7 @@ func (b *Block) IsInCutPair() (bool, bool) {
 		return true, false
 	}
 	if p > 0 {
-		for _, e := range b.Outlets {
+		for _, e := range sortEdges(b.Outlets) {
 			if e.Tag&ET_JMP_P != 0 {
 				p -= 1
 			}
@@ -548,7 +561,7 @@ func (b *Block) IsCut() bool {
 		return true
 	}
 	n := 0
-	for _, edge := range b.Outlets {
+	for _, edge := range sortEdges(b.Outlets) {
 		if edge.Tag&ET_CUT == 0 && edge.Tag&ET_LOOP == 0 {
 			n += 1
 		}
@@ -557,7 +570,7 @@ func (b *Block) IsCut() bool {
 }
 
 func (b *Block) HasOutCut() bool {
-	for _, edge := range b.Outlets {
+	for _, edge := range sortEdges(b.Outlets) {
 		if edge.Tag&ET_CUT != 0 {
 			return true
 		}
@@ -626,7 +639,8 @@ type Graph struct {
 	hangingThrow    map[parser.Node][]*Block
 	hasHangingThrow bool
 
-	blkSeed uint
+	blkSeed  uint
+	edgeSeed uint
 
 	// map astNode to its basic block
 	astNodeToBlock map[parser.Node]*Block
@@ -689,6 +703,12 @@ func (g *Graph) isLoopHasCont(loop parser.Node) bool {
 	return len(g.hangingCont[loop]) > 0
 }
 
+func (g *Graph) newEdge(k EdgeKind, t EdgeTag, src, dst *Block) *Edge {
+	e := &Edge{k, t, src, dst, g.edgeSeed}
+	g.edgeSeed += 1
+	return e
+}
+
 func (g *Graph) newBasicBlk() *Block {
 	b := &Block{
 		id:      g.blkSeed,
@@ -699,10 +719,10 @@ func (g *Graph) newBasicBlk() *Block {
 		graph:   g,
 	}
 	g.blkSeed += 1
-	in := &Edge{Kind: EK_SEQ, Src: nil, Dst: b}
+	in := g.newEdge(EK_SEQ, ET_NONE, nil, b)
 	b.Inlets[in] = in
 
-	out := &Edge{Kind: EK_SEQ, Src: b, Dst: nil}
+	out := g.newEdge(EK_SEQ, ET_NONE, b, nil)
 	b.Outlets[out] = out
 	return b
 }
@@ -717,10 +737,10 @@ func (g *Graph) newStartBlk() *Block {
 	}
 	g.blkSeed += 1
 
-	in := &Edge{Kind: EK_SEQ, Src: nil, Dst: b}
+	in := g.newEdge(EK_SEQ, ET_NONE, nil, b)
 	b.Inlets[in] = in
 
-	out := &Edge{Kind: EK_SEQ, Src: b, Dst: nil}
+	out := g.newEdge(EK_SEQ, ET_NONE, b, nil)
 	b.Outlets[out] = out
 	return b
 }
@@ -742,7 +762,7 @@ func (g *Graph) NodesEdges() (map[string]*Block, []string, map[string]*Edge, []s
 	uniqueEdges := map[string]*Edge{}
 	astNodeMap := map[parser.Node]*Block{}
 
-	start := util.PickOne(g.Head.Inlets)
+	start := sortEdges(g.Head.Inlets)[0]
 	uniqueEdges[start.Key()] = start
 
 	blKKeys := []string{}
@@ -768,7 +788,7 @@ func (g *Graph) NodesEdges() (map[string]*Block, []string, map[string]*Edge, []s
 			astNodeMap[astNode] = last
 		}
 
-		for _, edge := range last.Outlets {
+		for _, edge := range sortEdges(last.Outlets) {
 			ek := edge.Key()
 			if _, ok := uniqueEdges[ek]; !ok {
 				uniqueEdges[ek] = edge
@@ -920,14 +940,14 @@ func link(a *AnalysisCtx, from *Block, fromKind EdgeKind, fromTag EdgeTag, toKin
 	linkEdges(from.Outlets, fromKind, fromTag, toKind, toTag, to, flag)
 
 	if from.IsOutCut(to) {
-		for _, edge := range to.Inlets {
+		for _, edge := range sortEdges(to.Inlets) {
 			if edge.Src == fromSeq {
 				edge.Tag |= ET_CUT
 			}
 		}
 		cut, pair := to.IsInCutPair()
 		if cut {
-			for _, edge := range to.Outlets {
+			for _, edge := range sortEdges(to.Outlets) {
 				if pair {
 					if edge.Kind == EK_SEQ {
 						edge.Tag |= ET_CUT
@@ -941,7 +961,7 @@ func link(a *AnalysisCtx, from *Block, fromKind EdgeKind, fromTag EdgeTag, toKin
 }
 
 func linkEdges(fromEdges map[*Edge]*Edge, fromKind EdgeKind, fromTag EdgeTag, toKind EdgeKind, toTag EdgeTag, to *Block, flag LinkFlag) {
-	for _, edge := range fromEdges {
+	for _, edge := range sortEdges(fromEdges) {
 		if edge.Kind == fromKind && (fromTag == ET_NONE || edge.Tag&fromTag != 0) {
 			if edge.Dst == nil || flag&LF_OVERWRITE != 0 {
 				edge.Dst = to
@@ -966,7 +986,8 @@ func IterBlock(blk *Block, cb BlockCb) {
 			break
 		}
 
-		edge := util.TakeOne(edges)
+		edge := sortEdges(edges)[0]
+		delete(edges, edge)
 		if _, done := doneMap[edge.Dst]; !done && edge.Dst != nil {
 			cb(edge.Dst)
 			doneMap[edge.Dst] = true
-- 
2.43.0


From 56c4f27d2626ea75ef90139822b72a7d70503769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:47 +0000
Subject: [PATCH 21/31] fix: the output of visitor_gen depended on the
 iteration order of maps

---
 script/visitor_gen/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/script/visitor_gen/main.go b/script/visitor_gen/main.go
index 15c9000..ef00c66 100644
--- a/script/visitor_gen/main.go
+++ b/script/visitor_gen/main.go
@@ -11,6 +11,7 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"github.com/hsiaosiyuan0/mole/script/macro"
@@ -156,7 +157,11 @@ func AddAtomListener(ls *Listeners, impl *Listener) {
   `))
 
 	processedVisitors := map[string]bool{}
-	for _, structName := range nodeTypStruct {
+	// sort the types to produce the same output for the same definitions
+	nodeTyps := util.Keys(nodeTypStruct)
+	sort.Strings(nodeTyps)
+	for _, nodeTyp := range nodeTyps {
+		structName := nodeTypStruct[nodeTyp]
 		if _, ok := processedVisitors[structName]; ok {
 			continue
 		}
-- 
2.43.0


From a85a303b25bb5e374c9f48c8e0932895d6dda3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:50 +0000
Subject: [PATCH 22/31] fix: the generators ignored the errors of writing their
 output

---
 script/nodetype_gen/main.go | 8 ++++++--
 script/visitor_gen/main.go  | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/script/nodetype_gen/main.go b/script/nodetype_gen/main.go
index 6775c7c..237ba05 100644
--- a/script/nodetype_gen/main.go
+++ b/script/nodetype_gen/main.go
@@ -88,8 +88,12 @@ package parser
 
   `)
 
-	genNodetypeString(&buf, nodetypes, nodetypStrings)
+	if err = genNodetypeString(&buf, nodetypes, nodetypStrings); err != nil {
+		log.Fatal(err)
+	}
 
-	ioutil.WriteFile(distFile, buf.Bytes(), 0644)
+	if err = ioutil.WriteFile(distFile, buf.Bytes(), 0644); err != nil {
+		log.Fatal(err)
+	}
 	util.Shell("gofmt", "-w", distFile)
 }
diff --git a/script/visitor_gen/main.go b/script/visitor_gen/main.go
index ef00c66..7fe7832 100644
--- a/script/visitor_gen/main.go
+++ b/script/visitor_gen/main.go
@@ -408,6 +408,8 @@ import (
 		log.Fatal(err)
 	}
 
-	ioutil.WriteFile(distFile, buf.Bytes(), 0644)
+	if err = ioutil.WriteFile(distFile, buf.Bytes(), 0644); err != nil {
+		log.Fatal(err)
+	}
 	util.Shell("gofmt", "-w", distFile)
 }
-- 
2.43.0


From 93ed58934f19f2974f4dccb091b10e29d98b9637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:53 +0000
Subject: [PATCH 23/31] fix: html_entity took an error response for the
 entities

---
 script/html_entity/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/script/html_entity/main.go b/script/html_entity/main.go
index 238c72d..188205e 100644
--- a/script/html_entity/main.go
+++ b/script/html_entity/main.go
@@ -40,6 +40,9 @@ func main() {
 	if err != nil {
 		log.Fatal(err)
 	}
+	if resp.StatusCode != http.StatusOK {
+		log.Fatalf("failed to fetch the entities: %s", resp.Status)
+	}
 	body, err := io.ReadAll(resp.Body)
 	if err != nil {
 		log.Fatal(err)
-- 
2.43.0


From 638b308ca97cba9afa7000891f317efe880c4169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:20 +0000
Subject: [PATCH 24/31] fix: GetStaticPropertyName modified the node in the
 parens

---
 ecma/astutil/astutil.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecma/astutil/astutil.go b/ecma/astutil/astutil.go
index 8784bdb..5afefdf 100644
--- a/ecma/astutil/astutil.go
+++ b/ecma/astutil/astutil.go
@@ -8,7 +8,10 @@ import (
 )
 
 func GetStaticPropertyName(node parser.Node) string {
-	node = parser.UnParen(node)
+	// `parser.UnParen` is not used here since it modifies the node in the parens
+	if node.Type() == parser.N_EXPR_PAREN {
+		node = node.(*parser.ParenExpr).Expr()
+	}
 	switch node.Type() {
 	case parser.N_EXPR_MEMBER:
 		n := node.(*parser.MemberExpr)
-- 
2.43.0


From 742380a117ffc1e599ba831d2a27580ebbe03dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:01 +0000
Subject: [PATCH 25/31] fix: converting an index signature wrote to the AST

The type annotation of the key is kept in its type info by the parser already, writing
it again is a data race between conversions of the same AST.
---
 ecma/estree/ts_convert.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/ecma/estree/ts_convert.go b/ecma/estree/ts_convert.go
index e357329..0f183c3 100644
--- a/ecma/estree/ts_convert.go
+++ b/ecma/estree/ts_convert.go
@@ -295,14 +295,6 @@ func ConvertTsTyp(node parser.Node, ctx *ConvertCtx) Node {
 		}
 	case parser.N_TS_IDX_SIG:
 		n := node.(*parser.TsIdxSig)
-		if wt, ok := n.Key().(parser.NodeWithTypInfo); ok {
-			ti := wt.TypInfo()
-			if ti == nil {
-				ti = parser.NewTypInfo()
-				wt.SetTypInfo(ti)
-			}
-			ti.SetTypAnnot(n.KeyType())
-		}
 		return &TSIndexSignature{
 			Type:           "TSIndexSignature",
 			Start:          int(n.Range().Lo),
-- 
2.43.0


From c7d16797776b6f0b7f8e57c074b3f0243bff6146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:12 +0000
Subject: [PATCH 26/31] fix: the generators walked the definition files in the
 iteration order of a map

---
 script/macro/parse.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/script/macro/parse.go b/script/macro/parse.go
index f240162..fc4b45c 100644
--- a/script/macro/parse.go
+++ b/script/macro/parse.go
@@ -8,8 +8,11 @@ import (
 	"log"
 	"reflect"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
+
+	"github.com/hsiaosiyuan0/mole/util"
 )
 
 // Marco Grammar:
@@ -308,9 +311,16 @@ func MacroCtxsOfFile(file *ast.File, filename string, procCtx *ProcCtx) ([]*Macr
 type WalkPkgHandle = func(*ast.File, string, *ProcCtx) error
 
 func WalkPkgs(pkgs map[string]*ast.Package, handle WalkPkgHandle, pc *ProcCtx) error {
-	for _, pkg := range pkgs {
-		for filename, file := range pkg.Files {
-			err := handle(file, filename, pc)
+	// walk in the order of the names, otherwise what depends on the order of
+	// the definitions would differ from run to run
+	pkgNames := util.Keys(pkgs)
+	sort.Strings(pkgNames)
+	for _, pkgName := range pkgNames {
+		files := pkgs[pkgName].Files
+		filenames := util.Keys(files)
+		sort.Strings(filenames)
+		for _, filename := range filenames {
+			err := handle(files[filename], filename, pc)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From f398cdba4b1116e116fcbfbb355206a0fedb74e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:28 +0000
Subject: [PATCH 27/31] fix: UnTarGz failed for archives without entries for
 their directories

---
 util/shell.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/shell.go b/util/shell.go
index 0cae574..068131b 100644
--- a/util/shell.go
+++ b/util/shell.go
@@ -130,6 +130,11 @@ func UnTarGz(tarball, dist string) error {
 			continue
 		}
 
+		// the archive may have no entries for the directories of its files
+		if err = os.MkdirAll(filepath.Dir(path), 0755); err != nil {
+			return err
+		}
+
 		file, err := os.OpenFile(path, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, info.Mode())
 		if err != nil {
 			return err
-- 
2.43.0


From cafabcbf9dc12889315295ebfe34217011625bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:36 +0000
Subject: [PATCH 28/31] fix: UnTarGz could not unpack over read-only files or
 into read-only directories

---
 util/shell.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/util/shell.go b/util/shell.go
index 068131b..c40ed82 100644
--- a/util/shell.go
+++ b/util/shell.go
@@ -124,7 +124,8 @@ func UnTarGz(tarball, dist string) error {
 
 		info := header.FileInfo()
 		if info.IsDir() {
-			if err = os.MkdirAll(path, info.Mode()); err != nil {
+			// keep it accessible to unpack the entries of it
+			if err = os.MkdirAll(path, info.Mode()|0700); err != nil {
 				return err
 			}
 			continue
@@ -135,6 +136,13 @@ func UnTarGz(tarball, dist string) error {
 			return err
 		}
 
+		// the file which is already there may be read-only
+		if IsFile(path) {
+			if err = os.Remove(path); err != nil {
+				return err
+			}
+		}
+
 		file, err := os.OpenFile(path, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, info.Mode())
 		if err != nil {
 			return err
-- 
2.43.0


From 1126b5653f1215c181fc3e8e170479069a6881a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:00 +0000
Subject: [PATCH 29/31] fix: Parser.Setup kept the pending signature and
 decorators of the previous source

---
 ecma/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index fbf47d2..c5f9801 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -130,11 +130,14 @@ func (p *Parser) Setup(src *span.Source, opts *ParserOpts) {
 	p.imp = map[string]*Ident{}
 	p.checkName = true
 	p.danglingPvtRefs = make([]*Ref, 0)
+	p.lastTsFnSig = nil
 	p.ltTokens = map[uint32]bool{}
+	p.hangingDecorators = nil
 	p.symtab = NewSymTab(opts.Externals)
 	p.loopStk = []Node{}
 	p.retsStk = [][]Node{}
 	p.tryStk = []Node{}
+	p.prog = nil
 	p.prevCmts = map[Node][]span.Range{}
 	p.postCmts = map[Node][]span.Range{}
 
-- 
2.43.0


From a755f85642cbed2c2c7f9e519c9a42d02715228e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:42 +0000
Subject: [PATCH 30/31] fix: parsing does not come to an end if there is a `}`
 in the text of a jsx element

---
 ecma/parser/jsx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/jsx.go b/ecma/parser/jsx.go
index 65b7d82..433554c 100644
--- a/ecma/parser/jsx.go
+++ b/ecma/parser/jsx.go
@@ -351,7 +351,8 @@ func (p *Parser) jsx(root bool, opening bool) (Node, error) {
 				children = append(children, child)
 			} else if av == T_EOF {
 				return nil, p.errorAtLoc(ahead.rng, ERR_UNTERMINATED_JSX_CONTENTS)
-			} else if av == T_ILLEGAL {
+			} else {
+				// either illegal or something like `}` which cannot be in the text
 				return nil, p.errorTok(ahead)
 			}
 		}
-- 
2.43.0


From 7583acfd0eff0e81187f1ec519a4f5e1c011633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:22 +0000
Subject: [PATCH 31/31] fix: parsing does not come to an end if there is a bad
 rune in a template literal

---
 ecma/parser/lexer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index bcd7e56..8836ddd 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -575,6 +575,7 @@ func (l *Lexer) readTplChs() (text []byte, fin bool, ofst, pos uint32, err strin
 			}
 			text = utf8.AppendRune(text, r)
 		} else if c == utf8.RuneError {
+			l.src.Read()
 			errEscape = ERR_BAD_RUNE
 		} else if c == span.EOF {
 			err = ERR_UNTERMINATED_TPL
-- 
2.43.0


From a6057c8edd568dd77bec905b451a81064ac41849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 01/24] fix: pair every word with its whole forward context,
 also at the end of the text

ReadWordWithForwardContext invented pairs with the empty word for texts
shorter than the window (or empty), dropped pairs among the last words for
windows larger than two, and panicked for window zero.
---
 pkg/corpus/cpsutil/cpsutil.go | 46 +++++++++++------------------------
 1 file changed, 14 insertions(+), 32 deletions(-)

diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index 020b098..f5ca45e 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -46,44 +46,26 @@ func ReadWord(r io.ReadSeeker, fn func(string) error) error {
 func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string) error) error {
 	r.Seek(0, 0)
 	scanner := scanner(r)
+	// ws holds the axis word followed by (up to) n words of its forward context.
 	var (
-		axis string
-		ws   []string = make([]string, n)
+		ws   []string
+		more = true
 	)
-	postFn := func() error {
-		for _, w := range ws {
-			if err := fn(axis, w); err != nil {
-				return err
-			}
-		}
-		return nil
-	}
 	for {
-		if axis == "" {
-			if !scanner.Scan() {
-				break
-			}
-			axis = scanner.Text()
-			for i := 0; i < n; i++ {
-				if !scanner.Scan() {
-					break
-				}
-				ws[i] = scanner.Text()
-			}
-		} else {
-			axis = ws[0]
-			ws = ws[1:]
-			if !scanner.Scan() {
-				break
+		for more && len(ws) <= n {
+			if more = scanner.Scan(); more {
+				ws = append(ws, scanner.Text())
 			}
-			ws = append(ws, scanner.Text())
 		}
-		if err := postFn(); err != nil {
-			return err
+		if len(ws) == 0 {
+			break
 		}
-	}
-	if err := postFn(); err != nil {
-		return err
+		for _, w := range ws[1:] {
+			if err := fn(ws[0], w); err != nil {
+				return err
+			}
+		}
+		ws = ws[1:]
 	}
 
 	if err := scanner.Err(); err != nil && err != io.EOF {
-- 
2.43.0


From a2f8d2b6f0f897fc9f2ee7bce5233f03745e5866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 02/24] fix: lower-case words before looking them up when
 counting co-occurrences from a stream

With lower-casing on, every upper-case word was counted as word 0.
---
 pkg/corpus/fs/fs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index c28860b..48fca89 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -131,6 +131,10 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 		}
 
 		if err = cpsutil.ReadWordWithForwardContext(c.doc, with.Window, func(w1, w2 string) error {
+			if c.toLower {
+				w1, w2 = strings.ToLower(w1), strings.ToLower(w2)
+			}
+
 			id1, _ := c.dic.ID(w1)
 			id2, _ := c.dic.ID(w2)
 			if err := c.cooc.Add(id1, id2); err != nil {
-- 
2.43.0


From e58a8ac63808c792a935dfeb244205ac1f4a0283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 03/24] fix: weight proximity counts by the distance between
 the words

The distance was taken between the word ids, so the weight depended on the
order of first appearance and any word repeated inside the window made
loading fail with 'Divide by zero'.
---
 pkg/corpus/cooccurrence/cooccurrence.go | 11 ++++++++---
 pkg/corpus/cpsutil/cpsutil.go           | 11 +++++++++--
 pkg/corpus/fs/fs.go                     |  4 ++--
 pkg/corpus/memory/memory.go             |  2 +-
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/pkg/corpus/cooccurrence/cooccurrence.go b/pkg/corpus/cooccurrence/cooccurrence.go
index 6cd2449..f4d9d4c 100644
--- a/pkg/corpus/cooccurrence/cooccurrence.go
+++ b/pkg/corpus/cooccurrence/cooccurrence.go
@@ -55,18 +55,23 @@ func (c *Cooccurrence) EncodedMatrix() map[uint64]float64 {
 	return c.ma
 }
 
+// Add counts the adjacent words left and right.
 func (c *Cooccurrence) Add(left, right int) error {
+	return c.AddAt(left, right, 1)
+}
+
+// AddAt counts the words left and right occurring at the given distance from each other.
+func (c *Cooccurrence) AddAt(left, right, distance int) error {
 	enc := encode.EncodeBigram(uint64(left), uint64(right))
 	var val float64
 	switch c.typ {
 	case Increment:
 		val = 1
 	case Proximity:
-		div := left - right
-		if div == 0 {
+		if distance == 0 {
 			return errors.Errorf("Divide by zero on counting co-occurrence")
 		}
-		val = 1. / math.Abs(float64(div))
+		val = 1. / math.Abs(float64(distance))
 	default:
 		return invalidCountTypeError(c.typ)
 	}
diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index f5ca45e..365ee08 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -44,6 +44,13 @@ func ReadWord(r io.ReadSeeker, fn func(string) error) error {
 }
 
 func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string) error) error {
+	return ReadWordWithForwardDistance(r, n, func(w1, w2 string, _ int) error {
+		return fn(w1, w2)
+	})
+}
+
+// ReadWordWithForwardDistance is ReadWordWithForwardContext which also passes the distance between the words.
+func ReadWordWithForwardDistance(r io.ReadSeeker, n int, fn func(string, string, int) error) error {
 	r.Seek(0, 0)
 	scanner := scanner(r)
 	// ws holds the axis word followed by (up to) n words of its forward context.
@@ -60,8 +67,8 @@ func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string)
 		if len(ws) == 0 {
 			break
 		}
-		for _, w := range ws[1:] {
-			if err := fn(ws[0], w); err != nil {
+		for i, w := range ws[1:] {
+			if err := fn(ws[0], w, i+1); err != nil {
 				return err
 			}
 		}
diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index 48fca89..9a3166d 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -130,14 +130,14 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 			return err
 		}
 
-		if err = cpsutil.ReadWordWithForwardContext(c.doc, with.Window, func(w1, w2 string) error {
+		if err = cpsutil.ReadWordWithForwardDistance(c.doc, with.Window, func(w1, w2 string, distance int) error {
 			if c.toLower {
 				w1, w2 = strings.ToLower(w1), strings.ToLower(w2)
 			}
 
 			id1, _ := c.dic.ID(w1)
 			id2, _ := c.dic.ID(w2)
-			if err := c.cooc.Add(id1, id2); err != nil {
+			if err := c.cooc.AddAt(id1, id2, distance); err != nil {
 				return err
 			}
 			cursor++
diff --git a/pkg/corpus/memory/memory.go b/pkg/corpus/memory/memory.go
index 41c5f2e..eda1e37 100644
--- a/pkg/corpus/memory/memory.go
+++ b/pkg/corpus/memory/memory.go
@@ -118,7 +118,7 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 
 		for i := 0; i < len(c.idoc); i++ {
 			for j := i + 1; j < len(c.idoc) && j <= i+with.Window; j++ {
-				if err = c.cooc.Add(c.idoc[i], c.idoc[j]); err != nil {
+				if err = c.cooc.AddAt(c.idoc[i], c.idoc[j], j-i); err != nil {
 					return err
 				}
 				cursor++
-- 
2.43.0


From 8767483c87154aa8d0d90bf970a0d9dc58a9a60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 04/24] fix: report a corpus that cannot be rewound

The result of Seek was dropped, so training silently went on with whatever
was left to read, usually nothing.
---
 pkg/corpus/cpsutil/cpsutil.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index 365ee08..ed081a5 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -28,7 +28,9 @@ func scanner(r io.Reader) *bufio.Scanner {
 }
 
 func ReadWord(r io.ReadSeeker, fn func(string) error) error {
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, 0); err != nil {
+		return err
+	}
 	scanner := scanner(r)
 	for scanner.Scan() {
 		if err := fn(scanner.Text()); err != nil {
@@ -51,7 +53,9 @@ func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string)
 
 // ReadWordWithForwardDistance is ReadWordWithForwardContext which also passes the distance between the words.
 func ReadWordWithForwardDistance(r io.ReadSeeker, n int, fn func(string, string, int) error) error {
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, 0); err != nil {
+		return err
+	}
 	scanner := scanner(r)
 	// ws holds the axis word followed by (up to) n words of its forward context.
 	var (
-- 
2.43.0


From 14b1f3950d721c9a447508c50be180f32b5ea194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 05/24] fix: end training with an error when streaming the
 corpus fails

BatchWords left its channel open when reading failed and its error was
dropped, so training blocked forever.
---
 pkg/corpus/fs/fs.go            |  3 ++-
 pkg/model/lexvec/lexvec.go     | 10 ++++++++--
 pkg/model/word2vec/word2vec.go | 10 ++++++++--
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index 9a3166d..c8db8e8 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -56,6 +56,8 @@ func (c *Corpus) IndexedDoc() []int {
 }
 
 func (c *Corpus) BatchWords(ch chan []int, batchSize int) error {
+	defer close(ch)
+
 	cursor, ids := 0, make([]int, batchSize)
 	if err := cpsutil.ReadWord(c.doc, func(word string) error {
 		if c.toLower {
@@ -80,7 +82,6 @@ func (c *Corpus) BatchWords(ch chan []int, batchSize int) error {
 
 	// send left words
 	ch <- ids[:cursor]
-	close(ch)
 	return nil
 }
 
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 09004e7..85020d6 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -157,8 +157,10 @@ func (l *lexvec) batchTrain() error {
 		sem := semaphore.NewWeighted(int64(l.opts.Goroutines))
 		wg := &sync.WaitGroup{}
 
-		in := make(chan []int, l.opts.Goroutines)
-		go l.corpus.BatchWords(in, l.opts.BatchSize)
+		in, read := make(chan []int, l.opts.Goroutines), make(chan error, 1)
+		go func() {
+			read <- l.corpus.BatchWords(in, l.opts.BatchSize)
+		}()
 		for doc := range in {
 			wg.Add(1)
 			go l.trainPerThread(doc, items, trained, sem, wg)
@@ -166,6 +168,10 @@ func (l *lexvec) batchTrain() error {
 
 		wg.Wait()
 		close(trained)
+
+		if err := <-read; err != nil {
+			return err
+		}
 	}
 	return nil
 }
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index fa84d9c..2aab5b7 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -166,8 +166,10 @@ func (w *word2vec) batchTrain() error {
 		sem := semaphore.NewWeighted(int64(w.opts.Goroutines))
 		wg := &sync.WaitGroup{}
 
-		in := make(chan []int, w.opts.Goroutines)
-		go w.corpus.BatchWords(in, w.opts.BatchSize)
+		in, read := make(chan []int, w.opts.Goroutines), make(chan error, 1)
+		go func() {
+			read <- w.corpus.BatchWords(in, w.opts.BatchSize)
+		}()
 		for doc := range in {
 			wg.Add(1)
 			go w.trainPerThread(doc, trained, sem, wg)
@@ -175,6 +177,10 @@ func (w *word2vec) batchTrain() error {
 
 		wg.Wait()
 		close(trained)
+
+		if err := <-read; err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From f2b78a170d489173a01c57fc1f6095d3d633339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 06/24] fix: report write errors when saving word vectors

The results of writing and flushing were dropped, so saving to a full disk
returned nil.
---
 pkg/model/modelutil/vector/vector.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/model/modelutil/vector/vector.go b/pkg/model/modelutil/vector/vector.go
index ebc580d..327c34e 100644
--- a/pkg/model/modelutil/vector/vector.go
+++ b/pkg/model/modelutil/vector/vector.go
@@ -43,7 +43,6 @@ func Save(f io.Writer, dic *dictionary.Dictionary, mat *matrix.Matrix, verbose *
 		return fmt.Errorf("different for length of dic and row of matrix: %d, %d", dic.Len(), mat.Row())
 	}
 	writer := bufio.NewWriter(f)
-	defer writer.Flush()
 
 	var buf bytes.Buffer
 	clk := clock.New()
@@ -60,7 +59,12 @@ func Save(f io.Writer, dic *dictionary.Dictionary, mat *matrix.Matrix, verbose *
 			}
 		})
 	}
-	writer.WriteString(fmt.Sprintf("%v", buf.String()))
+	if _, err := writer.WriteString(fmt.Sprintf("%v", buf.String())); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 	verbose.Do(func() {
 		fmt.Printf("saved %d words %v\r\n", dic.Len(), clk.AllElapsed())
 	})
-- 
2.43.0


From c9f53db113eaf4b9fe219717fdb0ece4a05dcbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 07/24] fix: load word vectors whose line exceeds 64 KiB

Vectors of about 7000 dimensions and more were saved but could not be loaded.
---
 pkg/embedding/embedding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/embedding/embedding.go b/pkg/embedding/embedding.go
index 0752cc0..aca8b77 100644
--- a/pkg/embedding/embedding.go
+++ b/pkg/embedding/embedding.go
@@ -17,6 +17,7 @@ package embedding
 import (
 	"bufio"
 	"io"
+	"math"
 	"strconv"
 	"strings"
 
@@ -86,6 +87,8 @@ func Load(r io.Reader) (Embeddings, error) {
 
 func parse(r io.Reader, op func(Embedding) error) error {
 	s := bufio.NewScanner(r)
+	// a line grows with the dimension, do not limit it to the default token size.
+	s.Buffer(nil, math.MaxInt)
 	for s.Scan() {
 		line := s.Text()
 		if strings.HasPrefix(line, " ") {
-- 
2.43.0


From 2b97b260aa6ccd79c62970bca6240c814d107fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 08/24] fix: search returns no blank neighbours and accepts a
 non-positive k

With two or more missing neighbours all but one blank entry were returned;
k=0 and negative k panicked.
---
 pkg/search/search.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/search/search.go b/pkg/search/search.go
index ed5c89a..9015013 100644
--- a/pkg/search/search.go
+++ b/pkg/search/search.go
@@ -92,6 +92,9 @@ func (s *Searcher) SearchVector(query []float64, k int) (Neighbors, error) {
 }
 
 func (s *Searcher) Search(query embedding.Embedding, k int, ignoreWord ...string) (Neighbors, error) {
+	if k <= 0 {
+		return Neighbors{}, nil
+	}
 	neighbors := make(Neighbors, k)
 
 	// Map to quickly check if a word is to be ignored.
@@ -129,6 +132,7 @@ func (s *Searcher) Search(query embedding.Embedding, k int, ignoreWord ...string
 	for i := 0; i < len(neighbors); i++ {
 		if neighbors[i].Word == "" {
 			k = i
+			break
 		}
 	}
 
-- 
2.43.0


From a44ad8c7db9f0563f70997217f74e85c01118344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 09/24] fix: console reports an invalid right operand

The error was swallowed and the zero vector searched instead.
---
 pkg/search/console/console.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/search/console/console.go b/pkg/search/console/console.go
index 54fe785..bae4c2a 100644
--- a/pkg/search/console/console.go
+++ b/pkg/search/console/console.go
@@ -136,7 +136,7 @@ func (c *Console) evalBinaryExpr(expr *ast.BinaryExpr) error {
 	}
 	yi, err := c.evalAsEmbedding(expr.Y)
 	if err != nil {
-		return nil
+		return err
 	}
 	c.cursor.w1 = xi.Word
 	c.cursor.w2 = yi.Word
-- 
2.43.0


From 78ba59d976ee277555f321053d56189ca7ef9c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 10/24] fix: console ends at the end of input

It printed 'error:  EOF' forever.
---
 pkg/search/console/console.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/search/console/console.go b/pkg/search/console/console.go
index bae4c2a..45b749e 100644
--- a/pkg/search/console/console.go
+++ b/pkg/search/console/console.go
@@ -19,6 +19,7 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"io"
 
 	"github.com/peterh/liner"
 	"github.com/pkg/errors"
@@ -65,8 +66,10 @@ func (c *Console) Run() error {
 	defer c.Close()
 	for {
 		l, err := c.Prompt(">> ")
-		if err != nil {
-			fmt.Println("error: ", err)
+		if err == io.EOF {
+			return nil
+		} else if err != nil {
+			return err
 		}
 		switch l {
 		case "exit":
-- 
2.43.0


From e4514cc2bbad2220f4ee5df60b8ded429bc0c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 11/24] fix: search does not allocate room for more neighbours
 than there are words

A huge k made the program run out of memory.
---
 pkg/search/search.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/search/search.go b/pkg/search/search.go
index 9015013..5faf6e7 100644
--- a/pkg/search/search.go
+++ b/pkg/search/search.go
@@ -92,6 +92,9 @@ func (s *Searcher) SearchVector(query []float64, k int) (Neighbors, error) {
 }
 
 func (s *Searcher) Search(query embedding.Embedding, k int, ignoreWord ...string) (Neighbors, error) {
+	if k > len(s.Items) {
+		k = len(s.Items)
+	}
 	if k <= 0 {
 		return Neighbors{}, nil
 	}
-- 
2.43.0


From 7a64d5edf9fbf6d8a0f28ed97dc5e049aa717ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 12/24] fix: build the cached path of a tree node only once

Concurrent first lookups saw or appended to a half-built path, which then
stayed wrong for the rest of the training.
---
 pkg/corpus/dictionary/node/node.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/corpus/dictionary/node/node.go b/pkg/corpus/dictionary/node/node.go
index 506f48b..3b7bb4d 100644
--- a/pkg/corpus/dictionary/node/node.go
+++ b/pkg/corpus/dictionary/node/node.go
@@ -14,7 +14,12 @@
 
 package node
 
+import (
+	"sync"
+)
+
 type Node struct {
+	once   sync.Once
 	cache  []*Node
 	Parent *Node
 	Val    int
@@ -24,7 +29,7 @@ type Node struct {
 }
 
 func (n *Node) GetPath(depth int) []*Node {
-	if n.cache == nil {
+	n.once.Do(func() {
 		re := func(nodes []*Node) {
 			for i, j := 0, len(nodes)-1; i < j; i, j = i+1, j-1 {
 				nodes[i], nodes[j] = nodes[j], nodes[i]
@@ -35,7 +40,7 @@ func (n *Node) GetPath(depth int) []*Node {
 			n.cache = append(n.cache, p)
 		}
 		re(n.cache)
-	}
+	})
 	if depth > len(n.cache) {
 		depth = len(n.cache)
 	}
-- 
2.43.0


From aef0e3431d57b746899e6ee64ad469a9ba8b4485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 13/24] fix: max-depth=0 tracks the full path as documented

It gave an empty path, so hierarchical softmax trained nothing.
---
 pkg/corpus/dictionary/node/node.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/corpus/dictionary/node/node.go b/pkg/corpus/dictionary/node/node.go
index 3b7bb4d..52d6777 100644
--- a/pkg/corpus/dictionary/node/node.go
+++ b/pkg/corpus/dictionary/node/node.go
@@ -28,6 +28,7 @@ type Node struct {
 	Vector []float64
 }
 
+// GetPath returns the first depth nodes of the path from root to n, or the full path for depth=0.
 func (n *Node) GetPath(depth int) []*Node {
 	n.once.Do(func() {
 		re := func(nodes []*Node) {
@@ -41,7 +42,7 @@ func (n *Node) GetPath(depth int) []*Node {
 		}
 		re(n.cache)
 	})
-	if depth > len(n.cache) {
+	if depth <= 0 || depth > len(n.cache) {
 		depth = len(n.cache)
 	}
 	return n.cache[:depth]
-- 
2.43.0


From 8652ea24ae63a08250ee03954c6dc9a5b0b65d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 14/24] fix: never train below the minimum learning rate

The minimum was compared with the previous rate, so the rate dropped below
it (down to zero) before being raised, and then alternated.
---
 pkg/model/lexvec/lexvec.go     | 8 ++++----
 pkg/model/word2vec/word2vec.go | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 85020d6..c3acd64 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -242,11 +242,11 @@ func (l *lexvec) observe(trained chan struct{}, clk *clock.Clock) {
 	for range trained {
 		cnt++
 		if cnt%l.opts.UpdateLRBatch == 0 {
-			if l.currentlr < l.opts.MinLR {
-				l.currentlr = l.opts.MinLR
-			} else {
-				l.currentlr = l.opts.Initlr * (1.0 - float64(cnt)/float64(l.corpus.Len()))
+			lr := l.opts.Initlr * (1.0 - float64(cnt)/float64(l.corpus.Len()))
+			if lr < l.opts.MinLR {
+				lr = l.opts.MinLR
 			}
+			l.currentlr = lr
 		}
 		l.verbose.Do(func() {
 			if cnt%l.opts.LogBatch == 0 {
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index 2aab5b7..51e35b6 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -215,11 +215,11 @@ func (w *word2vec) observe(trained chan struct{}, clk *clock.Clock) {
 	for range trained {
 		cnt++
 		if cnt%w.opts.UpdateLRBatch == 0 {
-			if w.currentlr < w.opts.MinLR {
-				w.currentlr = w.opts.MinLR
-			} else {
-				w.currentlr = w.opts.Initlr * (1.0 - float64(cnt)/float64(w.corpus.Len()))
+			lr := w.opts.Initlr * (1.0 - float64(cnt)/float64(w.corpus.Len()))
+			if lr < w.opts.MinLR {
+				lr = w.opts.MinLR
 			}
+			w.currentlr = lr
 		}
 		w.verbose.Do(func() {
 			if cnt%w.opts.LogBatch == 0 {
-- 
2.43.0


From 3452e0bf662cb4e17dc3cf0489b3908cf503a796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 15/24] fix: start every training with the initial learning
 rate

Training a model a second time went on with the rate the first one ended with.
---
 pkg/model/lexvec/lexvec.go     | 4 ++--
 pkg/model/word2vec/word2vec.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index c3acd64..9de4341 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -64,13 +64,13 @@ func NewForOptions(opts Options) (model.Model, error) {
 	return &lexvec{
 		opts: opts,
 
-		currentlr: opts.Initlr,
-
 		verbose: v,
 	}, nil
 }
 
 func (l *lexvec) Train(r io.ReadSeeker) error {
+	l.currentlr = l.opts.Initlr
+
 	if l.opts.DocInMemory {
 		l.corpus = memory.New(r, l.opts.ToLower, l.opts.MaxCount, l.opts.MinCount)
 	} else {
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index 51e35b6..b590e47 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -65,13 +65,13 @@ func NewForOptions(opts Options) (model.Model, error) {
 	return &word2vec{
 		opts: opts,
 
-		currentlr: opts.Initlr,
-
 		verbose: v,
 	}, nil
 }
 
 func (w *word2vec) Train(r io.ReadSeeker) error {
+	w.currentlr = w.opts.Initlr
+
 	if w.opts.DocInMemory {
 		w.corpus = memory.New(r, w.opts.ToLower, w.opts.MaxCount, w.opts.MinCount)
 	} else {
-- 
2.43.0


From 3c2acf73c45dd80be847c47275706c42b2ff2f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 16/24] fix: wait for the progress observer at the end of each
 iteration

The observer of an iteration could still update the learning rate or report
progress after the next iteration had started or training had returned; its
last report was lost when the program ended.
---
 pkg/model/glove/glove.go       |  8 ++++++--
 pkg/model/lexvec/lexvec.go     | 16 ++++++++++++----
 pkg/model/word2vec/word2vec.go | 16 ++++++++++++----
 3 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index f3b0d18..ddbb72e 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -116,8 +116,11 @@ func (g *glove) train() error {
 	)
 
 	for i := 0; i < g.opts.Iter; i++ {
-		trained, clk := make(chan struct{}), clock.New()
-		go g.observe(trained, clk)
+		trained, observed, clk := make(chan struct{}), make(chan struct{}), clock.New()
+		go func() {
+			g.observe(trained, clk)
+			close(observed)
+		}()
 
 		sem := semaphore.NewWeighted(int64(g.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -130,6 +133,7 @@ func (g *glove) train() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 	}
 	return nil
 }
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 9de4341..66e51c3 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -126,8 +126,11 @@ func (l *lexvec) train() error {
 	)
 
 	for i := 1; i <= l.opts.Iter; i++ {
-		trained, clk := make(chan struct{}), clock.New()
-		go l.observe(trained, clk)
+		trained, observed, clk := make(chan struct{}), make(chan struct{}), clock.New()
+		go func() {
+			l.observe(trained, clk)
+			close(observed)
+		}()
 
 		sem := semaphore.NewWeighted(int64(l.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -140,6 +143,7 @@ func (l *lexvec) train() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 	}
 	return nil
 }
@@ -151,8 +155,11 @@ func (l *lexvec) batchTrain() error {
 	}
 
 	for i := 1; i <= l.opts.Iter; i++ {
-		trained, clk := make(chan struct{}), clock.New()
-		go l.observe(trained, clk)
+		trained, observed, clk := make(chan struct{}), make(chan struct{}), clock.New()
+		go func() {
+			l.observe(trained, clk)
+			close(observed)
+		}()
 
 		sem := semaphore.NewWeighted(int64(l.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -168,6 +175,7 @@ func (l *lexvec) batchTrain() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 
 		if err := <-read; err != nil {
 			return err
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index b590e47..f5c8c40 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -140,8 +140,11 @@ func (w *word2vec) train() error {
 	)
 
 	for i := 1; i <= w.opts.Iter; i++ {
-		trained, clk := make(chan struct{}), clock.New()
-		go w.observe(trained, clk)
+		trained, observed, clk := make(chan struct{}), make(chan struct{}), clock.New()
+		go func() {
+			w.observe(trained, clk)
+			close(observed)
+		}()
 
 		sem := semaphore.NewWeighted(int64(w.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -154,14 +157,18 @@ func (w *word2vec) train() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 	}
 	return nil
 }
 
 func (w *word2vec) batchTrain() error {
 	for i := 1; i <= w.opts.Iter; i++ {
-		trained, clk := make(chan struct{}), clock.New()
-		go w.observe(trained, clk)
+		trained, observed, clk := make(chan struct{}), make(chan struct{}), clock.New()
+		go func() {
+			w.observe(trained, clk)
+			close(observed)
+		}()
 
 		sem := semaphore.NewWeighted(int64(w.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -177,6 +184,7 @@ func (w *word2vec) batchTrain() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 
 		if err := <-read; err != nil {
 			return err
-- 
2.43.0


From 5268ae02954f4d5f7f771a61b9adc7e0fe118b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 17/24] fix: do not swap single and aggregated word vectors in
 GloVe and LexVec

As in word2vec, the aggregated vector is the sum of the word and its context
vector, and the single one the word vector alone.
---
 pkg/model/glove/glove.go   | 4 ++--
 pkg/model/lexvec/lexvec.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index ddbb72e..5378352 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -189,7 +189,7 @@ func (g *glove) WordVector(typ vector.Type) *matrix.Matrix {
 		mat = matrix.New(dic.Len(), g.opts.Dim,
 			func(row int, vec []float64) {
 				for i := 0; i < g.opts.Dim; i++ {
-					vec[i] = g.param.Slice(row)[i]
+					vec[i] = g.param.Slice(row)[i] + g.param.Slice(row + dic.Len())[i]
 				}
 			},
 		)
@@ -197,7 +197,7 @@ func (g *glove) WordVector(typ vector.Type) *matrix.Matrix {
 		mat = matrix.New(dic.Len(), g.opts.Dim,
 			func(row int, vec []float64) {
 				for i := 0; i < g.opts.Dim; i++ {
-					vec[i] = g.param.Slice(row)[i] + g.param.Slice(row + dic.Len())[i]
+					vec[i] = g.param.Slice(row)[i]
 				}
 			},
 		)
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 66e51c3..97f1a5b 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -278,7 +278,7 @@ func (l *lexvec) WordVector(typ vector.Type) *matrix.Matrix {
 		mat = matrix.New(dic.Len(), l.opts.Dim,
 			func(row int, vec []float64) {
 				for i := 0; i < l.opts.Dim; i++ {
-					vec[i] = l.param.Slice(row)[i]
+					vec[i] = l.param.Slice(row)[i] + l.param.Slice(row + dic.Len())[i]
 				}
 			},
 		)
@@ -287,7 +287,7 @@ func (l *lexvec) WordVector(typ vector.Type) *matrix.Matrix {
 		mat = matrix.New(dic.Len(), l.opts.Dim,
 			func(row int, vec []float64) {
 				for i := 0; i < l.opts.Dim; i++ {
-					vec[i] = l.param.Slice(row)[i] + l.param.Slice(row + dic.Len())[i]
+					vec[i] = l.param.Slice(row)[i]
 				}
 			},
 		)
-- 
2.43.0


From e00112f1f0ef68103516e8267f8dfc125916d0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 18/24] fix: CBOW updates the context words it has summed

The random window was drawn separately for summing and for updating, so
words outside the summed context were updated and words inside were not.
---
 pkg/model/word2vec/model.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/model/word2vec/model.go b/pkg/model/word2vec/model.go
index 818d9ef..1ea9ba7 100644
--- a/pkg/model/word2vec/model.go
+++ b/pkg/model/word2vec/model.go
@@ -117,19 +117,20 @@ func (mod *cbow) trainOne(
 	for i := 0; i < len(agg); i++ {
 		agg[i], tmp[i] = 0, 0
 	}
-	mod.dowith(doc, pos, param, agg, tmp, mod.aggregate)
+	del := modelutil.NextRandom(mod.window)
+	mod.dowith(doc, pos, del, param, agg, tmp, mod.aggregate)
 	optimizer.optim(doc[pos], lr, agg, tmp)
-	mod.dowith(doc, pos, param, agg, tmp, mod.update)
+	mod.dowith(doc, pos, del, param, agg, tmp, mod.update)
 }
 
 func (mod *cbow) dowith(
 	doc []int,
 	pos int,
+	del int,
 	param *matrix.Matrix,
 	agg, tmp []float64,
 	fn func(ctx, agg, tmp []float64),
 ) {
-	del := modelutil.NextRandom(mod.window)
 	for a := del; a < mod.window*2+1-del; a++ {
 		if a == mod.window {
 			continue
-- 
2.43.0


From afcec3953bdd45d6cd3900c2eb9f2c4d4f13d2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 19/24] fix: sigmoid table lookup of the largest value below
 max_exp

5.999999999999999 + 6 is rounded to 12, whose index is out of range.
---
 pkg/model/word2vec/sigmoid_table.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/model/word2vec/sigmoid_table.go b/pkg/model/word2vec/sigmoid_table.go
index 2727236..cb41aaf 100644
--- a/pkg/model/word2vec/sigmoid_table.go
+++ b/pkg/model/word2vec/sigmoid_table.go
@@ -41,5 +41,10 @@ func newSigmoidTable() *sigmoidTable {
 // sigmoid returns: f(x) = (x + max_exp) * (exp_table_size / max_exp / 2)
 // If you set x to over |max_exp|, it raises index out of range error.
 func (s *sigmoidTable) sigmoid(x float64) float64 {
-	return s.expTable[int((x+s.maxExp)*s.cache)]
+	i := int((x + s.maxExp) * s.cache)
+	if i == s.expTableSize {
+		// x is so close to max_exp that the sum has been rounded up to it.
+		i--
+	}
+	return s.expTable[i]
 }
-- 
2.43.0


From 9632c84d7346d58b86764563942b52a2ebd470aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 20/24] fix: refuse to save word vectors of an unknown type

Any unknown name was silently saved as one of the known types.
---
 pkg/model/glove/glove.go       | 3 +++
 pkg/model/lexvec/lexvec.go     | 3 +++
 pkg/model/word2vec/word2vec.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index 5378352..e806ddf 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -179,6 +179,9 @@ func (g *glove) observe(trained chan struct{}, clk *clock.Clock) {
 }
 
 func (g *glove) Save(f io.Writer, typ vector.Type) error {
+	if typ != vector.Single && typ != vector.Agg {
+		return vector.InvalidTypeError(typ)
+	}
 	return vector.Save(f, g.corpus.Dictionary(), g.WordVector(typ), g.verbose, g.opts.LogBatch)
 }
 
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 97f1a5b..777983f 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -268,6 +268,9 @@ func (l *lexvec) observe(trained chan struct{}, clk *clock.Clock) {
 }
 
 func (l *lexvec) Save(f io.Writer, typ vector.Type) error {
+	if typ != vector.Single && typ != vector.Agg {
+		return vector.InvalidTypeError(typ)
+	}
 	return vector.Save(f, l.corpus.Dictionary(), l.WordVector(typ), l.verbose, l.opts.LogBatch)
 }
 
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index f5c8c40..dfa8ac4 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -241,6 +241,9 @@ func (w *word2vec) observe(trained chan struct{}, clk *clock.Clock) {
 }
 
 func (w *word2vec) Save(f io.Writer, typ vector.Type) error {
+	if typ != vector.Single && typ != vector.Agg {
+		return vector.InvalidTypeError(typ)
+	}
 	return vector.Save(f, w.corpus.Dictionary(), w.WordVector(typ), w.verbose, w.opts.LogBatch)
 }
 
-- 
2.43.0


From 8db76304ae8041ef4c9686d12bc0b4d2e51869bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 21/24] fix: remove the output file of a failed training
 command

It was left behind empty, and the repeated command then refused to run
because the output 'is already existed'.
---
 cmd/model/glove/glove.go       | 10 +++++++++-
 cmd/model/lexvec/lexvec.go     | 10 +++++++++-
 cmd/model/word2vec/word2vec.go | 10 +++++++++-
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/cmd/model/glove/glove.go b/cmd/model/glove/glove.go
index fb73414..a5359a8 100644
--- a/cmd/model/glove/glove.go
+++ b/cmd/model/glove/glove.go
@@ -57,7 +57,7 @@ func fileExists(path string) bool {
 	return err == nil
 }
 
-func execute(opts glove.Options) error {
+func execute(opts glove.Options) (err error) {
 	if prof {
 		f, err := os.Create("cpu.prof")
 		if err != nil {
@@ -79,6 +79,14 @@ func execute(opts glove.Options) error {
 	if err != nil {
 		return err
 	}
+	defer func() {
+		if cerr := output.Close(); err == nil {
+			err = cerr
+		}
+		if err != nil {
+			os.Remove(outputFile)
+		}
+	}()
 	input, err := os.Open(inputFile)
 	if err != nil {
 		return err
diff --git a/cmd/model/lexvec/lexvec.go b/cmd/model/lexvec/lexvec.go
index 97f369c..a70891c 100644
--- a/cmd/model/lexvec/lexvec.go
+++ b/cmd/model/lexvec/lexvec.go
@@ -57,7 +57,7 @@ func fileExists(path string) bool {
 	return err == nil
 }
 
-func execute(opts lexvec.Options) error {
+func execute(opts lexvec.Options) (err error) {
 	if prof {
 		f, err := os.Create("cpu.prof")
 		if err != nil {
@@ -79,6 +79,14 @@ func execute(opts lexvec.Options) error {
 	if err != nil {
 		return err
 	}
+	defer func() {
+		if cerr := output.Close(); err == nil {
+			err = cerr
+		}
+		if err != nil {
+			os.Remove(outputFile)
+		}
+	}()
 	input, err := os.Open(inputFile)
 	if err != nil {
 		return err
diff --git a/cmd/model/word2vec/word2vec.go b/cmd/model/word2vec/word2vec.go
index d6c6ae6..0b5175f 100644
--- a/cmd/model/word2vec/word2vec.go
+++ b/cmd/model/word2vec/word2vec.go
@@ -57,7 +57,7 @@ func fileExists(path string) bool {
 	return err == nil
 }
 
-func execute(opts word2vec.Options) error {
+func execute(opts word2vec.Options) (err error) {
 	if prof {
 		f, err := os.Create("cpu.prof")
 		if err != nil {
@@ -79,6 +79,14 @@ func execute(opts word2vec.Options) error {
 	if err != nil {
 		return err
 	}
+	defer func() {
+		if cerr := output.Close(); err == nil {
+			err = cerr
+		}
+		if err != nil {
+			os.Remove(outputFile)
+		}
+	}()
 	input, err := os.Open(inputFile)
 	if err != nil {
 		return err
-- 
2.43.0


From 758592aea3ca3b52a4f904ceb9e26cc5103b3fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 22/24] fix: never truncate an output file that another command
 has just created

The existence check and the creation were separate steps.
---
 cmd/model/glove/glove.go       | 2 +-
 cmd/model/lexvec/lexvec.go     | 2 +-
 cmd/model/word2vec/word2vec.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/model/glove/glove.go b/cmd/model/glove/glove.go
index a5359a8..e67af1e 100644
--- a/cmd/model/glove/glove.go
+++ b/cmd/model/glove/glove.go
@@ -75,7 +75,7 @@ func execute(opts glove.Options) (err error) {
 	if err := os.MkdirAll(filepath.Dir(outputFile), 0777); err != nil {
 		return err
 	}
-	output, err := os.Create(outputFile)
+	output, err := os.OpenFile(outputFile, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
 	if err != nil {
 		return err
 	}
diff --git a/cmd/model/lexvec/lexvec.go b/cmd/model/lexvec/lexvec.go
index a70891c..47863a6 100644
--- a/cmd/model/lexvec/lexvec.go
+++ b/cmd/model/lexvec/lexvec.go
@@ -75,7 +75,7 @@ func execute(opts lexvec.Options) (err error) {
 	if err := os.MkdirAll(filepath.Dir(outputFile), 0777); err != nil {
 		return err
 	}
-	output, err := os.Create(outputFile)
+	output, err := os.OpenFile(outputFile, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
 	if err != nil {
 		return err
 	}
diff --git a/cmd/model/word2vec/word2vec.go b/cmd/model/word2vec/word2vec.go
index 0b5175f..b666ae9 100644
--- a/cmd/model/word2vec/word2vec.go
+++ b/cmd/model/word2vec/word2vec.go
@@ -75,7 +75,7 @@ func execute(opts word2vec.Options) (err error) {
 	if err := os.MkdirAll(filepath.Dir(outputFile), 0777); err != nil {
 		return err
 	}
-	output, err := os.Create(outputFile)
+	output, err := os.OpenFile(outputFile, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 4ee7a19c1c866d0e8fb2dd47bc93126944301e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 23/24] fix: a negative number is not in the vocabulary

---
 pkg/corpus/dictionary/dictionary.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/corpus/dictionary/dictionary.go b/pkg/corpus/dictionary/dictionary.go
index f91ad5a..a741ed8 100644
--- a/pkg/corpus/dictionary/dictionary.go
+++ b/pkg/corpus/dictionary/dictionary.go
@@ -54,14 +54,14 @@ func (d *Dictionary) WordFreq(word string) int {
 }
 
 func (d *Dictionary) Word(id int) (string, bool) {
-	if id >= d.maxid {
+	if id < 0 || id >= d.maxid {
 		return "", false
 	}
 	return d.id2word[id], true
 }
 
 func (d *Dictionary) IDFreq(id int) int {
-	if id >= d.maxid {
+	if id < 0 || id >= d.maxid {
 		return 0
 	}
 	return d.cfs[id]
-- 
2.43.0


From 94f3b86801aca29c181d794187457dd1856a7700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:16 +0000
Subject: [PATCH 24/24] fix: LexVec reports loading at the logging interval,
 not the training batch size

---
 pkg/model/lexvec/lexvec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 777983f..44f38ab 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -82,7 +82,7 @@ func (l *lexvec) Train(r io.ReadSeeker) error {
 			CountType: co.Increment,
 			Window:    l.opts.Window,
 		},
-		l.verbose, l.opts.BatchSize,
+		l.verbose, l.opts.LogBatch,
 	); err != nil {
 		return err
 	}
-- 
2.43.0


From 02559013490c7d20fa15cbe280e79191e32f2f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 01/22] fix: LRUCache.Get moved list elements under a read lock

Concurrent Gets corrupted the list of pages.
---
 cache/LRU.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cache/LRU.go b/cache/LRU.go
index 93b5b53..4ee4cba 100644
--- a/cache/LRU.go
+++ b/cache/LRU.go
@@ -26,8 +26,9 @@ func NewLRUCache[T any](capacity int) *LRUCache[T] {
 }
 
 func (l *LRUCache[T]) Get(key string) (*T, bool) {
-	l.RLock()
-	defer l.RUnlock()
+	//moving the page changes the list: a read lock is not enough
+	l.Lock()
+	defer l.Unlock()
 	if elem, ok := l.cache[key]; ok {
 		l.pages.MoveToFront(elem)
 		return &elem.Value.(*Page[T]).value, true
-- 
2.43.0


From a979ca7cc8a5e20f9f2429903a52ea792e39797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 02/22] fix: a later LRUCache.Put changed the value an earlier
 Get returned

---
 cache/LRU.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache/LRU.go b/cache/LRU.go
index 4ee4cba..2aaa106 100644
--- a/cache/LRU.go
+++ b/cache/LRU.go
@@ -31,7 +31,8 @@ func (l *LRUCache[T]) Get(key string) (*T, bool) {
 	defer l.Unlock()
 	if elem, ok := l.cache[key]; ok {
 		l.pages.MoveToFront(elem)
-		return &elem.Value.(*Page[T]).value, true
+		value := elem.Value.(*Page[T]).value
+		return &value, true
 	}
 	return nil, false
 }
-- 
2.43.0


From 49c5d346831f36a894d91e5e4d549907a62de864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 03/22] fix: LRUCache.Put panicked with a capacity of zero or
 less

---
 cache/LRU.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cache/LRU.go b/cache/LRU.go
index 2aaa106..748847a 100644
--- a/cache/LRU.go
+++ b/cache/LRU.go
@@ -46,6 +46,10 @@ func (l *LRUCache[T]) Put(key string, value T) {
 		return
 	}
 
+	if l.capacity <= 0 {
+		return
+	}
+
 	if l.pages.Len() >= l.capacity {
 		delete(l.cache, l.pages.Back().Value.(*Page[T]).key)
 		l.pages.Remove(l.pages.Back())
-- 
2.43.0


From 101a20154d1cafb8cd09090967dc82882a7115a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 04/22] fix: SyncMap never published a Put

Its writer was not started, so that Put blocked for ever once 1000 values were
waiting; and when started it let the old value of a key win over the new one.
---
 cache/Map.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/cache/Map.go b/cache/Map.go
index 1406c05..61296da 100644
--- a/cache/Map.go
+++ b/cache/Map.go
@@ -29,7 +29,7 @@ func NewSyncMap[T any]() *SyncMap[T] {
 		Ch:   make(chan TransferData[T], 1000),
 	}
 
-	//go i.writer()
+	go i.writer()
 	return i
 }
 
@@ -55,18 +55,19 @@ func (i *SyncMap[T]) writer() {
 
 			m.Lock()
 			bufferCopy := make(map[string]T, len(i.Data)+len(buffer))
-			for key, value := range buffer {
-				bufferCopy[key] = value
-			}
-			buffer = make(map[string]T)
-			m.Unlock()
-
 			i.RLock()
 			for key, value := range i.Data {
 				bufferCopy[key] = value
 			}
 			i.RUnlock()
 
+			//the new values replace the old ones
+			for key, value := range buffer {
+				bufferCopy[key] = value
+			}
+			buffer = make(map[string]T)
+			m.Unlock()
+
 			i.Lock()
 			i.Data = bufferCopy
 			i.Unlock()
-- 
2.43.0


From f0f4fae8a41bbbb2c9bb3dbd1bfe15830a27a870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 05/22] fix: repeating a search gave different rankings

Scores were summed in the order the parts of the query happened to finish, and
documents with equal scores came in the order of a map.
---
 search/Standard.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/search/Standard.go b/search/Standard.go
index 16fc904..06aaa1a 100644
--- a/search/Standard.go
+++ b/search/Standard.go
@@ -20,12 +20,17 @@ func NewStandard(index index.Index) Search {
 
 func (s *Standard) Search(query []model.Query) []model.DocumentScore {
 
-	scoresCh := make(chan []model.DocumentScore, len(query))
+	type queryScores struct {
+		position  int
+		documents []model.DocumentScore
+	}
+
+	scoresCh := make(chan queryScores, len(query))
 	var wg sync.WaitGroup
 	wg.Add(len(query))
 
-	for _, q := range query {
-		go func(terms []string, fieldName string, boost float64) {
+	for position, q := range query {
+		go func(position int, terms []string, fieldName string, boost float64) {
 			defer wg.Done()
 			r := s.Index.Search(terms, fieldName)
 			documentsScores := make([]model.DocumentScore, len(r.FieldDocuments))
@@ -38,8 +43,8 @@ func (s *Standard) Search(query []model.Query) []model.DocumentScore {
 
 				i += 1
 			}
-			scoresCh <- documentsScores
-		}(q.Terms, q.FieldName, q.Boost)
+			scoresCh <- queryScores{position, documentsScores}
+		}(position, q.Terms, q.FieldName, q.Boost)
 	}
 
 	go func() {
@@ -47,8 +52,14 @@ func (s *Standard) Search(query []model.Query) []model.DocumentScore {
 		close(scoresCh)
 	}()
 
+	//sum in the order of the query, whichever part finishes first: the order changes the last bits of a sum
+	scores := make([][]model.DocumentScore, len(query))
+	for s := range scoresCh {
+		scores[s.position] = s.documents
+	}
+
 	tempScores := make(map[string]float64)
-	for documentScores := range scoresCh {
+	for _, documentScores := range scores {
 		for _, document := range documentScores {
 			tempScores[document.Id] += document.Score
 		}
@@ -65,6 +76,9 @@ func (s *Standard) Search(query []model.Query) []model.DocumentScore {
 	}
 
 	sort.Slice(documentsScores, func(i, j int) bool {
+		if documentsScores[i].Score == documentsScores[j].Score {
+			return documentsScores[i].Id < documentsScores[j].Id
+		}
 		return documentsScores[i].Score > documentsScores[j].Score
 	})
 
-- 
2.43.0


From faed4ffb8b11aa499992835c4774291fa537cdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 06/22] fix: a search during indexing computed NaN or negative
 scores

The statistics it used could be older than the documents it found.
---
 index/InvertedIndex.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/index/InvertedIndex.go b/index/InvertedIndex.go
index cf4c37d..690304c 100644
--- a/index/InvertedIndex.go
+++ b/index/InvertedIndex.go
@@ -36,12 +36,7 @@ func (i *InvertedIndex) Search(terms []string, fieldName string) model.SearchRes
 
 	maxRoutines := runtime.NumCPU() * 2
 
-	fieldLength := float64(i.Storage.GetFieldLength(fieldName))
-	fieldSize := float64(i.Storage.GetFieldSize(fieldName))
-
-	result := model.SearchResult{
-		NumFieldsWithTerm: i.Storage.GetNumberFieldTerm(fieldName, terms),
-	}
+	result := model.SearchResult{}
 
 	documentIdCh := make(chan string, len(terms))
 	semaphoreCh := make(chan struct{}, maxRoutines)
@@ -113,6 +108,12 @@ func (i *InvertedIndex) Search(terms []string, fieldName string) model.SearchRes
 		}
 	}
 
+	//The statistics are read after the documents, in the reverse order in which a save updates them: whatever
+	//has been saved meanwhile, they account for every document found
+	result.NumFieldsWithTerm = i.Storage.GetNumberFieldTerm(fieldName, terms)
+	fieldLength := float64(i.Storage.GetFieldLength(fieldName))
+	fieldSize := float64(i.Storage.GetFieldSize(fieldName))
+
 	result.FieldDocuments = fieldDocuments
 	result.TotalDocuments = fieldSize
 	result.AvgDocLength = fieldLength / fieldSize
-- 
2.43.0


From 1e3d2d53e9f34f8bda3a3df547b6af5b8f27c2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 07/22] fix: GET /nir panicked when fewer than ten documents
 matched

---
 main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index aded6c2..db83652 100644
--- a/main.go
+++ b/main.go
@@ -202,12 +202,17 @@ func main() {
 			}
 		}
 
+		total := 10
+		if len(queryResults) < total {
+			total = len(queryResults)
+		}
+
 		body := Result{
 			Duration:       duration.String(),
-			Total:          10,
+			Total:          total,
 			Algorithm:      "BM25",
 			SemanticSearch: false,
-			QueryResults:   queryResults[0:10],
+			QueryResults:   queryResults[0:total],
 		}
 		c.JSON(http.StatusOK, body)
 	})
-- 
2.43.0


From 6c56108f0d92bd0676fb19037eef0af9c37fd666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 08/22] fix: concurrent GET /nir requests raced on the request
 counter

---
 main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index db83652..0c6f76c 100644
--- a/main.go
+++ b/main.go
@@ -17,6 +17,7 @@ import (
 	"github.com/sira-serverless-ir-arch/goirlib/testecolection"
 	"github.com/sira-serverless-ir-arch/goirlib/tokenizer"
 	"net/http"
+	"sync/atomic"
 	"time"
 )
 
@@ -46,7 +47,7 @@ func isNotDocumentComplete(doc Document) bool {
 	return false
 }
 
-var id = 0
+var id int64
 
 func maincc() {
 	lru := cache.NewSyncMap[float64]()
@@ -179,7 +180,7 @@ func main() {
 		})
 
 		duration := time.Since(start)
-		id += 1
+		atomic.AddInt64(&id, 1)
 		//fmt.Println("Qid:", id, len(rs))
 		if len(rs) == 0 {
 			body := Result{
-- 
2.43.0


From e57274f3ce99325e41fc0b5a64fa80bc6d5e451a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 09/22] fix: SecureSaveFile lost the file when the process or
 the machine stopped in it

Between its two renames there was no current file, a write error left the
content in two half states, and nothing was forced to stable storage, so that a
power loss could leave an empty file under the final name. Two stores on the
same folder wrote into each other's temporary file.
---
 file/File.go | 48 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/file/File.go b/file/File.go
index 131a7b8..370b835 100644
--- a/file/File.go
+++ b/file/File.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"compress/gzip"
 	"fmt"
+	"github.com/google/uuid"
 	"io"
 	"log"
 	"os"
@@ -132,35 +133,52 @@ func ListDirectories(path string) []string {
 	return directories
 }
 
+// SecureSaveFile replaces the file with the new content in one step: whenever the process or the machine stops,
+// either the previous or the new content is found. The name of the temporary file is not used twice, so that
+// neither two callers nor a leftover of a crash get in the way.
 func SecureSaveFile(path, fileName string, buff []byte) error {
 
 	currentPath := filepath.Join(path, fileName)
-	tempPath := filepath.Join(path, fileName+"_temp")
-	oldPath := filepath.Join(path, fileName+"_old")
+	tempPath := filepath.Join(path, uuid.New().String()+"_temp")
 
-	err := SaveFileOnDisk(tempPath, buff)
+	err := saveFileDurably(tempPath, buff)
 	if err != nil {
+		_ = Delete(tempPath)
 		return fmt.Errorf("failed to create temp file: %w", err)
 	}
 
-	if Exists(currentPath) {
-		err = RenameFile(currentPath, oldPath)
-		if err != nil {
-			return fmt.Errorf("failed to rename current file to old file: %w", err)
-		}
-	}
-
 	err = RenameFile(tempPath, currentPath)
 	if err != nil {
+		_ = Delete(tempPath)
 		return fmt.Errorf("failed to rename temp file to current file: %w", err)
 	}
 
-	if Exists(oldPath) {
-		err = Delete(oldPath)
-		if err != nil {
-			return fmt.Errorf("failed to delete old file: %w", err)
-		}
+	err = syncPath(filepath.Dir(currentPath))
+	if err != nil {
+		return fmt.Errorf("failed to sync the directory of the file: %w", err)
 	}
 
 	return nil
 }
+
+func saveFileDurably(path string, buf []byte) error {
+	err := SaveFileOnDisk(path, buf)
+	if err != nil {
+		return err
+	}
+	return syncPath(path)
+}
+
+// syncPath forces a file, or the entries of a directory, to stable storage
+func syncPath(path string) error {
+	f, err := os.Open(path)
+	if err != nil {
+		return err
+	}
+
+	err = f.Sync()
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	return err
+}
-- 
2.43.0


From 093c7a19214d57422d52c2680a044420c12e7a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 10/22] fix: directories of the store could vanish in a power
 loss

Their entries were not forced to stable storage, nor with them the files inside.
---
 file/File.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/file/File.go b/file/File.go
index 370b835..9aa2dca 100644
--- a/file/File.go
+++ b/file/File.go
@@ -73,10 +73,23 @@ func ReadFileOnDisk(path string) ([]byte, error) {
 }
 
 func CreteDirIfNotExist(dirName string) {
+	//the directories that get a new entry
+	var parents []string
+	for dir := filepath.Clean(dirName); !Exists(dir); dir = filepath.Dir(dir) {
+		parents = append(parents, filepath.Dir(dir))
+	}
+
 	err := os.MkdirAll(dirName, 0755)
 	if err != nil {
 		log.Fatalf("Failed to create directory: %v", err)
 	}
+
+	for _, parent := range parents {
+		err = syncPath(parent)
+		if err != nil {
+			log.Fatalf("Failed to sync directory: %v", err)
+		}
+	}
 }
 
 func RenameFile(currentPath, newPath string) error {
-- 
2.43.0


From 5109754dfef515b1045312148a2f4012f9a25e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 11/22] fix: index fragments were written in place

A merge or a crash in the middle of the write met an incomplete file: the merge
or the next opening of the folder panicked and the fragment was lost.
---
 storage/DiskIO.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index ab565ca..453af53 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -355,10 +355,9 @@ func (d *DiskIO) SaveIndexOnDisk(indexCh chan IndexTransferData) {
 				path := filepath.Join(d.RootFolder, fieldName, file.Temp)
 				file.CreteDirIfNotExist(path)
 
-				tempFile := uuid.New().String()
-				path = filepath.Join(path, tempFile)
-				err := file.SaveFileOnDisk(path, file.CompressData(buffer))
-				//err := file.SecureSaveFile(path, tempFile, file.CompressData(buffer))
+				//the merger must not see the file before it is complete
+				tempFile := filepath.Join(file.Temp, uuid.New().String())
+				err := file.SecureSaveFile(filepath.Join(d.RootFolder, fieldName), tempFile, file.CompressData(buffer))
 				if err != nil {
 					log.Fatalf(err.Error())
 				}
-- 
2.43.0


From b6e59540d0560f7fba8e4a446e1430c31b0d62f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 12/22] fix: a flush of document frequencies dropped those of
 all other terms

The file was replaced by the terms changed since the last flush.
---
 storage/DiskIO.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 453af53..9fb066a 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -24,19 +24,27 @@ func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
 	fields := file.ListDirectories(d.RootFolder)
 	numberFieldTerm := make(map[string]map[string]int)
 	for _, field := range fields {
-		path := filepath.Join(d.RootFolder, field, file.NumberFieldTerm)
-		if !file.Exists(path) {
-			continue
-		}
-		buf, err := file.ReadFileOnDisk(path)
+		termSize, err := d.loadNumberFieldTerm(field)
 		if err != nil {
 			return nil, err
 		}
-		numberFieldTerm[field] = DeserializeNumberFieldTerm(file.DecompressData(buf))
+		numberFieldTerm[field] = termSize
 	}
 	return numberFieldTerm, nil
 }
 
+func (d *DiskIO) loadNumberFieldTerm(field string) (map[string]int, error) {
+	path := filepath.Join(d.RootFolder, field, file.NumberFieldTerm)
+	if !file.Exists(path) {
+		return make(map[string]int), nil
+	}
+	buf, err := file.ReadFileOnDisk(path)
+	if err != nil {
+		return nil, err
+	}
+	return DeserializeNumberFieldTerm(file.DecompressData(buf)), nil
+}
+
 func (d *DiskIO) LoadFieldSizeLengthOnHD() (map[string]int, map[string]int, error) {
 	fields := file.ListDirectories(d.RootFolder)
 	fieldSize := make(map[string]int)
@@ -249,8 +257,17 @@ func (d *DiskIO) SaveNumberFieldTermOnDisk(data chan NumberFieldTermTransferData
 				path := filepath.Join(d.RootFolder, fieldName)
 				file.CreteDirIfNotExist(path)
 
-				buf := SerializeNumberFieldTerm(termSize)
-				err := file.SecureSaveFile(path, file.NumberFieldTerm, file.CompressData(buf))
+				//the file holds every term of the field, the buffer only those changed since the last time
+				allTermSize, err := d.loadNumberFieldTerm(fieldName)
+				if err != nil {
+					log.Fatalf(err.Error())
+				}
+				for term, size := range termSize {
+					allTermSize[term] = size
+				}
+
+				buf := SerializeNumberFieldTerm(allTermSize)
+				err = file.SecureSaveFile(path, file.NumberFieldTerm, file.CompressData(buf))
 				if err != nil {
 					log.Fatalf(err.Error())
 				}
-- 
2.43.0


From a3da517297a8f2145a17b4e91527cef6b27644d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 13/22] fix: one failed merge stopped merging for the life of
 the process

---
 storage/DiskStorage.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index ce8fdc1..97459b0 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/sira-serverless-ir-arch/goirlib/cache"
 	"github.com/sira-serverless-ir-arch/goirlib/model"
+	"log"
 	"sync"
 	"time"
 )
@@ -77,7 +78,9 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 			time.Sleep(15 * time.Second)
 			_, err := diskIO.LoadIndexOnHD()
 			if err != nil {
-				return
+				//the fragments are still there: the next merge takes them
+				log.Printf("Failed to merge documents: %v", err)
+				continue
 			}
 			fmt.Println("Merge documents")
 		}
-- 
2.43.0


From 78d49ad43d868e011307cc66adcfd69676979349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 14/22] fix: merges of two stores on the same folder lost
 postings

Opening a folder again while the merger of the earlier store runs.
---
 storage/DiskIO.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 9fb066a..616ecbc 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -97,7 +97,14 @@ func LoadTermDocumentsFromIndex(field string, rootFolder string) (map[string]*mo
 	return termDocuments, nil
 }
 
+// Two merges at once, of an earlier and a newer store on the same folder, would overwrite each other's index
+// after the fragments have been deleted
+var mergeMu sync.Mutex
+
 func (d *DiskIO) LoadIndexOnHD() (map[string]map[string]*model.Set, error) {
+	mergeMu.Lock()
+	defer mergeMu.Unlock()
+
 	fields := file.ListDirectories(d.RootFolder)
 	index := make(map[string]map[string]*model.Set)
 
-- 
2.43.0


From 006e60dc19de99c98dfebc44e49629d16a5853e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:09 +0000
Subject: [PATCH 15/22] fix: fields of a document were lost and stale ones read

A document that was not in the cache when a field was saved was replaced by that
one field. One evicted from the cache before it was written was read back from
the disk as it had been before. The writer read the map of fields while the next
save changed it. Fields that wait to be written are now kept apart, added to what
the file holds, and seen by reads.
---
 storage/DiskIO.go      | 115 ++++++++++++++++++++++++++++++-----------
 storage/DiskStorage.go |  61 +++++++++++++---------
 2 files changed, 121 insertions(+), 55 deletions(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 616ecbc..d077e32 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -12,12 +12,19 @@ import (
 )
 
 type DiskIO struct {
-	RootFolder string
+	RootFolder     string
+	documentFields *BufferFieldDocument
 }
 
 func NewDiskIO(rootFolder string) DiskIO {
 	file.CreteDirIfNotExist(rootFolder)
-	return DiskIO{rootFolder}
+	return DiskIO{
+		RootFolder: rootFolder,
+		documentFields: &BufferFieldDocument{
+			data:    make(map[string]map[string]model.Field),
+			writing: make(map[string]map[string]model.Field),
+		},
+	}
 }
 
 func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
@@ -67,13 +74,30 @@ func (d *DiskIO) LoadFieldSizeLengthOnHD() (map[string]int, map[string]int, erro
 	return fieldSize, fieldLength, nil
 }
 
+// LoadFieldDocumentOnHD returns the saved fields of a document, those that wait to be written included
 func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Field, bool) {
+	//first what waits: it may be in the file by the time that is read, but not in neither
+	waiting := d.documentFields.get(documentId)
+	fieldMap, err := d.readFieldDocument(documentId)
+	if err != nil {
+		return nil, false
+	}
+	for name, field := range waiting {
+		fieldMap[name] = field
+	}
+	return fieldMap, len(fieldMap) > 0
+}
+
+func (d *DiskIO) readFieldDocument(documentId string) (map[string]model.Field, error) {
 	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, documentId)
+	if !file.Exists(path) {
+		return make(map[string]model.Field), nil
+	}
 	buf, err := file.ReadFileOnDisk(path)
 	if err != nil {
-		return nil, false
+		return nil, err
 	}
-	return DeserializeFieldMap(file.DecompressData(buf)), true
+	return DeserializeFieldMap(file.DecompressData(buf)), nil
 }
 
 func LoadTermDocumentsFromIndex(field string, rootFolder string) (map[string]*model.Set, error) {
@@ -180,14 +204,25 @@ type NumberFieldTermTransferData struct {
 	//TermSize  map[string]int
 }
 
-type DocumentFieldTransferData struct {
-	DocumentId string
-	Field      map[string]model.Field
-}
-
+// BufferFieldDocument holds the fields of documents that are not on the disk yet
 type BufferFieldDocument struct {
 	sync.Mutex
-	data map[string]map[string]model.Field
+	data    map[string]map[string]model.Field
+	writing map[string]map[string]model.Field //taken out of data, being written
+}
+
+func (b *BufferFieldDocument) get(documentId string) map[string]model.Field {
+	b.Lock()
+	defer b.Unlock()
+
+	fields := make(map[string]model.Field)
+	for name, field := range b.writing[documentId] {
+		fields[name] = field
+	}
+	for name, field := range b.data[documentId] {
+		fields[name] = field
+	}
+	return fields
 }
 
 type bufferNumberFieldTerm struct {
@@ -201,36 +236,54 @@ type bufferFieldLengthSize struct {
 	Size   map[string]int
 }
 
-func (d *DiskIO) SaveDocumentFieldOnDisk(data chan DocumentFieldTransferData) {
+// BufferDocumentField notes a field of a document for the next write
+func (d *DiskIO) BufferDocumentField(documentId string, field model.Field) {
+	d.documentFields.Lock()
+	defer d.documentFields.Unlock()
 
-	localBuffer := BufferFieldDocument{
-		data: make(map[string]map[string]model.Field),
+	fields, ok := d.documentFields.data[documentId]
+	if !ok {
+		fields = make(map[string]model.Field)
+		d.documentFields.data[documentId] = fields
 	}
+	fields[field.Name] = field
+}
+
+func (d *DiskIO) SaveDocumentFieldOnDisk() {
+
+	localBuffer := d.documentFields
 
 	ticker := time.NewTicker(10 * time.Second)
 	defer ticker.Stop()
 
-	for {
-		select {
-		case fieldDocument := <-data:
-			localBuffer.Lock()
-			localBuffer.data[fieldDocument.DocumentId] = fieldDocument.Field
-			localBuffer.Unlock()
-		case <-ticker.C:
-			localBuffer.Lock()
-			for documentId, fieldMap := range localBuffer.data {
-				path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics)
-				file.CreteDirIfNotExist(path)
+	for range ticker.C {
+		localBuffer.Lock()
+		localBuffer.writing, localBuffer.data = localBuffer.data, make(map[string]map[string]model.Field)
+		localBuffer.Unlock()
 
-				buf := SerializeFieldMap(fieldMap)
-				err := file.SecureSaveFile(path, documentId, file.CompressData(buf))
-				if err != nil {
-					log.Fatalf(err.Error())
-				}
-				delete(localBuffer.data, documentId)
+		for documentId, newFields := range localBuffer.writing {
+			path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics)
+			file.CreteDirIfNotExist(path)
+
+			//the fields saved earlier stay
+			fieldMap, err := d.readFieldDocument(documentId)
+			if err != nil {
+				log.Fatalf(err.Error())
+			}
+			for name, field := range newFields {
+				fieldMap[name] = field
+			}
+
+			buf := SerializeFieldMap(fieldMap)
+			err = file.SecureSaveFile(path, documentId, file.CompressData(buf))
+			if err != nil {
+				log.Fatalf(err.Error())
 			}
-			localBuffer.Unlock()
 		}
+
+		localBuffer.Lock()
+		localBuffer.writing = make(map[string]map[string]model.Field)
+		localBuffer.Unlock()
 	}
 }
 
diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index 97459b0..54db255 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -13,13 +13,13 @@ type Disk struct {
 	indexCh            chan IndexTransferData
 	fieldCh            chan FieldSizeLengthTransferData
 	numberFieldTermCh  chan NumberFieldTermTransferData
-	documentFieldCh    chan DocumentFieldTransferData
 	index              map[string]map[string]*model.Set
 	fieldLength        map[string]int
 	fieldSize          map[string]int
 	numberFieldTerm    map[string]map[string]int
 	fieldDocumentCache *cache.LRUCache[map[string]model.Field] //*cache.RCU[map[string]model.Field]
 	diskIO             DiskIO
+	documentMu         sync.Mutex //held while a document is saved or brought into the cache
 	mu                 sync.RWMutex
 }
 
@@ -28,7 +28,6 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 	indexCh := make(chan IndexTransferData, 100)
 	fieldCh := make(chan FieldSizeLengthTransferData)
 	numberFieldTermCh := make(chan NumberFieldTermTransferData)
-	documentFieldCh := make(chan DocumentFieldTransferData)
 
 	diskIO := NewDiskIO(rootFolder)
 
@@ -58,7 +57,6 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 		indexCh:            indexCh,
 		fieldCh:            fieldCh,
 		numberFieldTermCh:  numberFieldTermCh,
-		documentFieldCh:    documentFieldCh,
 		index:              index,
 		fieldLength:        fieldLength,
 		fieldSize:          fieldSize,
@@ -70,7 +68,7 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 	go diskIO.SaveFieldSizeLengthOnDisc(fieldCh)
 	go diskIO.SaveIndexOnDisk(indexCh)
 	go diskIO.SaveNumberFieldTermOnDisk(numberFieldTermCh)
-	go diskIO.SaveDocumentFieldOnDisk(documentFieldCh)
+	go diskIO.SaveDocumentFieldOnDisk()
 
 	go func() {
 		//merge index fragments to index
@@ -122,18 +120,16 @@ func (d *Disk) GetFields(documentId []string, fieldName string) map[string]model
 
 	fields := make(map[string]model.Field)
 	for _, id := range documentId {
-		if fieldDocumentPtr, ok := d.fieldDocumentCache.Get(id); ok {
-			fieldDocument := *fieldDocumentPtr
-			if field, ok := fieldDocument[fieldName]; ok {
+		fieldDocumentPtr, ok := d.fieldDocumentCache.Get(id)
+		if !ok {
+			d.documentMu.Lock()
+			fieldDocumentPtr, ok = d.loadFieldDocument(id)
+			d.documentMu.Unlock()
+		}
+		if ok {
+			if field, ok := (*fieldDocumentPtr)[fieldName]; ok {
 				fields[id] = field
 			}
-		} else {
-			if fieldDocument, ok := d.diskIO.LoadFieldDocumentOnHD(id); ok {
-				if field, ok := fieldDocument[fieldName]; ok {
-					fields[id] = field
-				}
-				d.fieldDocumentCache.Put(id, fieldDocument)
-			}
 		}
 	}
 
@@ -141,6 +137,21 @@ func (d *Disk) GetFields(documentId []string, fieldName string) map[string]model
 
 }
 
+// loadFieldDocument returns the document from the cache, into which it brings it if necessary. The maps in the
+// cache are complete and do not change. The caller holds documentMu.
+func (d *Disk) loadFieldDocument(documentId string) (*map[string]model.Field, bool) {
+	if fieldDocumentPtr, ok := d.fieldDocumentCache.Get(documentId); ok {
+		return fieldDocumentPtr, true
+	}
+
+	fieldDocument, ok := d.diskIO.LoadFieldDocumentOnHD(documentId)
+	if !ok {
+		return nil, false
+	}
+	d.fieldDocumentCache.Put(documentId, fieldDocument)
+	return &fieldDocument, true
+}
+
 func (d *Disk) UpdateFieldSizeLength(field model.Field) {
 	d.fieldSize[field.Name] += 1
 	d.fieldLength[field.Name] += field.Length
@@ -173,22 +184,24 @@ func (d *Disk) UpdateNumberFieldTerm(field model.Field) {
 
 func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
 
-	var fieldIndex map[string]model.Field
+	d.documentMu.Lock()
+	defer d.documentMu.Unlock()
+
+	d.diskIO.BufferDocumentField(documentId, field)
 
-	if fieldIndexPtr, ok := d.fieldDocumentCache.Get(documentId); ok {
-		fieldIndex = *fieldIndexPtr
-	} else {
-		fieldIndex = make(map[string]model.Field)
+	//Without a document in the cache the next GetFields loads all of it
+	fieldIndexPtr, ok := d.loadFieldDocument(documentId)
+	if !ok {
+		return
 	}
 
+	fieldIndex := make(map[string]model.Field, len(*fieldIndexPtr)+1)
+	for name, other := range *fieldIndexPtr {
+		fieldIndex[name] = other
+	}
 	fieldIndex[field.Name] = field
 	d.fieldDocumentCache.Put(documentId, fieldIndex)
 
-	d.documentFieldCh <- DocumentFieldTransferData{
-		DocumentId: documentId,
-		Field:      fieldIndex,
-	}
-
 }
 
 func (d *Disk) UpdateIndex(documentId string, field model.Field) {
-- 
2.43.0


From 7050b571b64aeda01be8d8184d68a739ecf48c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 16/22] fix: Disk was not safe for concurrent use

Its maps were read and written without the lock it has, the sets it returned
were changed by later saves, and the savers could receive an older count after a
newer one. A search and an indexing request at the same time, or two of them,
crashed the process.
---
 storage/DiskStorage.go | 85 ++++++++++++++++++++++++++++++++----------
 1 file changed, 65 insertions(+), 20 deletions(-)

diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index 54db255..0801646 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -20,6 +20,7 @@ type Disk struct {
 	fieldDocumentCache *cache.LRUCache[map[string]model.Field] //*cache.RCU[map[string]model.Field]
 	diskIO             DiskIO
 	documentMu         sync.Mutex //held while a document is saved or brought into the cache
+	saveMu             sync.Mutex //held while a save changes the maps and passes the new values on, so that they arrive in order
 	mu                 sync.RWMutex
 }
 
@@ -88,6 +89,9 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 }
 
 func (d *Disk) GetNumberFieldTerm(fieldName string, terms []string) map[string]int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+
 	temp := make(map[string]int)
 	for _, term := range terms {
 		temp[term] = d.numberFieldTerm[fieldName][term]
@@ -96,21 +100,49 @@ func (d *Disk) GetNumberFieldTerm(fieldName string, terms []string) map[string]i
 }
 
 func (d *Disk) GetFieldLength(fieldName string) int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	return d.fieldLength[fieldName]
 }
 
 func (d *Disk) GetFieldSize(fieldName string) int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	return d.fieldSize[fieldName]
 }
 
 func (d *Disk) GetIndex(fieldName string) map[string]*model.Set {
-	return d.index[fieldName]
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+
+	indexField, ok := d.index[fieldName]
+	if !ok {
+		return nil
+	}
+
+	temp := make(map[string]*model.Set, len(indexField))
+	for term, set := range indexField {
+		temp[term] = copySet(set)
+	}
+	return temp
+}
+
+// copySet gives the caller a set that later saves do not change
+func copySet(set *model.Set) *model.Set {
+	temp := model.NewSet()
+	for element := range set.GetData() {
+		temp.Add(element)
+	}
+	return temp
 }
 
 func (d *Disk) GetDocuments(fieldName string, term string) (model.Set, bool) {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+
 	if indexField, ok := d.index[fieldName]; ok {
 		if set, ok := indexField[term]; ok {
-			return *set, true
+			return *copySet(set), true
 		}
 	}
 	return model.Set{}, false
@@ -153,32 +185,47 @@ func (d *Disk) loadFieldDocument(documentId string) (*map[string]model.Field, bo
 }
 
 func (d *Disk) UpdateFieldSizeLength(field model.Field) {
+	d.saveMu.Lock()
+	defer d.saveMu.Unlock()
+
+	d.mu.Lock()
 	d.fieldSize[field.Name] += 1
 	d.fieldLength[field.Name] += field.Length
-
-	d.fieldCh <- FieldSizeLengthTransferData{
+	fieldSizeLength := FieldSizeLengthTransferData{
 		FieldName: field.Name,
 		Length:    d.fieldLength[field.Name],
 		Size:      d.fieldSize[field.Name],
 	}
+	d.mu.Unlock()
+
+	d.fieldCh <- fieldSizeLength
 }
 
 func (d *Disk) UpdateNumberFieldTerm(field model.Field) {
+	d.saveMu.Lock()
+	defer d.saveMu.Unlock()
+
+	d.mu.Lock()
 	fieldTerm := d.numberFieldTerm[field.Name]
 	if fieldTerm == nil {
 		fieldTerm = make(map[string]int)
+		d.numberFieldTerm[field.Name] = fieldTerm
 	}
 
+	var numberFieldTerms []NumberFieldTermTransferData
 	for term := range field.TF {
 		fieldTerm[term] += 1
-		d.numberFieldTermCh <- NumberFieldTermTransferData{
+		numberFieldTerms = append(numberFieldTerms, NumberFieldTermTransferData{
 			FieldName: field.Name,
 			Term:      term,
 			Size:      fieldTerm[term],
-		}
+		})
 	}
+	d.mu.Unlock()
 
-	d.numberFieldTerm[field.Name] = fieldTerm
+	for _, numberFieldTerm := range numberFieldTerms {
+		d.numberFieldTermCh <- numberFieldTerm
+	}
 
 }
 
@@ -206,6 +253,7 @@ func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
 
 func (d *Disk) UpdateIndex(documentId string, field model.Field) {
 
+	d.mu.Lock()
 	indexField := d.index[field.Name]
 	if indexField == nil {
 		indexField = make(map[string]*model.Set)
@@ -216,20 +264,17 @@ func (d *Disk) UpdateIndex(documentId string, field model.Field) {
 		set := indexField[term]
 		if set == nil {
 			set = model.NewSet()
-			set.Add(documentId)
 			indexField[term] = set
-			d.indexCh <- IndexTransferData{
-				FieldName:  field.Name,
-				Term:       term,
-				DocumentId: documentId,
-			}
-		} else {
-			set.Add(documentId)
-			d.indexCh <- IndexTransferData{
-				FieldName:  field.Name,
-				Term:       term,
-				DocumentId: documentId,
-			}
+		}
+		set.Add(documentId)
+	}
+	d.mu.Unlock()
+
+	for term := range field.TF {
+		d.indexCh <- IndexTransferData{
+			FieldName:  field.Name,
+			Term:       term,
+			DocumentId: documentId,
 		}
 	}
 
-- 
2.43.0


From a3aadd5fce0b94f8596f45a9581285ff86ea3cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 17/22] fix: document ids and field names were used as paths

An id with a path separator stopped the process at the next write or wrote
outside the folder, and a field called "docs" was not loaded again.
---
 file/File.go      | 44 ++++++++++++++++++++++++++++++++++++++++++++
 storage/DiskIO.go | 37 +++++++++++++++++++++++--------------
 2 files changed, 67 insertions(+), 14 deletions(-)

diff --git a/file/File.go b/file/File.go
index 9aa2dca..0cbc803 100644
--- a/file/File.go
+++ b/file/File.go
@@ -7,8 +7,10 @@ import (
 	"github.com/google/uuid"
 	"io"
 	"log"
+	"net/url"
 	"os"
 	"path/filepath"
+	"strings"
 )
 
 const (
@@ -21,6 +23,48 @@ const (
 	DocumentsRaw     = "raw"
 )
 
+// PathName returns the name of the file or directory for a field name or document id, which may contain anything.
+// Names that cannot do harm are unchanged.
+func PathName(name string) string {
+	switch name {
+	case "": //a lone % stands for nothing else
+		return "%"
+	case ".", "..":
+		return fmt.Sprintf("%%%02X", name[0]) + name[1:]
+	}
+
+	var b strings.Builder
+	for i := 0; i < len(name); i++ {
+		switch c := name[i]; c {
+		case '%', '/', '\\', 0:
+			fmt.Fprintf(&b, "%%%02X", c)
+		default:
+			b.WriteByte(c)
+		}
+	}
+	return b.String()
+}
+
+// FieldPathName returns the name of the directory of a field. It is never the directory of the documents.
+func FieldPathName(fieldName string) string {
+	if fieldName == Documents {
+		return fmt.Sprintf("%%%02X", fieldName[0]) + fieldName[1:]
+	}
+	return PathName(fieldName)
+}
+
+// NameOfPath is the inverse of PathName and FieldPathName
+func NameOfPath(pathName string) string {
+	if pathName == "%" {
+		return ""
+	}
+	name, err := url.PathUnescape(pathName)
+	if err != nil {
+		return pathName
+	}
+	return name
+}
+
 func CompressData(buf []byte) []byte {
 	var b bytes.Buffer
 	gz := gzip.NewWriter(&b)
diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index d077e32..8e15ac3 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -27,8 +27,17 @@ func NewDiskIO(rootFolder string) DiskIO {
 	}
 }
 
+// listFields returns the names of the fields that have a directory
+func (d *DiskIO) listFields() []string {
+	var fields []string
+	for _, directory := range file.ListDirectories(d.RootFolder) {
+		fields = append(fields, file.NameOfPath(directory))
+	}
+	return fields
+}
+
 func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
-	fields := file.ListDirectories(d.RootFolder)
+	fields := d.listFields()
 	numberFieldTerm := make(map[string]map[string]int)
 	for _, field := range fields {
 		termSize, err := d.loadNumberFieldTerm(field)
@@ -41,7 +50,7 @@ func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
 }
 
 func (d *DiskIO) loadNumberFieldTerm(field string) (map[string]int, error) {
-	path := filepath.Join(d.RootFolder, field, file.NumberFieldTerm)
+	path := filepath.Join(d.RootFolder, file.FieldPathName(field), file.NumberFieldTerm)
 	if !file.Exists(path) {
 		return make(map[string]int), nil
 	}
@@ -53,11 +62,11 @@ func (d *DiskIO) loadNumberFieldTerm(field string) (map[string]int, error) {
 }
 
 func (d *DiskIO) LoadFieldSizeLengthOnHD() (map[string]int, map[string]int, error) {
-	fields := file.ListDirectories(d.RootFolder)
+	fields := d.listFields()
 	fieldSize := make(map[string]int)
 	fieldLength := make(map[string]int)
 	for _, field := range fields {
-		path := filepath.Join(d.RootFolder, field, file.MetricsFile)
+		path := filepath.Join(d.RootFolder, file.FieldPathName(field), file.MetricsFile)
 		if !file.Exists(path) {
 			continue
 		}
@@ -89,7 +98,7 @@ func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Fiel
 }
 
 func (d *DiskIO) readFieldDocument(documentId string) (map[string]model.Field, error) {
-	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, documentId)
+	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, file.PathName(documentId))
 	if !file.Exists(path) {
 		return make(map[string]model.Field), nil
 	}
@@ -102,7 +111,7 @@ func (d *DiskIO) readFieldDocument(documentId string) (map[string]model.Field, e
 
 func LoadTermDocumentsFromIndex(field string, rootFolder string) (map[string]*model.Set, error) {
 	termDocuments := make(map[string]*model.Set)
-	path := filepath.Join(rootFolder, field, file.IndexFile)
+	path := filepath.Join(rootFolder, file.FieldPathName(field), file.IndexFile)
 	if !file.Exists(path) {
 		return termDocuments, nil
 	}
@@ -129,11 +138,11 @@ func (d *DiskIO) LoadIndexOnHD() (map[string]map[string]*model.Set, error) {
 	mergeMu.Lock()
 	defer mergeMu.Unlock()
 
-	fields := file.ListDirectories(d.RootFolder)
+	fields := d.listFields()
 	index := make(map[string]map[string]*model.Set)
 
 	for _, field := range fields {
-		path := filepath.Join(d.RootFolder, field, file.Temp)
+		path := filepath.Join(d.RootFolder, file.FieldPathName(field), file.Temp)
 		file.CreteDirIfNotExist(path)
 		files := file.ListFiles(path)
 
@@ -169,7 +178,7 @@ func (d *DiskIO) LoadIndexOnHD() (map[string]map[string]*model.Set, error) {
 		}
 
 		buffer := SerializeIndex(tempTermDocuments)
-		indexPath := filepath.Join(d.RootFolder, field)
+		indexPath := filepath.Join(d.RootFolder, file.FieldPathName(field))
 		file.CreteDirIfNotExist(indexPath)
 
 		err = file.SecureSaveFile(indexPath, file.IndexFile, file.CompressData(buffer))
@@ -275,7 +284,7 @@ func (d *DiskIO) SaveDocumentFieldOnDisk() {
 			}
 
 			buf := SerializeFieldMap(fieldMap)
-			err = file.SecureSaveFile(path, documentId, file.CompressData(buf))
+			err = file.SecureSaveFile(path, file.PathName(documentId), file.CompressData(buf))
 			if err != nil {
 				log.Fatalf(err.Error())
 			}
@@ -314,7 +323,7 @@ func (d *DiskIO) SaveNumberFieldTermOnDisk(data chan NumberFieldTermTransferData
 			buffer.Lock()
 			for fieldName, termSize := range buffer.data {
 
-				path := filepath.Join(d.RootFolder, fieldName)
+				path := filepath.Join(d.RootFolder, file.FieldPathName(fieldName))
 				file.CreteDirIfNotExist(path)
 
 				//the file holds every term of the field, the buffer only those changed since the last time
@@ -362,7 +371,7 @@ func (d *DiskIO) SaveFieldSizeLengthOnDisc(data chan FieldSizeLengthTransferData
 				length := buffer.Length[fieldName]
 				size := buffer.Size[fieldName]
 
-				path := filepath.Join(d.RootFolder, fieldName)
+				path := filepath.Join(d.RootFolder, file.FieldPathName(fieldName))
 				file.CreteDirIfNotExist(path)
 
 				buf := SerializeFieldSizeLength(fieldName, int32(size), int32(length))
@@ -429,12 +438,12 @@ func (d *DiskIO) SaveIndexOnDisk(indexCh chan IndexTransferData) {
 			bufferData.Lock()
 			for fieldName, terms := range bufferData.buffer {
 				buffer := SerializeIndex(terms)
-				path := filepath.Join(d.RootFolder, fieldName, file.Temp)
+				path := filepath.Join(d.RootFolder, file.FieldPathName(fieldName), file.Temp)
 				file.CreteDirIfNotExist(path)
 
 				//the merger must not see the file before it is complete
 				tempFile := filepath.Join(file.Temp, uuid.New().String())
-				err := file.SecureSaveFile(filepath.Join(d.RootFolder, fieldName), tempFile, file.CompressData(buffer))
+				err := file.SecureSaveFile(filepath.Join(d.RootFolder, file.FieldPathName(fieldName)), tempFile, file.CompressData(buffer))
 				if err != nil {
 					log.Fatalf(err.Error())
 				}
-- 
2.43.0


From 3bd0f7c615c00b8f69a29ca183a61196dfb7f1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:03 +0000
Subject: [PATCH 18/22] fix: a search after a crash computed NaN or negative
 scores

The statistics that were restored could be older than the documents; the
web service answered such a search with an empty body.
---
 index/InvertedIndex.go | 13 +++++++++++++
 similarity/BM25.go     |  6 +++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/index/InvertedIndex.go b/index/InvertedIndex.go
index 690304c..9910f38 100644
--- a/index/InvertedIndex.go
+++ b/index/InvertedIndex.go
@@ -3,6 +3,7 @@ package index
 import (
 	"github.com/sira-serverless-ir-arch/goirlib/model"
 	"github.com/sira-serverless-ir-arch/goirlib/storage"
+	"math"
 	"runtime"
 	"sync"
 )
@@ -114,6 +115,18 @@ func (i *InvertedIndex) Search(terms []string, fieldName string) model.SearchRes
 	fieldLength := float64(i.Storage.GetFieldLength(fieldName))
 	fieldSize := float64(i.Storage.GetFieldSize(fieldName))
 
+	//After a crash the statistics that were restored can still be older than the documents: they account for what
+	//is known to exist all the same
+	foundLength := 0.0
+	for _, field := range fieldDocuments {
+		foundLength += float64(field.Length)
+	}
+	fieldLength = math.Max(fieldLength, foundLength)
+	fieldSize = math.Max(fieldSize, float64(len(fieldDocuments)))
+	for _, number := range result.NumFieldsWithTerm {
+		fieldSize = math.Max(fieldSize, float64(number))
+	}
+
 	result.FieldDocuments = fieldDocuments
 	result.TotalDocuments = fieldSize
 	result.AvgDocLength = fieldLength / fieldSize
diff --git a/similarity/BM25.go b/similarity/BM25.go
index ddd4d52..ef26eca 100644
--- a/similarity/BM25.go
+++ b/similarity/BM25.go
@@ -10,11 +10,15 @@ func BM25(query []string, k1, b, boost, avgDocLength, totalDocs float64, numDocs
 	if boost == 0 {
 		boost = 1
 	}
+	relativeLength := 0.0
+	if avgDocLength > 0 {
+		relativeLength = float64(field.Length) / avgDocLength
+	}
 	for _, term := range query {
 		idf := metric.IdfBM25(totalDocs, float64(numDocsWithTerm[term]))
 		frequency := float64(field.TF[term])
 		numerator := frequency * (k1 + 1)
-		denominator := frequency + k1*(1-b+b*(float64(field.Length)/avgDocLength))
+		denominator := frequency + k1*(1-b+b*relativeLength)
 		score += boost * idf * (numerator / denominator)
 
 		//if doc_id == "485" {
-- 
2.43.0


From f784cf0d0645842d06aaed711984deb890258a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:24 +0000
Subject: [PATCH 19/22] fix: a document with an id longer than a file name may
 be ended the process

---
 file/File.go      | 15 +++++++++++++++
 storage/DiskIO.go |  4 ++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/file/File.go b/file/File.go
index 0cbc803..95b9731 100644
--- a/file/File.go
+++ b/file/File.go
@@ -3,6 +3,7 @@ package file
 import (
 	"bytes"
 	"compress/gzip"
+	"crypto/sha256"
 	"fmt"
 	"github.com/google/uuid"
 	"io"
@@ -53,6 +54,20 @@ func FieldPathName(fieldName string) string {
 	return PathName(fieldName)
 }
 
+// the longest name most file systems take, in bytes
+const maxPathName = 255
+
+// DocumentPathName returns the name of the file of a document. An id that is too long for a file name is replaced by
+// a hash of it.
+func DocumentPathName(documentId string) string {
+	name := PathName(documentId)
+	if len(name) > maxPathName {
+		//no other id has a % followed by anything but two digits in its name
+		return fmt.Sprintf("%%-%x", sha256.Sum256([]byte(documentId)))
+	}
+	return name
+}
+
 // NameOfPath is the inverse of PathName and FieldPathName
 func NameOfPath(pathName string) string {
 	if pathName == "%" {
diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 8e15ac3..3678726 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -98,7 +98,7 @@ func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Fiel
 }
 
 func (d *DiskIO) readFieldDocument(documentId string) (map[string]model.Field, error) {
-	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, file.PathName(documentId))
+	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, file.DocumentPathName(documentId))
 	if !file.Exists(path) {
 		return make(map[string]model.Field), nil
 	}
@@ -284,7 +284,7 @@ func (d *DiskIO) SaveDocumentFieldOnDisk() {
 			}
 
 			buf := SerializeFieldMap(fieldMap)
-			err = file.SecureSaveFile(path, file.PathName(documentId), file.CompressData(buf))
+			err = file.SecureSaveFile(path, file.DocumentPathName(documentId), file.CompressData(buf))
 			if err != nil {
 				log.Fatalf(err.Error())
 			}
-- 
2.43.0


From a109e77ba570a51f61fdf184cc7b1a829961306e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:00 +0000
Subject: [PATCH 20/22] fix: flattening an object under an empty key left that
 key out of the names

---
 field/FieldProcess.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/field/FieldProcess.go b/field/FieldProcess.go
index 628c3a7..22397a6 100644
--- a/field/FieldProcess.go
+++ b/field/FieldProcess.go
@@ -31,15 +31,13 @@ func Flatten(input map[string]interface{}) map[string]interface{} {
 	return output
 }
 
+// recFlatten adds the leaves of the object under keys that begin with the prefix
 func recFlatten(input map[string]interface{}, output map[string]interface{}, prefix string) {
 	for k, v := range input {
-		key := k
-		if prefix != "" {
-			key = prefix + "." + k
-		}
+		key := prefix + k
 		switch value := v.(type) {
 		case map[string]interface{}:
-			recFlatten(value, output, key)
+			recFlatten(value, output, key+".")
 		default:
 			output[key] = value
 		}
-- 
2.43.0


From 2ef96a794e782440c52f5a9d99a417793c1881c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:11 +0000
Subject: [PATCH 21/22] fix: temporary files of saves that a crash interrupted
 stayed in the folder for good

Every crash inside a save left one more. They now have a name that tells them apart and are removed when the folder
is opened, except those of the same process, which an earlier store on the folder may be writing.
---
 file/File.go      | 17 ++++++++++++++++-
 storage/DiskIO.go | 11 +++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/file/File.go b/file/File.go
index 95b9731..e6154d5 100644
--- a/file/File.go
+++ b/file/File.go
@@ -205,13 +205,28 @@ func ListDirectories(path string) []string {
 	return directories
 }
 
+// The names of temporary files begin with this, those of fields and documents do not
+const tempPrefix = "%~"
+
+// the names of the temporary files of this process
+var ownTempPrefix = tempPrefix + uuid.New().String()
+
+// RemoveLeftovers removes the temporary files in a directory that an earlier process did not come to rename
+func RemoveLeftovers(path string) {
+	for _, name := range ListFiles(path) {
+		if strings.HasPrefix(name, tempPrefix) && !strings.HasPrefix(name, ownTempPrefix) {
+			_ = Delete(filepath.Join(path, name))
+		}
+	}
+}
+
 // SecureSaveFile replaces the file with the new content in one step: whenever the process or the machine stops,
 // either the previous or the new content is found. The name of the temporary file is not used twice, so that
 // neither two callers nor a leftover of a crash get in the way.
 func SecureSaveFile(path, fileName string, buff []byte) error {
 
 	currentPath := filepath.Join(path, fileName)
-	tempPath := filepath.Join(path, uuid.New().String()+"_temp")
+	tempPath := filepath.Join(path, ownTempPrefix+"-"+uuid.New().String())
 
 	err := saveFileDurably(tempPath, buff)
 	if err != nil {
diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 3678726..eeac9aa 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -18,6 +18,7 @@ type DiskIO struct {
 
 func NewDiskIO(rootFolder string) DiskIO {
 	file.CreteDirIfNotExist(rootFolder)
+	removeLeftovers(rootFolder)
 	return DiskIO{
 		RootFolder: rootFolder,
 		documentFields: &BufferFieldDocument{
@@ -27,6 +28,16 @@ func NewDiskIO(rootFolder string) DiskIO {
 	}
 }
 
+// removeLeftovers removes what saves that a crash interrupted have left
+func removeLeftovers(rootFolder string) {
+	for _, directory := range file.ListDirectories(rootFolder) {
+		file.RemoveLeftovers(filepath.Join(rootFolder, directory))
+	}
+	if documents := filepath.Join(rootFolder, file.Documents, file.DocumentsMetrics); file.Exists(documents) {
+		file.RemoveLeftovers(documents)
+	}
+}
+
 // listFields returns the names of the fields that have a directory
 func (d *DiskIO) listFields() []string {
 	var fields []string
-- 
2.43.0


From c2808b9e094685a98d50b9d1dfa45bffcc92ca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:44 +0000
Subject: [PATCH 22/22] fix: the length of a field beyond 2147483647 words came
 back negative from the disk

---
 schema/FieldMetrics.fbs         |  1 +
 storage/DiskIO.go               |  2 +-
 storage/Serialize.go            | 16 ++++++++++++----
 storage/buffers/FieldMetrics.go | 18 +++++++++++++++++-
 4 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/schema/FieldMetrics.fbs b/schema/FieldMetrics.fbs
index c9fafbb..9c2f125 100644
--- a/schema/FieldMetrics.fbs
+++ b/schema/FieldMetrics.fbs
@@ -4,4 +4,5 @@ table FieldMetrics {
   name:string;
   size:int32;
   length:int32;
+  long_length:int64;
 }
\ No newline at end of file
diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index eeac9aa..d30fd49 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -385,7 +385,7 @@ func (d *DiskIO) SaveFieldSizeLengthOnDisc(data chan FieldSizeLengthTransferData
 				path := filepath.Join(d.RootFolder, file.FieldPathName(fieldName))
 				file.CreteDirIfNotExist(path)
 
-				buf := SerializeFieldSizeLength(fieldName, int32(size), int32(length))
+				buf := SerializeFieldSizeLength(fieldName, int32(size), int64(length))
 
 				//path = filepath.Join(path, file.MetricsFile)
 				err := file.SecureSaveFile(path, file.MetricsFile, file.CompressData(buf))
diff --git a/storage/Serialize.go b/storage/Serialize.go
index 4d88a05..04040f0 100644
--- a/storage/Serialize.go
+++ b/storage/Serialize.go
@@ -5,9 +5,10 @@ import (
 	"github.com/sira-serverless-ir-arch/goirlib/model"
 	"github.com/sira-serverless-ir-arch/goirlib/storage/buffers"
 	"log"
+	"math"
 )
 
-func SerializeFieldSizeLength(name string, size int32, length int32) []byte {
+func SerializeFieldSizeLength(name string, size int32, length int64) []byte {
 	b := flatbuffers.NewBuilder(0)
 
 	nameOffset := b.CreateString(name)
@@ -15,7 +16,11 @@ func SerializeFieldSizeLength(name string, size int32, length int32) []byte {
 	buffers.FieldMetricsStart(b)
 	buffers.FieldMetricsAddName(b, nameOffset)
 	buffers.FieldMetricsAddSize(b, size)
-	buffers.FieldMetricsAddLength(b, length)
+	if length <= math.MaxInt32 {
+		buffers.FieldMetricsAddLength(b, int32(length))
+	} else {
+		buffers.FieldMetricsAddLongLength(b, length)
+	}
 	fieldSizeLength := buffers.FieldMetricsEnd(b)
 
 	b.Finish(fieldSizeLength)
@@ -23,12 +28,15 @@ func SerializeFieldSizeLength(name string, size int32, length int32) []byte {
 	return b.FinishedBytes()
 }
 
-func DeserializeFieldSizeLength(buf []byte) (string, int32, int32) {
+func DeserializeFieldSizeLength(buf []byte) (string, int32, int64) {
 	fieldSizeLength := buffers.GetRootAsFieldMetrics(buf, 0)
 
 	name := string(fieldSizeLength.Name())
 	size := fieldSizeLength.Size()
-	length := fieldSizeLength.Length()
+	length := int64(fieldSizeLength.Length())
+	if longLength := fieldSizeLength.LongLength(); longLength != 0 {
+		length = longLength
+	}
 
 	return name, size, length
 }
diff --git a/storage/buffers/FieldMetrics.go b/storage/buffers/FieldMetrics.go
index 50bd0d2..343b288 100644
--- a/storage/buffers/FieldMetrics.go
+++ b/storage/buffers/FieldMetrics.go
@@ -73,8 +73,21 @@ func (rcv *FieldMetrics) MutateLength(n int32) bool {
 	return rcv._tab.MutateInt32Slot(8, n)
 }
 
+// LongLength is there instead of Length if that is too small for it
+func (rcv *FieldMetrics) LongLength() int64 {
+	o := flatbuffers.UOffsetT(rcv._tab.Offset(10))
+	if o != 0 {
+		return rcv._tab.GetInt64(o + rcv._tab.Pos)
+	}
+	return 0
+}
+
+func (rcv *FieldMetrics) MutateLongLength(n int64) bool {
+	return rcv._tab.MutateInt64Slot(10, n)
+}
+
 func FieldMetricsStart(builder *flatbuffers.Builder) {
-	builder.StartObject(3)
+	builder.StartObject(4)
 }
 func FieldMetricsAddName(builder *flatbuffers.Builder, name flatbuffers.UOffsetT) {
 	builder.PrependUOffsetTSlot(0, flatbuffers.UOffsetT(name), 0)
@@ -85,6 +98,9 @@ func FieldMetricsAddSize(builder *flatbuffers.Builder, size int32) {
 func FieldMetricsAddLength(builder *flatbuffers.Builder, length int32) {
 	builder.PrependInt32Slot(2, length, 0)
 }
+func FieldMetricsAddLongLength(builder *flatbuffers.Builder, longLength int64) {
+	builder.PrependInt64Slot(3, longLength, 0)
+}
 func FieldMetricsEnd(builder *flatbuffers.Builder) flatbuffers.UOffsetT {
 	return builder.EndObject()
 }
-- 
2.43.0


// Package zzclient is the part of the simulated clients that touches what the library returns: it is
// rewritten together with the library, so that its reads are seen by the scheduler and the race detector
// exactly like those of any user's code.
package zzclient

import (
	"sort"

	"github.com/sira-serverless-ir-arch/goirlib/cache"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
)

// Docs looks a term up and lists the documents.
func Docs(st storage.Storage, field, term string) ([]string, bool) {
	set, ok := st.GetDocuments(field, term)
	var out []string
	for id, in := range set.GetData() {
		if in {
			out = append(out, id)
		}
	}
	sort.Strings(out)
	return out, ok
}

// Index copies a field's whole index.
func Index(st storage.Storage, field string) map[string][]string {
	out := make(map[string][]string)
	for term, set := range st.GetIndex(field) {
		var l []string
		if set != nil {
			for id, in := range set.GetData() {
				if in {
					l = append(l, id)
				}
			}
		}
		sort.Strings(l)
		out[term] = l
	}
	return out
}

// Fields copies what GetFields returns.
func Fields(st storage.Storage, ids []string, field string) map[string]model.Field {
	out := make(map[string]model.Field)
	for id, f := range st.GetFields(ids, field) {
		tf := make(map[string]int)
		for k, v := range f.TF {
			tf[k] = v
		}
		out[id] = model.Field{Name: f.Name, Length: f.Length, TF: tf}
	}
	return out
}

// NumTerm copies what GetNumberFieldTerm returns.
func NumTerm(st storage.Storage, field string, terms []string) map[string]int {
	out := make(map[string]int)
	for t, n := range st.GetNumberFieldTerm(field, terms) {
		out[t] = n
	}
	return out
}

// Search copies what a search returns.
func Search(s search.Search, q []model.Query) []model.DocumentScore {
	var out []model.DocumentScore
	for _, d := range s.Search(q) {
		out = append(out, model.DocumentScore{Id: d.Id, Score: d.Score})
	}
	return out
}

// Val is a value with several words, to notice a torn or mixed one.
type Val struct {
	A, B int
	S    string
}

type Getter interface{ Get(string) (*Val, bool) }

// Get reads through the pointer the cache returned.
func Get(c Getter, key string) (Val, bool, *Val) {
	p, ok := c.Get(key)
	if !ok || p == nil {
		return Val{}, ok && p != nil, nil
	}
	return Val{p.A, p.B, p.S}, ok, p
}

// Reread reads an earlier returned value again.
func Reread(p *Val) Val { return Val{p.A, p.B, p.S} }

func NewLRU(n int) *cache.LRUCache[Val]    { return cache.NewLRUCache[Val](n) }
func NewRCU() *cache.RCU[Val]              { return cache.NewCacheRCU[Val]() }
func NewSync() *cache.SyncMap[Val]         { return cache.NewSyncMap[Val]() }
func NewShard(n int) *cache.Shard[Val]     { return cache.NewShardMap[Val](n) }
func ShardData(m *cache.LocalMap[Val]) int { return len(m.GetData()) }

// Words copies a table of words.
func Words(from, to map[string]bool) {
	for k, v := range from {
		if v {
			to[k] = true
		}
	}
}

// Strings copies what a filter returns.
func Strings(l []string) []string {
	out := make([]string, 0, len(l))
	for _, s := range l {
		out = append(out, s)
	}
	return out
}

// Any copies a decoded JSON object.
func Any(m map[string]interface{}) map[string]interface{} {
	if m == nil {
		return nil
	}
	out := make(map[string]interface{})
	for k, v := range m {
		if x, ok := v.(map[string]interface{}); ok {
			v = Any(x)
		}
		out[k] = v
	}
	return out
}

// Own uses a result as its owner may: it is changed.
func Own(m map[string]interface{}) {
	m["changed by the caller"] = true
}

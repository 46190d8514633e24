// Conformance driver for pkg/search.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"sync"

	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/embedding/embutil"
	"github.com/ynqa/wego/pkg/search"
	"github.com/ynqa/wego/zzverif/shared"
)

type Op struct {
	Kind   string   `json:"kind"` // word, vec, emb
	Word   string   `json:"word"`
	Vec    []string `json:"vec"`
	K      int      `json:"k"`
	Ignore []string `json:"ignore"`
}

type Case struct {
	Items   [][]string `json:"items"` // values of item i, named w<i>
	Names   []string   `json:"names"` // given names instead
	Ops     []Op       `json:"ops"`
	Conc    int        `json:"conc"` // threads running the plan concurrently; 0: only in sequence
	Rounds  int        `json:"rounds"`
	Reverse bool       `json:"reverse"`
}

func main() { shared.Loop(handle) }

func floats(s []string) []float64 {
	res := make([]float64, len(s))
	for i, x := range s {
		v, err := strconv.ParseFloat(x, 64)
		if err != nil && !math.IsInf(v, 0) {
			panic(err)
		}
		res[i] = v
	}
	return res
}

func bits(v []float64) string {
	var b strings.Builder
	for _, x := range v {
		fmt.Fprintf(&b, "%016x", math.Float64bits(x))
	}
	return b.String()
}

type result struct {
	ns  search.Neighbors
	err error
}

func exec(s *search.Searcher, op Op, vec []float64) result {
	switch op.Kind {
	case "word":
		ns, err := s.SearchInternal(op.Word, op.K)
		return result{ns, err}
	case "vec":
		ns, err := s.SearchVector(vec, op.K)
		return result{ns, err}
	default:
		ns, err := s.Search(embedding.Embedding{Vector: vec, Dim: len(vec), Norm: embutil.Norm(vec)}, op.K, op.Ignore...)
		return result{ns, err}
	}
}

func (r result) rows() [][]interface{} {
	rows := [][]interface{}{}
	for _, n := range r.ns {
		rows = append(rows, []interface{}{n.Word, n.Rank, strconv.FormatFloat(n.Similarity, 'g', -1, 64)})
	}
	return rows
}

func (r result) key() []string {
	k := []string{}
	if r.err != nil {
		k = append(k, "error")
	}
	for _, n := range r.ns {
		k = append(k, fmt.Sprintf("%s/%d/%016x", n.Word, n.Rank, math.Float64bits(n.Similarity)))
	}
	return k
}

func handle(raw json.RawMessage, emit func(shared.Ev)) {
	var c Case
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	var embs []embedding.Embedding
	for i, it := range c.Items {
		v := floats(it)
		name := fmt.Sprintf("w%d", i+1)
		if c.Names != nil {
			name = c.Names[i]
		}
		embs = append(embs, embedding.Embedding{Word: name, Dim: len(v), Vector: v, Norm: embutil.Norm(v)})
	}
	s, err := search.New(embs...)
	if err != nil {
		panic("search.New: " + err.Error())
	}
	vecs := make([][]float64, len(c.Ops))
	for i, op := range c.Ops {
		vecs[i] = floats(op.Vec)
	}
	state := func() []string {
		var st []string
		for _, e := range s.Items {
			st = append(st, fmt.Sprintf("%s/%d/%016x/%s", e.Word, e.Dim, math.Float64bits(e.Norm), bits(e.Vector)))
		}
		for _, v := range vecs {
			st = append(st, bits(v))
		}
		return append(st, fmt.Sprint(len(s.Items)))
	}
	emit(shared.Ev{"ev": "Searcher", "n": len(embs)})
	before := state()
	var held []result
	for i, op := range c.Ops {
		r := exec(s, op, vecs[i])
		held = append(held, r)
		if c.Conc == 0 {
			emit(shared.Ev{"ev": "Search", "op": i, "res": r.rows(), "err": shared.Err(r.err)})
		} else {
			emit(shared.Ev{"ev": "Alone", "q": i + 1, "res": r.key()})
		}
	}
	if c.Conc == 0 {
		return
	}
	// everything again, one after the other, in the other order
	for i := len(c.Ops) - 1; i >= 0; i-- {
		emit(shared.Ev{"ev": "Conc", "q": i + 1, "res": exec(s, c.Ops[i], vecs[i]).key()})
	}
	type obs struct {
		q int
		r result
	}
	all := make([][]obs, c.Conc)
	crash := make([]interface{}, c.Conc)
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	for t := 0; t < c.Conc; t++ {
		ready.Add(1)
		done.Add(1)
		go func(t int) {
			defer done.Done()
			defer func() { crash[t] = recover() }()
			ready.Done()
			<-start
			for round := 0; round < c.Rounds; round++ {
				for i := range c.Ops {
					j := (i*(2*t+1) + t + round) % len(c.Ops)
					all[t] = append(all[t], obs{j, exec(s, c.Ops[j], vecs[j])})
				}
			}
		}(t)
	}
	ready.Wait()
	close(start)
	done.Wait()
	for t := range crash {
		if crash[t] != nil {
			panic(fmt.Sprint("concurrent search: ", crash[t]))
		}
	}
	seen := map[string]bool{}
	for t := range all {
		for _, o := range all[t] {
			k := o.r.key()
			if id := fmt.Sprint(o.q, k); !seen[id] {
				seen[id] = true
				emit(shared.Ev{"ev": "Conc", "q": o.q + 1, "res": k})
			}
		}
	}
	// one query buffer used for several queries
	var buf []float64
	for i, op := range c.Ops {
		if len(buf) == 0 {
			buf = append(buf, vecs[i]...)
		}
		if op.Kind != "word" && len(buf) == len(vecs[i]) {
			copy(buf, vecs[i])
			emit(shared.Ev{"ev": "Conc", "q": i + 1, "res": exec(s, op, buf).key()})
		}
	}
	// callers that do as they please with what they have been given
	for i, op := range c.Ops {
		r := exec(s, op, vecs[i])
		for j := range r.ns {
			r.ns[j].Word, r.ns[j].Rank, r.ns[j].Similarity = "?", 99, -1
		}
		if cap(r.ns) > len(r.ns) {
			r.ns = append(r.ns, r.ns...)
		}
		emit(shared.Ev{"ev": "Conc", "q": i + 1, "res": exec(s, op, vecs[i]).key()})
	}
	for i, r := range held {
		emit(shared.Ev{"ev": "Held", "q": i + 1, "res": r.key()})
	}
	emit(shared.Ev{"ev": "State", "before": before, "after": state()})
}

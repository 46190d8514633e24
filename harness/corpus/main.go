// Conformance driver for the corpus packages: plays a history of public calls and records results.
package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ynqa/wego/pkg/corpus"
	"github.com/ynqa/wego/pkg/corpus/cooccurrence/encode"
	"github.com/ynqa/wego/pkg/corpus/cpsutil"
	"github.com/ynqa/wego/pkg/corpus/fs"
	"github.com/ynqa/wego/pkg/corpus/memory"
	"github.com/ynqa/wego/pkg/util/verbose"
	"github.com/ynqa/wego/zzverif/shared"
)

type Case struct {
	Text    string `json:"text"`
	Mode    string `json:"mode"`
	Lower   bool   `json:"lower"`
	Max     int    `json:"max"`
	Min     int    `json:"min"`
	Chunk   int    `json:"chunk"`
	Start   int64  `json:"start"`
	EOFWith bool   `json:"eofwith"`
	CType   string `json:"ctype"`
	Window  int    `json:"window"`
	Steps   []Step `json:"steps"`
}

type Step struct {
	Op    string      `json:"op"`
	Words []string    `json:"words"`
	Ids   []int       `json:"ids"`
	Size  int         `json:"size"`
	Cap   int         `json:"cap"`
	Pairs [][2]string `json:"pairs"`
	Slow  bool        `json:"slow"`
	Hold  int         `json:"hold"` // ms before the first batch is taken
	All   bool        `json:"all"`
}

func main() { shared.Loop(handle) }

func handle(raw json.RawMessage, emit func(shared.Ev)) {
	var c Case
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	r := &shared.Reader{Data: []byte(shared.B64(c.Text)), Chunk: c.Chunk, Pos: c.Start, EOFWith: c.EOFWith}
	var cps corpus.Corpus
	if c.Mode == "mem" {
		cps = memory.New(r, c.Lower, c.Max, c.Min)
	} else {
		cps = fs.New(r, c.Lower, c.Max, c.Min)
	}
	emit(shared.Ev{"ev": "New"})
	var held [][][]int
	for _, s := range c.Steps {
		switch s.Op {
		case "load":
			var with *corpus.WithCooccurrence
			if c.CType != "none" {
				with = &corpus.WithCooccurrence{CountType: c.CType, Window: c.Window}
			}
			err := cps.Load(with, verbose.New(false), 1000)
			d := cps.Dictionary()
			words, freq := []string{}, []int{}
			for i := 0; i < d.Len(); i++ {
				w, ok := d.Word(i)
				if !ok {
					w = "\xff?"
				}
				words = append(words, shared.ToB64(w))
				freq = append(freq, d.IDFreq(i))
			}
			emit(shared.Ev{"ev": "Load", "err": shared.Err(err), "words": words, "freq": freq, "n": cps.Len(), "dlen": d.Len()})
		case "big":
			// a vocabulary too large to be looked up word by word: the ids of the words of the text, in order
			err := cps.Load(nil, verbose.New(false), 1000)
			d := cps.Dictionary()
			words, freq, ids := []string{}, []int{}, []int{}
			for i := 0; i < d.Len(); i++ {
				w, ok := d.Word(i)
				if !ok {
					w = "\xff?"
				}
				words = append(words, shared.ToB64(w))
				freq = append(freq, d.IDFreq(i))
			}
			for _, w := range strings.Fields(shared.B64(c.Text)) {
				id, ok := d.ID(w)
				if !ok {
					id = -1
				}
				ids = append(ids, id)
			}
			emit(shared.Ev{"ev": "Big", "err": shared.Err(err), "words": words, "freq": freq, "ids": ids, "n": cps.Len(), "dlen": d.Len()})
		case "lookup":
			d := cps.Dictionary()
			byword, byid := [][]interface{}{}, [][]interface{}{}
			for _, w := range s.Words {
				raw := shared.B64(w)
				id, ok := d.ID(raw)
				byword = append(byword, []interface{}{w, ok, id, d.WordFreq(raw)})
			}
			for _, id := range s.Ids {
				w, ok := d.Word(id)
				byid = append(byid, []interface{}{id, ok, shared.ToB64(w), d.IDFreq(id)})
			}
			emit(shared.Ev{"ev": "Lookup", "byword": byword, "byid": byid})
		case "doc":
			ids := append([]int{}, cps.IndexedDoc()...)
			emit(shared.Ev{"ev": "Doc", "ids": ids})
		case "pass":
			first, kept, closed, err := pass(cps, s)
			held = append(held, kept)
			emit(shared.Ev{"ev": "Pass", "size": s.Size, "batches": first, "closed": closed, "err": shared.Err(err)})
		case "recheck":
			if held == nil {
				held = [][][]int{}
			}
			emit(shared.Ev{"ev": "Recheck", "passes": held})
		case "cooc":
			entries, lookups := [][]interface{}{}, [][]interface{}{}
			m := map[uint64]float64{}
			if co := cps.Cooccurrence(); co != nil {
				m = co.EncodedMatrix()
			}
			for k, v := range m {
				a, b := encode.DecodeBigram(k)
				entries = append(entries, []interface{}{a, b, v})
			}
			if s.All {
				n := cps.Dictionary().Len()
				for a := 0; a < n; a++ {
					for b := 0; b < n; b++ {
						lookups = append(lookups, []interface{}{a, b, m[encode.EncodeBigram(uint64(a), uint64(b))]})
					}
				}
			}
			emit(shared.Ev{"ev": "Cooc", "size": len(m), "entries": entries, "lookups": lookups})
		case "codec":
			res := [][]string{}
			u := func(x uint64) string { return strconv.FormatUint(x, 10) }
			for _, p := range s.Pairs {
				a, _ := strconv.ParseUint(p[0], 10, 64)
				b, _ := strconv.ParseUint(p[1], 10, 64)
				e1, e2 := encode.EncodeBigram(a, b), encode.EncodeBigram(b, a)
				d1, d2 := encode.DecodeBigram(e1)
				res = append(res, []string{p[0], p[1], u(e1), u(e2), u(d1), u(d2)})
			}
			emit(shared.Ev{"ev": "Codec", "pairs": res})
		case "window":
			pairs := [][2]string{}
			err := cpsutil.ReadWordWithForwardContext(r, s.Size, func(a, b string) error {
				pairs = append(pairs, [2]string{shared.ToB64(a), shared.ToB64(b)})
				return nil
			})
			emit(shared.Ev{"ev": "Window", "window": s.Size, "pairs": pairs, "err": shared.Err(err)})
		default:
			panic("unknown step " + s.Op)
		}
	}
}

// pass runs one streaming pass. first: contents on receipt; kept: the received slices themselves.
func pass(cps corpus.Corpus, s Step) (first, kept [][]int, closed bool, err error) {
	first, kept = [][]int{}, [][]int{}
	ch := make(chan []int, s.Cap)
	done := make(chan struct{})
	var crash interface{}
	go func() {
		defer close(done)
		defer func() { crash = recover() }()
		err = cps.BatchWords(ch, s.Size)
	}()
	var mu sync.Mutex
	take := func(b []int) {
		mu.Lock()
		first = append(first, append([]int{}, b...))
		kept = append(kept, b)
		mu.Unlock()
	}
	if s.Slow {
		// let the producer run as far as the channel lets it
		select {
		case <-done:
		case <-time.After(2 * time.Millisecond):
		}
	}
	time.Sleep(time.Duration(s.Hold) * time.Millisecond)
	for !closed {
		select {
		case b, ok := <-ch:
			if !ok {
				closed = true
				break
			}
			if s.Slow {
				time.Sleep(200 * time.Microsecond)
			}
			take(b)
			continue
		case <-done:
			// the producer has returned: everything must be there, and the channel closed
			t := time.After(2 * time.Second)
			for !closed {
				select {
				case b, ok := <-ch:
					if !ok {
						closed = true
						break
					}
					take(b)
					continue
				case <-t:
					return
				}
			}
		}
	}
	<-done
	if crash != nil {
		panic(fmt.Sprint("BatchWords: ", crash))
	}
	return
}

// Conformance driver for saving and loading vectors.
package main

import (
	"bytes"
	"encoding/json"
	"io"
	"math"
	"strconv"

	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/glove"
	"github.com/ynqa/wego/pkg/model/lexvec"
	"github.com/ynqa/wego/pkg/model/modelutil/matrix"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/pkg/model/word2vec"
	"github.com/ynqa/wego/pkg/search"
	"github.com/ynqa/wego/pkg/util/verbose"
	"github.com/ynqa/wego/zzverif/shared"
)

type Dest struct {
	Limit  int    `json:"limit"`
	How    string `json:"how"` // partial, refuse, once, call
	Calls  int    `json:"calls"`
	Kind   int    `json:"errkind"`
	Str    bool   `json:"str"`
	n      int
	got    bytes.Buffer
	lost   bool
	failed bool
}

func (d *Dest) Write(p []byte) (int, error) {
	d.n++
	switch d.How {
	case "call": // the Calls-th write fails
		if d.n >= d.Calls {
			d.lost = true
			return 0, shared.Failure(d.Kind)
		}
	case "refuse": // nothing of a write that does not fit
		if d.got.Len()+len(p) > d.Limit {
			d.lost = true
			return 0, shared.Failure(d.Kind)
		}
	case "once": // fails once, would work again afterwards
		if !d.failed && d.got.Len()+len(p) > d.Limit {
			d.failed, d.lost = true, true
			return 0, shared.Failure(d.Kind)
		}
	case "partial":
		if d.got.Len()+len(p) > d.Limit {
			k := d.Limit - d.got.Len()
			if k < 0 {
				k = 0
			}
			d.got.Write(p[:k])
			d.lost = true
			return k, shared.Failure(d.Kind)
		}
	}
	d.got.Write(p)
	return len(p), nil
}

// strDest is a destination that also takes strings, as files do.
type strDest struct{ *Dest }

func (d strDest) WriteString(s string) (int, error) { return d.Write([]byte(s)) }

type Case struct {
	Op      string     `json:"op"`
	Words   []string   `json:"words"`
	Vals    [][]string `json:"vals"`
	Cols    int        `json:"cols"`
	Chunk   int        `json:"chunk"`
	EOFWith bool       `json:"eofwith"`
	Dests   []Dest     `json:"dests"`
	Model   string     `json:"model"`
	Text    string     `json:"text"`
	Dim     int        `json:"dim"`
	Typ     string     `json:"typ"`
	Data    string     `json:"data"`
	FailAt  int64      `json:"failat"` // byte, -1: never
	With    bool       `json:"failwith"`
	Kind    int        `json:"errkind"`
	Search  bool       `json:"search"`
	Then    string     `json:"then"` // loaded before the first result is looked at
}

func main() { shared.Loop(handle) }

func num(s string) float64 {
	v, err := strconv.ParseFloat(s, 64)
	if err != nil && !math.IsInf(v, 0) {
		panic(err)
	}
	return v
}

func (c *Case) matrix() (*dictionary.Dictionary, *matrix.Matrix) {
	dic := dictionary.New()
	for _, w := range c.Words {
		dic.Add(shared.B64(w))
	}
	return dic, matrix.New(len(c.Vals), c.Cols, func(row int, vec []float64) {
		for i := range vec {
			vec[i] = num(c.Vals[row][i])
		}
	})
}

func ents(es embedding.Embeddings) []interface{} {
	res := []interface{}{}
	for _, e := range es {
		v := []string{}
		for _, x := range e.Vector {
			v = append(v, strconv.FormatFloat(x, 'g', -1, 64))
		}
		res = append(res, map[string]interface{}{"w": shared.ToB64(e.Word), "dim": e.Dim, "v": v, "norm": strconv.FormatFloat(e.Norm, 'g', -1, 64)})
	}
	return res
}

func newModel(c *Case) model.Model {
	var m model.Model
	var err error
	switch c.Model {
	case "word2vec":
		m, err = word2vec.New(word2vec.Dim(c.Dim), word2vec.Iter(1), word2vec.MinCount(0), word2vec.Goroutines(1))
	case "glove":
		m, err = glove.New(glove.Dim(c.Dim), glove.Iter(1), glove.MinCount(0), glove.Goroutines(1))
	case "lexvec":
		m, err = lexvec.New(lexvec.Dim(c.Dim), lexvec.Iter(1), lexvec.MinCount(0), lexvec.Goroutines(1), lexvec.Relation(lexvec.Collocation))
	}
	if err != nil {
		panic(err)
	}
	return m
}

func handle(raw json.RawMessage, emit func(shared.Ev)) {
	var c Case
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	saveTo := func(save func(w io.Writer) error) {
		var good bytes.Buffer
		if err := save(&good); err != nil {
			emit(shared.Ev{"ev": "SaveTo", "err": err.Error(), "lost": false, "prefix": true, "accepted": good.Len(), "total": good.Len()})
			return
		}
		for i := range c.Dests {
			d := &c.Dests[i]
			var w io.Writer = d
			if d.Str {
				w = strDest{d}
			}
			err := save(w)
			emit(shared.Ev{"ev": "SaveTo", "err": shared.Err(err), "lost": d.lost, "prefix": bytes.HasPrefix(good.Bytes(), d.got.Bytes()),
				"accepted": d.got.Len(), "total": good.Len(), "how": d.How, "limit": d.Limit})
		}
	}
	switch c.Op {
	case "save":
		dic, mat := c.matrix()
		var out bytes.Buffer
		err := vector.Save(&out, dic, mat, verbose.New(false), 1)
		emit(shared.Ev{"ev": "Save", "err": shared.Err(err), "out": shared.ToB64(out.String())})
		if err == nil {
			es, err := embedding.Load(&shared.Reader{Data: out.Bytes(), Chunk: c.Chunk, EOFWith: c.EOFWith})
			emit(shared.Ev{"ev": "Back", "err": shared.Err(err), "ents": ents(es)})
		}
	case "saveto":
		dic, mat := c.matrix()
		saveTo(func(w io.Writer) error { return vector.Save(w, dic, mat, verbose.New(false), 1) })
	case "modelsave":
		m := newModel(&c)
		if err := m.Train(&shared.Reader{Data: []byte(c.Text)}); err != nil {
			panic(err)
		}
		saveTo(func(w io.Writer) error { return m.Save(w, c.Typ) })
	case "load":
		r := &shared.Reader{Data: []byte(shared.B64(c.Data)), Chunk: c.Chunk, EOFWith: c.EOFWith}
		if c.FailAt >= 0 {
			r.Seeks, r.FailPass, r.FailAt, r.FailWith, r.Err = 1, 1, c.FailAt, c.With, shared.Failure(c.Kind)
		}
		es, err := embedding.Load(r)
		if c.Then != "" {
			others, _ := embedding.Load(&shared.Reader{Data: []byte(shared.B64(c.Then))})
			for i := range others { // and a caller may do with them what it likes
				for j := range others[i].Vector {
					others[i].Vector[j] = -77
				}
			}
		}
		emit(shared.Ev{"ev": "Load", "err": shared.Err(err), "ents": ents(es)})
		if c.Search && err == nil {
			s, err := search.New(es...)
			emit(shared.Ev{"ev": "NewSearcher", "err": shared.Err(err), "created": s != nil})
		}
	}
}

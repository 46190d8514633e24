// Conformance driver for training: runs real trainings and reports what they did to the vectors, as
// coefficients of the change of every vector on the initial vectors.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/pkg/corpus/dictionary/node"
	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/glove"
	"github.com/ynqa/wego/pkg/model/lexvec"
	"github.com/ynqa/wego/pkg/model/modelutil/matrix"
	"github.com/ynqa/wego/pkg/model/modelutil/subsample"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/pkg/model/word2vec"
	"github.com/ynqa/wego/zzverif/shared"
)

type Input struct {
	Text    string `json:"text"`
	Chunk   int    `json:"chunk"`
	EOFWith bool   `json:"eofwith"`
	Delay   int    `json:"delay"` // microseconds per Read
	Start   int64  `json:"start"`
	Pass    int    `json:"failpass"`
	At      int64  `json:"failat"`
	Seek    bool   `json:"failseek"`
	With    bool   `json:"failwith"`
	Kind    int    `json:"errkind"`
	Seed    int64  `json:"seed"`
}

type Case struct {
	Op    string                 `json:"op"`
	Model string                 `json:"model"`
	Opts  map[string]interface{} `json:"opts"`
	Input
	Before []Input `json:"before"` // earlier trainings of the same model
	Basis  bool    `json:"basis"`
	Near   [][]int `json:"near"` // per row: the basis rows to regress on; nil: all
	Unit   float64 `json:"unit"`
	Snaps  bool    `json:"snaps"`
	HS     bool    `json:"hs"`
	Calls  int     `json:"calls"`
	Stdout bool    `json:"stdout"`
	Raw    bool    `json:"raw"` // report the vectors themselves
	Serial bool    `json:"serial"` // the goroutines of the training take turns on one processor: no unsynchronised update is lost
	NoLeak bool    `json:"noleak"`
	Export bool    `json:"export"`
	Hist   []Step  `json:"hist"`

	Freq      []int   `json:"freq"`
	Threshold float64 `json:"threshold"`
}

// Step of a history of one model
type Step struct {
	Op  string `json:"op"` // train, fail, vectors, scribble, save
	Typ string `json:"typ"`
	Input
}

func main() { shared.Loop(handle) }

func set(opts interface{}, over map[string]interface{}) {
	v := reflect.ValueOf(opts).Elem()
	for k, x := range over {
		f := v.FieldByName(k)
		if !f.IsValid() {
			panic("driver: no option " + k)
		}
		switch f.Kind() {
		case reflect.Int:
			f.SetInt(int64(x.(float64)))
		case reflect.Float64:
			f.SetFloat(x.(float64))
		case reflect.Bool:
			f.SetBool(x.(bool))
		case reflect.String:
			f.SetString(x.(string))
		}
	}
}

func build(name string, over map[string]interface{}) (model.Model, error) {
	switch name {
	case "word2vec":
		o := word2vec.DefaultOptions()
		set(&o, over)
		return word2vec.NewForOptions(o)
	case "glove":
		o := glove.DefaultOptions()
		set(&o, over)
		return glove.NewForOptions(o)
	case "lexvec":
		o := lexvec.DefaultOptions()
		set(&o, over)
		return lexvec.NewForOptions(o)
	}
	panic("driver: model " + name)
}

func (in *Input) reader() *shared.Reader {
	return &shared.Reader{Data: []byte(shared.B64(in.Text)), Chunk: in.Chunk, EOFWith: in.EOFWith, Delay: time.Duration(in.Delay) * time.Microsecond,
		Pos: in.Start, FailPass: in.Pass, FailAt: in.At, FailSeek: in.Seek, FailWith: in.With, Err: shared.Failure(in.Kind)}
}

type vecs struct{ w, c [][]float64 } // own vectors; context vectors (aggregated minus own)

func rows(m *matrix.Matrix) [][]float64 {
	res := make([][]float64, m.Row())
	for i := range res {
		res[i] = append([]float64{}, m.Slice(i)...)
	}
	return res
}

func take(m model.Model) vecs {
	w, a := rows(m.WordVector(vector.Single)), rows(m.WordVector(vector.Agg))
	for i := range a {
		for j := range a[i] {
			a[i][j] -= w[i][j]
		}
	}
	return vecs{w, a}
}

// try takes the vectors if the model can give them already
func try(m model.Model) (v vecs, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return take(m), true
}

func dot(a, b []float64) float64 {
	s := 0.0
	for i := range a {
		s += a[i] * b[i]
	}
	return s
}

// solve: least squares of d on the given basis vectors; coefficients and residual norm
func solve(basis [][]float64, d []float64) ([]float64, float64) {
	n := len(basis)
	a := make([][]float64, n)
	for i := range a {
		a[i] = make([]float64, n+1)
		for j := range basis {
			a[i][j] = dot(basis[i], basis[j])
		}
		a[i][n] = dot(basis[i], d)
	}
	for k := 0; k < n; k++ {
		p := k
		for i := k + 1; i < n; i++ {
			if math.Abs(a[i][k]) > math.Abs(a[p][k]) {
				p = i
			}
		}
		a[k], a[p] = a[p], a[k]
		if a[k][k] == 0 {
			continue
		}
		for i := 0; i < n; i++ {
			if i != k {
				f := a[i][k] / a[k][k]
				for j := k; j <= n; j++ {
					a[i][j] -= f * a[k][j]
				}
			}
		}
	}
	x := make([]float64, n)
	r := append([]float64{}, d...)
	for k := range x {
		if a[k][k] != 0 {
			x[k] = a[k][n] / a[k][k]
		}
		for i := range r {
			r[i] -= x[k] * basis[k][i]
		}
	}
	return x, math.Sqrt(dot(r, r))
}

// inverse of the Gram matrix of the basis
func inverse(basis [][]float64) [][]float64 {
	n := len(basis)
	a := make([][]float64, n)
	for i := range a {
		a[i] = make([]float64, 2*n)
		for j := range basis {
			a[i][j] = dot(basis[i], basis[j])
		}
		a[i][n+i] = 1
	}
	for k := 0; k < n; k++ {
		p := k
		for i := k + 1; i < n; i++ {
			if math.Abs(a[i][k]) > math.Abs(a[p][k]) {
				p = i
			}
		}
		a[k], a[p] = a[p], a[k]
		if a[k][k] == 0 {
			continue
		}
		for j, f := 0, 1/a[k][k]; j < 2*n; j++ {
			a[k][j] *= f
		}
		for i := 0; i < n; i++ {
			if f := a[i][k]; i != k && f != 0 {
				for j := k; j < 2*n; j++ {
					a[i][j] -= f * a[k][j]
				}
			}
		}
	}
	for i := range a {
		a[i] = a[i][n:]
	}
	return a
}

func project(inv, basis [][]float64, d []float64) ([]float64, float64) {
	rhs := make([]float64, len(basis))
	zero := true
	for i := range rhs {
		rhs[i] = dot(basis[i], d)
		zero = zero && rhs[i] == 0
	}
	x := make([]float64, len(basis))
	r := append([]float64{}, d...)
	for k := range x {
		if zero {
			break
		}
		x[k] = dot(inv[k], rhs)
		for i := range r {
			r[i] -= x[k] * basis[k][i]
		}
	}
	return x, math.Sqrt(dot(r, r))
}

func fin(x float64) float64 {
	if math.IsNaN(x) || math.IsInf(x, 0) || math.Abs(x) > 1e15 {
		return 1e15
	}
	return x
}

// coefs reports the change since v0: entries [matrix, row, basis matrix, basis row, coefficient in units]
func (c *Case) coefs(v0, v vecs) shared.Ev {
	n := len(v0.w)
	res := shared.Ev{"ev": "K", "rows": len(v.w)}
	ent := [][5]float64{}
	worst := 0.0
	if len(v.w) != n {
		res["bad"] = "rows"
		return res
	}
	var size float64
	for i := range v0.w {
		size += math.Sqrt(dot(v0.w[i], v0.w[i])) / float64(n)
	}
	var inv [][]float64 // of the Gram matrix, when all rows have the same basis
	one := func(mi, row int, d0, d []float64) {
		if len(d0) != len(d) {
			res["bad"] = "columns"
			return
		}
		diff := make([]float64, len(d))
		for i := range d {
			diff[i] = d[i] - d0[i]
		}
		var ids []int
		if c.Near != nil {
			ids = c.Near[row]
		} else {
			for i := 0; i < n; i++ {
				ids = append(ids, i)
			}
		}
		var basis [][]float64
		for _, i := range ids {
			basis = append(basis, v0.w[i])
		}
		if !c.HS {
			for _, i := range ids {
				basis = append(basis, v0.c[i])
			}
		}
		var x []float64
		var r float64
		if c.Near == nil && len(basis) > 40 {
			if inv == nil {
				inv = inverse(basis)
			}
			x, r = project(inv, basis, diff)
		} else {
			x, r = solve(basis, diff)
		}
		for k := range x {
			y := fin(x[k] / c.Unit)
			if math.Abs(y) > 5e-8 {
				if k < len(ids) {
					ent = append(ent, [5]float64{float64(mi), float64(row), 0, float64(ids[k]), y})
				} else {
					ent = append(ent, [5]float64{float64(mi), float64(row), 1, float64(ids[k-len(ids)]), y})
				}
			}
		}
		worst = math.Max(worst, fin(r/(c.Unit*size)))
	}
	for i := 0; i < n; i++ {
		one(0, i, v0.w[i], v.w[i])
		one(1, i, v0.c[i], v.c[i])
	}
	res["e"], res["res"] = ent, worst
	return res
}

func settle(base int) bool {
	for i := 0; i < 2000; i++ {
		if runtime.NumGoroutine() <= base {
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

func equal(a, b [][]float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if math.Float64bits(a[i][j]) != math.Float64bits(b[i][j]) {
				return false
			}
		}
	}
	return true
}

func capture(f func()) string {
	tmp, err := os.CreateTemp("", "out")
	if err != nil {
		panic(err)
	}
	defer os.Remove(tmp.Name())
	old := os.Stdout
	os.Stdout = tmp
	func() {
		defer func() { os.Stdout = old }()
		f()
	}()
	tmp.Close()
	b, err := os.ReadFile(tmp.Name())
	if err != nil {
		panic(err)
	}
	return string(b)
}

func (c *Case) baseline() vecs {
	over := map[string]interface{}{}
	for k, x := range c.Opts {
		over[k] = x
	}
	over["Iter"], over["Verbose"] = 0.0, false
	m, err := build(c.Model, over)
	if err != nil {
		panic(err)
	}
	rand.Seed(c.Seed)
	if err := m.Train(&shared.Reader{Data: []byte(shared.B64(c.Text))}); err != nil {
		panic("driver: baseline training failed: " + err.Error())
	}
	return take(m)
}

func handle(raw json.RawMessage, emit func(shared.Ev)) {
	var c Case
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	if c.Op == "paths" {
		paths(&c, emit)
		return
	}
	if c.Op == "trials" {
		trials(&c, emit)
		return
	}
	if c.Op == "history" {
		history(&c, emit)
		return
	}
	if c.Op == "names" {
		named(&c, emit)
		return
	}
	if c.Op == "session" {
		session(&c, emit)
		return
	}
	var v0 vecs
	if c.Basis {
		v0 = c.baseline()
	}
	if c.Serial {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	}
	base := runtime.NumGoroutine()
	m, err := build(c.Model, c.Opts)
	if err != nil {
		emit(shared.Ev{"ev": "New", "err": err.Error()})
		return
	}
	for i := range c.Before {
		rand.Seed(c.Before[i].Seed)
		r := c.Before[i].reader()
		err := m.Train(r)
		emit(shared.Ev{"ev": "Earlier", "err": shared.Err(err), "fired": r.Fired})
	}
	r := c.reader()
	var snaps []vecs
	if c.Snaps {
		r.OnSeek = func(int) {
			if v, ok := try(m); ok {
				snaps = append(snaps, v)
			}
		}
	}
	rand.Seed(c.Seed)
	var first vecs
	var out string
	run := func() {
		err = m.Train(r)
		if err == nil {
			first, _ = try(m)
		}
	}
	if c.Stdout {
		out = capture(run)
	} else {
		run()
	}
	for _, v := range snaps {
		if len(v.w) == len(v0.w) { // taken before the vectors existed
			emit(c.coefs(v0, v))
		}
	}
	leak := false
	if !c.NoLeak {
		leak = !settle(base)
	}
	ev := shared.Ev{"ev": "Return", "err": shared.Err(err), "fired": r.Fired, "leak": leak, "seeks": r.Seeks}
	if c.Stdout {
		ev["stdout"] = out
	}
	if err == nil {
		time.Sleep(time.Duration(c.Calls) * time.Millisecond)
		v := take(m)
		ev["still"] = equal(first.w, v.w) && equal(first.c, v.c)
		ev["rows"] = len(v.w)
		ev["cols"] = 0
		if len(v.w) > 0 {
			ev["cols"] = len(v.w[0])
		}
		ev["finite"] = finite(v)
		if c.Basis {
			k := c.coefs(v0, v)
			k["final"] = true
			emit(k)
		}
		if c.Raw && finite(v) {
			ev["w"], ev["c"] = v.w, v.c
		}
		if c.Basis && c.Raw {
			ev["w0"], ev["c0"] = v0.w, v0.c
		}
	}
	emit(ev)
	if c.Export && err == nil {
		export(m, emit)
	}
}

func finite(v vecs) bool {
	for _, m := range [][][]float64{v.w, v.c} {
		for _, r := range m {
			for _, x := range r {
				if math.IsNaN(x) || math.IsInf(x, 0) {
					return false
				}
			}
		}
	}
	return true
}

// export: copies, independence, and what saving writes
func export(m model.Model, emit func(shared.Ev)) {
	for _, typ := range []vector.Type{vector.Single, vector.Agg} {
		a := m.WordVector(typ)
		before := rows(a)
		again := rows(m.WordVector(typ))
		for i := 0; i < a.Row(); i++ {
			s := a.Slice(i)
			for j := range s {
				s[j] = 12345
			}
		}
		after := rows(m.WordVector(typ))
		other := map[vector.Type]vector.Type{vector.Single: vector.Agg, vector.Agg: vector.Single}[typ]
		_ = m.WordVector(other)
		var buf, buf2 bytes.Buffer
		err := m.Save(&buf, typ)
		err2 := m.Save(&buf2, typ)
		lines := strings.Split(buf.String(), "\n")
		emit(shared.Ev{"ev": "Export", "typ": string(typ), "same": equal(before, again), "unchanged": equal(before, after), "err": shared.Err(err),
			"err2": shared.Err(err2), "lines": lines, "repeat": buf.String() == buf2.String(), "rows": before})
	}
}

// paths: the tree of the text's vocabulary, by parent links
func paths(c *Case, emit func(shared.Ev)) {
	dic := dictionary.New()
	for _, w := range strings.Fields(shared.B64(c.Text)) {
		dic.Add(w)
	}
	idx := map[*node.Node]int{}
	res := [][][2]int{}
	for _, leaf := range dic.HuffnamTree(4) {
		p := [][2]int{}
		for x := leaf; x != nil; x = x.Parent {
			if idx[x] == 0 {
				idx[x] = len(idx) + 1
			}
			p = append([][2]int{{idx[x], x.Code}}, p...)
		}
		res = append(res, p)
	}
	emit(shared.Ev{"ev": "Paths", "paths": res, "nodes": len(idx)})
}

// trials: the sampler by itself, over a dictionary of words of the given frequencies
func trials(c *Case, emit func(shared.Ev)) {
	dic := dictionary.New()
	for i, f := range c.Freq {
		for k := 0; k < f; k++ {
			dic.Add(fmt.Sprintf("w%d", i))
		}
	}
	rand.Seed(c.Seed)
	s := subsample.New(dic, c.Threshold)
	n := len(c.Freq)
	hits, same, next := make([]int, n), make([]int, n), make([]int, n)
	try := func(i int) bool {
		ok := s.Trial(i)
		if ok {
			hits[i]++
		}
		return ok
	}
	for k := 0; k < c.Calls/2; k++ {
		for i := range c.Freq {
			a := try(i)
			if b := try(i); a && b {
				same[i]++
			}
		}
	}
	for k := 0; k < c.Calls/2; k++ {
		for i := range c.Freq {
			a := s.Trial(i)
			if b := s.Trial((i + 1) % n); a && b {
				next[i]++
			}
		}
	}
	emit(shared.Ev{"ev": "Trials", "freq": c.Freq, "n": c.Calls / 2 * 2, "hits": hits, "same": same, "next": next})
}

func sixes(m [][]float64) [][]string {
	res := [][]string{}
	for _, r := range m {
		x := []string{}
		for _, v := range r {
			x = append(x, fmt.Sprintf("%f", v))
		}
		res = append(res, x)
	}
	return res
}

func bits(m [][]float64) string {
	h := sha256.New()
	for _, r := range m {
		binary.Write(h, binary.LittleEndian, r)
	}
	return hex.EncodeToString(h.Sum(nil)[:12])
}

// history: training, asking for vectors, changing what was returned, saving
func history(c *Case, emit func(shared.Ev)) {
	m, err := build(c.Model, c.Opts)
	if err != nil {
		panic(err)
	}
	var mats []*matrix.Matrix
	for _, s := range c.Hist {
		switch s.Op {
		case "train", "fail":
			rand.Seed(s.Seed)
			r := s.reader()
			err := m.Train(r)
			emit(shared.Ev{"ev": "Trained", "err": shared.Err(err), "fired": r.Fired})
		case "vectors":
			a := m.WordVector(vector.Type(s.Typ))
			mats = append(mats, a)
			x := rows(a)
			emit(shared.Ev{"ev": "Vectors", "typ": s.Typ, "rows": sixes(x), "bits": bits(x)})
		case "scribble":
			a := mats[len(mats)-1]
			for i := 0; i < a.Row(); i++ {
				v := a.Slice(i)
				for j := range v {
					v[j] = v[j]*3 + 17
				}
			}
			emit(shared.Ev{"ev": "Scribble"})
		case "save":
			var buf bytes.Buffer
			err := m.Save(&buf, vector.Type(s.Typ))
			lines := [][]string{}
			for _, l := range strings.Split(strings.TrimSuffix(buf.String(), "\n"), "\n") {
				if buf.Len() > 0 {
					lines = append(lines, strings.Split(strings.TrimRight(l, " "), " "))
				}
			}
			emit(shared.Ev{"ev": "Save", "typ": s.Typ, "err": shared.Err(err), "lines": lines})
		}
	}
}

// named: does training with these names succeed, and what does saving with other vector types do
func named(c *Case, emit func(shared.Ev)) {
	saves := []shared.Ev{}
	m, err := build(c.Model, c.Opts)
	if err == nil {
		rand.Seed(c.Seed)
		err = m.Train(c.reader())
	}
	if err == nil {
		for _, s := range c.Hist {
			var buf bytes.Buffer
			err := m.Save(&buf, vector.Type(s.Typ))
			saves = append(saves, shared.Ev{"typ": s.Typ, "err": shared.Err(err), "n": buf.Len()})
		}
	}
	emit(shared.Ev{"ev": "Named", "err": shared.Err(err), "saves": saves})
}

// session: a training and saves, with what they print
func session(c *Case, emit func(shared.Ev)) {
	m, err := build(c.Model, c.Opts)
	if err != nil {
		emit(shared.Ev{"ev": "New", "err": err.Error()})
		return
	}
	rand.Seed(c.Seed)
	r := c.reader()
	out := capture(func() { err = m.Train(r) })
	ev := shared.Ev{"ev": "Reports", "err": shared.Err(err), "fired": r.Fired, "stdout": out}
	if err != nil {
		emit(ev)
		return
	}
	v := take(m)
	ev["bits"] = bits(v.w) + bits(v.c)
	emit(ev)
	for _, s := range c.Hist {
		var buf bytes.Buffer
		out := capture(func() { err = m.Save(&buf, vector.Type(s.Typ)) })
		h := sha256.Sum256(buf.Bytes())
		emit(shared.Ev{"ev": "Saved", "err": shared.Err(err), "stdout": out, "bytes": hex.EncodeToString(h[:12])})
	}
}

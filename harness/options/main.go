// Conformance driver for settings: command-line flags and functional options.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"strings"

	"github.com/spf13/cobra"
	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/glove"
	"github.com/ynqa/wego/pkg/model/lexvec"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/pkg/model/word2vec"
	"github.com/ynqa/wego/zzverif/shared"
)

type Setting struct {
	Name string `json:"name"`
	Val  string `json:"val"`
}

type Case struct {
	Op    string    `json:"op"` // defaults, flags, options, effect
	Model string    `json:"model"`
	Args  []string  `json:"args"`
	Sets  []Setting `json:"sets"`
	Text  string    `json:"text"`
}

func main() { shared.Loop(handle) }

func dump(o interface{}) map[string]string {
	v := reflect.ValueOf(o)
	res := map[string]string{}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		s := ""
		switch f.Kind() {
		case reflect.Float64:
			s = strconv.FormatFloat(f.Float(), 'g', -1, 64)
		default:
			s = fmt.Sprint(f.Interface())
		}
		res[v.Type().Field(i).Name] = s
	}
	return res
}

func pairs(m map[string]string) [][2]string {
	res := [][2]string{}
	for k, v := range m {
		res = append(res, [2]string{k, v})
	}
	return res
}

func i(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		panic(err)
	}
	return n
}

func f(s string) float64 {
	x, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(err)
	}
	return x
}

func w2v(s Setting) word2vec.ModelOption {
	switch s.Name {
	case "BatchSize":
		return word2vec.BatchSize(i(s.Val))
	case "DocInMemory":
		return word2vec.DocInMemory()
	case "Goroutines":
		return word2vec.Goroutines(i(s.Val))
	case "Dim":
		return word2vec.Dim(i(s.Val))
	case "Initlr":
		return word2vec.Initlr(f(s.Val))
	case "Iter":
		return word2vec.Iter(i(s.Val))
	case "LogBatch":
		return word2vec.LogBatch(i(s.Val))
	case "MaxCount":
		return word2vec.MaxCount(i(s.Val))
	case "MaxDepth":
		return word2vec.MaxDepth(i(s.Val))
	case "MinCount":
		return word2vec.MinCount(i(s.Val))
	case "MinLR":
		return word2vec.MinLR(f(s.Val))
	case "Model":
		return word2vec.Model(s.Val)
	case "NegativeSampleSize":
		return word2vec.NegativeSampleSize(i(s.Val))
	case "Optimizer":
		return word2vec.Optimizer(s.Val)
	case "SubsampleThreshold":
		return word2vec.SubsampleThreshold(f(s.Val))
	case "ToLower":
		return word2vec.ToLower()
	case "UpdateLRBatch":
		return word2vec.UpdateLRBatch(i(s.Val))
	case "Verbose":
		return word2vec.Verbose()
	case "Window":
		return word2vec.Window(i(s.Val))
	}
	panic("driver: option " + s.Name)
}

func glv(s Setting) glove.ModelOption {
	switch s.Name {
	case "Alpha":
		return glove.Alpha(f(s.Val))
	case "BatchSize":
		return glove.BatchSize(i(s.Val))
	case "DocInMemory":
		return glove.DocInMemory()
	case "Goroutines":
		return glove.Goroutines(i(s.Val))
	case "Dim":
		return glove.Dim(i(s.Val))
	case "Initlr":
		return glove.Initlr(f(s.Val))
	case "Iter":
		return glove.Iter(i(s.Val))
	case "MaxCount":
		return glove.MaxCount(i(s.Val))
	case "MinCount":
		return glove.MinCount(i(s.Val))
	case "Solver":
		return glove.Solver(s.Val)
	case "SubsampleThreshold":
		return glove.SubsampleThreshold(f(s.Val))
	case "ToLower":
		return glove.ToLower()
	case "Verbose":
		return glove.Verbose()
	case "Window":
		return glove.Window(i(s.Val))
	case "Xmax":
		return glove.Xmax(i(s.Val))
	}
	panic("driver: option " + s.Name)
}

func lex(s Setting) lexvec.ModelOption {
	switch s.Name {
	case "BatchSize":
		return lexvec.BatchSize(i(s.Val))
	case "DocInMemory":
		return lexvec.DocInMemory()
	case "Goroutines":
		return lexvec.Goroutines(i(s.Val))
	case "Dim":
		return lexvec.Dim(i(s.Val))
	case "Initlr":
		return lexvec.Initlr(f(s.Val))
	case "Iter":
		return lexvec.Iter(i(s.Val))
	case "LogBatch":
		return lexvec.LogBatch(i(s.Val))
	case "MaxCount":
		return lexvec.MaxCount(i(s.Val))
	case "MinCount":
		return lexvec.MinCount(i(s.Val))
	case "MinLR":
		return lexvec.MinLR(f(s.Val))
	case "NegativeSampleSize":
		return lexvec.NegativeSampleSize(i(s.Val))
	case "Relation":
		return lexvec.Relation(s.Val)
	case "Smooth":
		return lexvec.Smooth(f(s.Val))
	case "SubsampleThreshold":
		return lexvec.SubsampleThreshold(f(s.Val))
	case "ToLower":
		return lexvec.ToLower()
	case "UpdateLRBatch":
		return lexvec.UpdateLRBatch(i(s.Val))
	case "Verbose":
		return lexvec.Verbose()
	case "Window":
		return lexvec.Window(i(s.Val))
	}
	panic("driver: option " + s.Name)
}

func flags(name string, args []string) (map[string]string, error) {
	cmd := &cobra.Command{}
	var err error
	switch name {
	case "word2vec":
		var o word2vec.Options
		word2vec.LoadForCmd(cmd, &o)
		err = cmd.ParseFlags(args)
		return dump(o), err
	case "glove":
		var o glove.Options
		glove.LoadForCmd(cmd, &o)
		err = cmd.ParseFlags(args)
		return dump(o), err
	}
	var o lexvec.Options
	lexvec.LoadForCmd(cmd, &o)
	err = cmd.ParseFlags(args)
	return dump(o), err
}

func options(name string, sets []Setting) map[string]string {
	switch name {
	case "word2vec":
		o := word2vec.DefaultOptions()
		for _, s := range sets {
			w2v(s)(&o)
		}
		return dump(o)
	case "glove":
		o := glove.DefaultOptions()
		for _, s := range sets {
			glv(s)(&o)
		}
		return dump(o)
	}
	o := lexvec.DefaultOptions()
	for _, s := range sets {
		lex(s)(&o)
	}
	return dump(o)
}

func build(name string, sets []Setting) (model.Model, error) {
	switch name {
	case "word2vec":
		var o []word2vec.ModelOption
		for _, s := range sets {
			o = append(o, w2v(s))
		}
		return word2vec.New(o...)
	case "glove":
		var o []glove.ModelOption
		for _, s := range sets {
			o = append(o, glv(s))
		}
		return glove.New(o...)
	}
	var o []lexvec.ModelOption
	for _, s := range sets {
		o = append(o, lex(s))
	}
	return lexvec.New(o...)
}

func capture(fn func()) string {
	tmp, err := os.CreateTemp("", "out")
	if err != nil {
		panic(err)
	}
	defer os.Remove(tmp.Name())
	old := os.Stdout
	os.Stdout = tmp
	func() {
		defer func() { os.Stdout = old }()
		fn()
	}()
	tmp.Close()
	b, err := os.ReadFile(tmp.Name())
	if err != nil {
		panic(err)
	}
	return string(b)
}

func handle(raw json.RawMessage, emit func(shared.Ev)) {
	var c Case
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	switch c.Op {
	case "defaults":
		a, _ := flags(c.Model, nil)
		emit(shared.Ev{"ev": "Defaults", "model": c.Model, "cli": pairs(a), "sdk": pairs(options(c.Model, nil))})
	case "flags":
		o, err := flags(c.Model, c.Args)
		emit(shared.Ev{"ev": "Got", "opts": pairs(o), "err": shared.Err(err)})
	case "options":
		emit(shared.Ev{"ev": "Got", "opts": pairs(options(c.Model, c.Sets)), "err": ""})
	case "effect":
		ev := shared.Ev{"ev": "Effect", "words": []string{}, "cols": []int{}}
		m, err := build(c.Model, c.Sets)
		if err == nil {
			ev["stdout"] = capture(func() { err = m.Train(&shared.Reader{Data: []byte(shared.B64(c.Text))}) })
		}
		ev["err"] = shared.Err(err)
		if err == nil {
			var buf bytes.Buffer
			_ = capture(func() { err = m.Save(&buf, vector.Single) })
			ws, cs := []string{}, []int{}
			for _, l := range strings.Split(strings.TrimSuffix(buf.String(), "\n"), "\n") {
				x := strings.Fields(l)
				if len(x) > 0 {
					ws, cs = append(ws, x[0]), append(cs, len(x)-1)
				}
			}
			ev["words"], ev["cols"] = ws, cs
			ev["rows"] = m.WordVector(vector.Agg).Row()
		}
		emit(ev)
	}
}

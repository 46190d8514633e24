// Conformance driver: builds Huffman trees and looks up paths, also concurrently.
package main

import (
	"encoding/json"
	"fmt"
	"sync"

	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/pkg/corpus/dictionary/node"
	"github.com/ynqa/wego/zzverif/shared"
)

type Case struct {
	Freq    []int    `json:"freq"`
	Dim     int      `json:"dim"`
	Lookups [][2]int `json:"lookups"` // sequential: word, depth
	Threads [][][2]int
	Given   bool `json:"given"`  // the tree itself is not in question
	Repeat  int  `json:"repeat"` // fresh trees for the concurrent lookups
}

type Node struct {
	P int   `json:"p"`
	C int   `json:"c"`
	V int   `json:"v"`
	D int   `json:"d"`
	Z bool  `json:"z"`
	K []int `json:"k"`
}

func main() { shared.Loop(handle) }

func number(leaves []*node.Node) ([]*node.Node, map[*node.Node]int) {
	idx := map[*node.Node]int{}
	var all []*node.Node
	add := func(n *node.Node) bool {
		if _, ok := idx[n]; ok {
			return false
		}
		all = append(all, n)
		idx[n] = len(all)
		return true
	}
	for _, n := range leaves {
		if n == nil {
			panic("nil leaf")
		}
		if !add(n) {
			panic("two words share a leaf")
		}
	}
	for i := 0; i < len(all); i++ {
		if p := all[i].Parent; p != nil {
			add(p)
		}
		if len(all) > 4*len(leaves)+10 {
			break
		}
	}
	return all, idx
}

func describe(leaves []*node.Node) ([]Node, map[*node.Node]int) {
	all, idx := number(leaves)
	res := make([]Node, len(all))
	for i, n := range all {
		res[i] = Node{C: n.Code, V: n.Val, D: len(n.Vector), Z: true, K: []int{}}
		for _, x := range n.Vector {
			if x != 0 {
				res[i].Z = false
			}
		}
		if n.Parent != nil {
			res[i].P = idx[n.Parent]
		}
	}
	for code := 0; code <= 1; code++ {
		for i, n := range all {
			if n.Parent != nil && n.Code == code && idx[n.Parent] > 0 {
				p := idx[n.Parent] - 1
				res[p].K = append(res[p].K, i+1)
			}
		}
	}
	for _, n := range all { // children with another code
		if n.Parent != nil && n.Code != 0 && n.Code != 1 {
			p := idx[n.Parent] - 1
			res[p].K = append(res[p].K, 0)
		}
	}
	return res, idx
}

func path(idx map[*node.Node]int, ns []*node.Node) []int {
	res := []int{}
	for _, n := range ns {
		res = append(res, idx[n])
	}
	return res
}

func handle(raw json.RawMessage, emit func(shared.Ev)) {
	var c Case
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	dic := dictionary.New()
	for i := range c.Freq {
		dic.Add(fmt.Sprintf("w%d", i))
	}
	for i, f := range c.Freq {
		w := fmt.Sprintf("w%d", i)
		for k := 1; k < f; k++ {
			dic.Add(w)
		}
	}
	leaves := dic.HuffnamTree(c.Dim)
	if len(leaves) != len(c.Freq) {
		panic(fmt.Sprintf("%d leaves for %d words", len(leaves), len(c.Freq)))
	}
	nodes, idx := describe(leaves)
	again, _ := describe(dic.HuffnamTree(c.Dim))
	name := "Tree"
	if c.Given {
		name = "Given"
	}
	emit(shared.Ev{"ev": name, "freq": nz(c.Freq), "dim": c.Dim, "nodes": nodes, "again": fmt.Sprint(nodes) == fmt.Sprint(again)})
	if len(c.Lookups) > 0 {
		res := [][]interface{}{}
		for _, q := range c.Lookups {
			res = append(res, []interface{}{q[0], q[1], path(idx, leaves[q[0]].GetPath(q[1]))})
		}
		emit(shared.Ev{"ev": "Paths", "lookups": res})
	}
	if len(c.Threads) > 0 {
		seen := map[string]bool{}
		res, shape := [][]interface{}{}, fmt.Sprint(nodes)
		for rep := 0; rep < c.Repeat; rep++ {
			leaves := dic.HuffnamTree(c.Dim)
			now, idx := describe(leaves)
			if s := fmt.Sprint(now); s != shape {
				if len(res) > 0 {
					emit(shared.Ev{"ev": "Paths", "lookups": res})
				}
				seen, res, shape = map[string]bool{}, [][]interface{}{}, s
				emit(shared.Ev{"ev": "Given", "freq": nz(c.Freq), "dim": c.Dim, "nodes": now})
			}
			var ready, done sync.WaitGroup
			start := make(chan struct{})
			out := make([][][]*node.Node, len(c.Threads))
			crash := make([]interface{}, len(c.Threads))
			for t := range c.Threads {
				ready.Add(1)
				done.Add(1)
				go func(t int) {
					defer done.Done()
					defer func() { crash[t] = recover() }()
					ready.Done()
					<-start
					for _, q := range c.Threads[t] {
						// what this lookup returned, copied at once: later lookups must not change it either
						out[t] = append(out[t], append([]*node.Node{}, leaves[q[0]].GetPath(q[1])...))
					}
				}(t)
			}
			ready.Wait()
			close(start)
			done.Wait()
			for t := range c.Threads {
				if crash[t] != nil {
					panic(fmt.Sprint("concurrent lookup: ", crash[t]))
				}
				for i, q := range c.Threads[t] {
					r := []interface{}{q[0], q[1], path(idx, out[t][i])}
					if k := fmt.Sprint(r); !seen[k] {
						seen[k] = true
						res = append(res, r)
					}
				}
			}
		}
		emit(shared.Ev{"ev": "Paths", "lookups": res})
	}
}

func nz(x []int) []int {
	if x == nil {
		return []int{}
	}
	return x
}

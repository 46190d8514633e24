package main

import (
	"encoding/json"

	"github.com/ynqa/wego/pkg/model/modelutil"
	"github.com/ynqa/wego/zzverif/shared"
)

func main() {
	shared.Loop(func(raw json.RawMessage, emit func(shared.Ev)) {
		var c struct{ N, T int }
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		emit(shared.Ev{"ev": "Split", "n": c.N, "t": c.T, "bounds": append([]int{}, modelutil.IndexPerThread(c.T, c.N)...)})
	})
}

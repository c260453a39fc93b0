// replay runs recorded inputs through harnesses compiled against the real code.
package main

import (
	"encoding/json"
	"fmt"
	"os"

	"verif/harness/vp"
)

type ndval struct {
	Name string `json:"name"`
	Val  int64  `json:"val"`
}

type cas struct {
	Harness string  `json:"harness"`
	Args    []int   `json:"args"`
	Values  []ndval `json:"values"`
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(6)
	}
	var cs []cas
	if err := json.Unmarshal(b, &cs); err != nil {
		var c cas
		if err := json.Unmarshal(b, &c); err != nil {
			fmt.Println(err)
			os.Exit(6)
		}
		cs = []cas{c}
	}
	for _, c := range cs {
		f := vp.Funcs[c.Harness]
		if f == nil {
			fmt.Println("no harness", c.Harness)
			os.Exit(6)
		}
		var ns []string
		var vs []int64
		for _, v := range c.Values {
			ns = append(ns, v.Name)
			vs = append(vs, v.Val)
		}
		vp.Load(ns, vs)
		f(c.Args)
		fmt.Print("OBS")
		for _, o := range vp.Observed() {
			fmt.Print(" ", o)
		}
		fmt.Println()
	}
}

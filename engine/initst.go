package main

// Package initialisation, executed concretely once.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

var stdInit = map[string]bool{"sort": true, "slices": true, "cmp": true, "maps": true, "strconv": true, "unicode/utf8": true,
	"math/bits": true, "math": true, "container/heap": true, "container/list": true, "container/ring": true, "iter": false,
	"bytes": true, "strings": true}

func wantInit(path string) bool {
	return strings.HasPrefix(path, "verif/") || strings.HasPrefix(path, repoPrefix) ||
		strings.HasPrefix(path, "golang.org/x/exp") || strings.HasPrefix(path, "github.com/segmentio") || stdInit[path]
}

func initState(ex *Explorer) *State {
	run := &Run{harness: "init", notes: map[string]int{}, inconc: map[string]int{}}
	ex.run = run
	st := &State{id: newStateID(), w: ex.workers[0], run: run, model: Model{}}
	var pkgs []*ssa.Package
	seen := map[string]bool{}
	var visit func(p *ssa.Package)
	visit = func(p *ssa.Package) {
		if seen[p.Pkg.Path()] {
			return
		}
		seen[p.Pkg.Path()] = true
		for _, i := range p.Pkg.Imports() {
			if q := prog.Package(i); q != nil {
				visit(q)
			}
		}
		pkgs = append(pkgs, p)
	}
	for _, p := range prog.AllPackages() {
		visit(p)
	}
	for _, p := range pkgs {
		f := p.Func("init")
		if f == nil {
			continue
		}
		if !wantInit(p.Pkg.Path()) {
			intrinsics[f.String()] = retNone
		}
	}
	for _, p := range pkgs {
		if !wantInit(p.Pkg.Path()) {
			continue
		}
		f := p.Func("init")
		if f == nil {
			continue
		}
		st.frames = nil
		st.pushFrame(getFn(f).ready(), nil, nil, -1)
		func() {
			defer func() {
				if r := recover(); r != nil {
					logf("init of %s: %v", p.Pkg.Path(), r)
					st.merge = false
				}
			}()
			st.exec(nil)
		}()
	}
	st.frames = nil
	st.steps = 0
	return st
}

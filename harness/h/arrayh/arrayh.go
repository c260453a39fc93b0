// Package arrayh checks the 2D array.
package arrayh

import (
	"github.com/zyedidia/generic/array2d"
	"verif/harness/vp"
)

func init() {
	vp.Register("arrayh.Cells", Cells)
	vp.Register("arrayh.Bounds", Bounds)
	vp.Register("arrayh.Hist", Hist)
	vp.Register("arrayh.Fill", Fill)
	vp.Register("arrayh.Rows", Rows)
	vp.Register("arrayh.Jagged", Jagged)
	vp.Register("arrayh.Copies", Copies)
	vp.Register("arrayh.BigFill", BigFill)
}

type arr = array2d.Array2D[int]

type pair struct {
	a    arr
	w, h int
	m    []int // row by row
}

func (p *pair) at(x, y int) int { return p.m[y*p.w+x] }

func (p *pair) check() {
	vp.Assert(p.a.Width() == p.w && p.a.Height() == p.h, "Width and Height are as given")
	good := true
	for y := 0; y < p.h; y++ {
		for x := 0; x < p.w; x++ {
			good = vp.And(good, p.a.Get(x, y) == p.at(x, y))
		}
	}
	vp.Assert(good, "every cell has its last value")
}

func (p *pair) rows() {
	for y := 0; y < p.h; y++ {
		p.span(p.a.Row(y), 0, p.w-1, y, "Row is the row")
	}
}

func (p *pair) span(s []int, x1, x2, y int, msg string) {
	if x2 < x1 {
		x1, x2 = x2, x1
	}
	if p.w == 0 {
		vp.Assert(len(s) == 0, msg)
		return
	}
	vp.Assert(len(s) == x2-x1+1, msg)
	good := true
	for i := range s {
		good = vp.And(good, s[i] == p.at(x1+i, y))
	}
	vp.Assert(good, msg)
}

// zero is a new array of any shape up to w by h.
func zero(w, h int) *pair {
	p := &pair{w: vp.Choose("w", w+1), h: vp.Choose("h", h+1)}
	p.m = make([]int, p.w*p.h)
	if vp.Choose("filled", 2) == 1 {
		v := vp.Int("fill")
		for i := range p.m {
			p.m[i] = v
		}
		p.a = array2d.NewFilled(p.w, p.h, v)
	} else {
		p.a = array2d.New[int](p.w, p.h)
	}
	return p
}

// full is an array of shape w by h with arbitrary content.
func full(w, h int) *pair {
	p := &pair{w: w, h: h, m: make([]int, w*h)}
	p.a = array2d.New[int](w, h)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			v := vp.Int("cell")
			p.m[y*w+x] = v
			p.a.Set(x, y, v)
		}
	}
	return p
}

func in(x, n int) bool { return vp.And(x >= 0, x < n) }

// Cells: every shape up to args[0] by args[1]: new, filled, and writing every cell.
func Cells(args []int) {
	p := zero(args[0], args[1])
	p.check()
	p.rows()
	q := full(p.w, p.h)
	q.check()
	q.rows()
	p.check()
	vp.Reach()
}

// Bounds: arbitrary 64-bit coordinates.
func Bounds(args []int) {
	p := full(vp.Choose("w", args[0]+1), vp.Choose("h", args[1]+1))
	x, y := vp.Int("x"), vp.Int("y")
	ok := vp.And(in(x, p.w), in(y, p.h))
	switch vp.Choose("op", 5) {
	case 0:
		v := 0
		vp.Assert(vp.Panics(func() { v = p.a.Get(x, y) }) == !ok, "Get panics exactly out of range")
		if ok {
			vp.Assert(v == p.at(vp.Concrete(x), vp.Concrete(y)), "Get returns the cell")
		}
	case 1:
		v := vp.Int("v")
		vp.Assert(vp.Panics(func() { p.a.Set(x, y, v) }) == !ok, "Set panics exactly out of range")
		if ok {
			p.m[vp.Concrete(y)*p.w+vp.Concrete(x)] = v
		}
	case 2:
		ok = in(y, p.h)
		vp.Assert(vp.Panics(func() { p.a.Row(y) }) == !ok, "Row panics exactly out of range")
	case 3:
		x2 := vp.Int("x2")
		ok = vp.And(ok, in(x2, p.w))
		var s []int
		vp.Assert(vp.Panics(func() { s = p.a.RowSpan(x, x2, y) }) == !ok, "RowSpan panics exactly out of range")
		if ok {
			p.span(s, vp.Concrete(x), vp.Concrete(x2), vp.Concrete(y), "RowSpan is the named part of the row")
		}
	case 4:
		x2, y2 := vp.Int("x2"), vp.Int("y2")
		ok = vp.And(ok, vp.And(in(x2, p.w), in(y2, p.h)))
		v := vp.Int("v")
		vp.Assert(vp.Panics(func() { p.a.Fill(x, y, x2, y2, v) }) == !ok, "Fill panics exactly out of range")
		if ok {
			p.fill(vp.Concrete(x), vp.Concrete(y), vp.Concrete(x2), vp.Concrete(y2), v)
		}
	}
	p.check()
	vp.Reach()
}

func (p *pair) fill(x1, y1, x2, y2, v int) {
	if x2 < x1 {
		x1, x2 = x2, x1
	}
	if y2 < y1 {
		y1, y2 = y2, y1
	}
	for y := y1; y <= y2; y++ {
		for x := x1; x <= x2; x++ {
			p.m[y*p.w+x] = v
		}
	}
}

// step is one write: a cell, a rectangle, or through a row slice.
func (p *pair) step() {
	x, y := vp.Choose("x", p.w), vp.Choose("y", p.h)
	v := vp.Int("v")
	switch vp.Choose("op", 4) {
	case 0:
		p.a.Set(x, y, v)
		p.m[y*p.w+x] = v
	case 1:
		x2, y2 := vp.Choose("x2", p.w), vp.Choose("y2", p.h)
		p.a.Fill(x, y, x2, y2, v)
		p.fill(x, y, x2, y2, v)
	case 2:
		p.a.Row(y)[x] = v
		p.m[y*p.w+x] = v
	case 3:
		x2 := vp.Choose("x2", p.w)
		s := p.a.RowSpan(x, x2, y)
		for i := range s {
			s[i] = v + i
		}
		if x2 < x {
			x, x2 = x2, x
		}
		for i := x; i <= x2; i++ {
			p.m[y*p.w+i] = v + i - x
		}
	}
}

// Hist: any shape from 1x1 to args[0] by args[1], args[2] writes of all kinds.
func Hist(args []int) {
	p := full(1+vp.Choose("w", args[0]), 1+vp.Choose("h", args[1]))
	for i := 0; i < args[2]; i++ {
		p.step()
		p.check()
	}
	p.rows()
	vp.Reach()
}

// Fill: any shape up to args[0] by args[1], any rectangle, corners in any order.
func Fill(args []int) {
	p := full(1+vp.Choose("w", args[0]), 1+vp.Choose("h", args[1]))
	x1, y1 := vp.Choose("x1", p.w), vp.Choose("y1", p.h)
	x2, y2 := vp.Choose("x2", p.w), vp.Choose("y2", p.h)
	v := vp.Int("v")
	p.a.Fill(x1, y1, x2, y2, v)
	p.fill(x1, y1, x2, y2, v)
	p.check()
	vp.Reach()
}

// BigFill: shapes args[0] by args[1] exactly, wide rectangles, then another one on top.
func BigFill(args []int) {
	p := &pair{w: args[0], h: args[1], m: make([]int, args[0]*args[1])}
	v := vp.Int("all")
	p.a = array2d.NewFilled(p.w, p.h, v)
	p.fill(0, 0, p.w-1, p.h-1, v)
	p.check()
	for i := 0; i < 2; i++ {
		x1 := vp.Choose("x1", p.w)
		x2 := x1 + vp.Choose("wide", p.w-x1)
		y1 := vp.Choose("y1", 2) * (p.h - 1)
		y2 := vp.Choose("y2", 2) * (p.h / 2)
		v := vp.Int("v")
		if vp.Choose("swap", 2) == 1 {
			p.a.Fill(x2, y1, x1, y2, v)
		} else {
			p.a.Fill(x1, y2, x2, y1, v)
		}
		p.fill(x1, y1, x2, y2, v)
		p.check()
		if args[2] == 0 {
			break
		}
	}
	vp.Reach()
}

// Rows: slices of rows taken before writes see them, and writes through them are seen.
func Rows(args []int) {
	p := full(1+vp.Choose("w", args[0]), 1+vp.Choose("h", args[1]))
	y := vp.Choose("y", p.h)
	x1, x2 := vp.Choose("x1", p.w), vp.Choose("x2", p.w)
	r := p.a.Row(y)
	s := p.a.RowSpan(x1, x2, y)
	p.span(r, 0, p.w-1, y, "Row is the row")
	p.span(s, x1, x2, y, "RowSpan is the named part of the row")
	p.step()
	p.span(r, 0, p.w-1, y, "a row slice sees later writes")
	p.span(s, x1, x2, y, "a row span sees later writes")
	for i := range s {
		s[i] = vp.Int("s")
		p.m[y*p.w+min(x1, x2)+i] = s[i]
	}
	p.check()
	p.span(r, 0, p.w-1, y, "a row slice sees writes through a span")
	for i := range r {
		r[i] = vp.Int("r")
		p.m[y*p.w+i] = r[i]
	}
	p.check()
	p.span(s, x1, x2, y, "a span sees writes through the row")
	vp.Reach()
}

// Jagged: any shape up to args[0] by args[1], any jagged input of up to args[2] rows of
// up to args[3] values.
func Jagged(args []int) {
	w, h := vp.Choose("w", args[0]+1), vp.Choose("h", args[1]+1)
	var j [][]int
	n := vp.Choose("rows", args[2]+1)
	for i := 0; i < n; i++ {
		r := make([]int, vp.Choose("len", args[3]+1))
		for k := range r {
			r[k] = vp.Int("j")
		}
		if len(r) == 0 {
			r = nil
		}
		j = append(j, r)
	}
	p := &pair{a: array2d.OfJagged(w, h, j), w: w, h: h, m: make([]int, w*h)}
	for y := 0; y < h && y < len(j); y++ {
		for x := 0; x < w && x < len(j[y]); x++ {
			p.m[y*w+x] = j[y][x]
		}
	}
	p.check()
	p.rows()
	// the array does not share the input
	for _, r := range j {
		for k := range r {
			r[k] = -1
		}
	}
	p.check()
	vp.Reach()
}

// Copies: any shape up to args[0] by args[1], args[2] steps on or copies of any array.
func Copies(args []int) {
	p := full(1+vp.Choose("w", args[0]), 1+vp.Choose("h", args[1]))
	row := p.a.Row(p.h - 1)
	ps := []*pair{p}
	for i := 0; i < args[2]; i++ {
		w := ps[vp.Choose("who", len(ps))]
		if i == 0 || (i < 3 && vp.Choose("copy", 2) == 1) {
			ps = append(ps, &pair{w.a.Copy(), w.w, w.h, append([]int(nil), w.m...)})
		} else {
			w.step()
		}
		for _, x := range ps {
			x.check()
		}
	}
	for i := range row {
		row[i] = -4
		p.m[(p.h-1)*p.w+i] = -4
	}
	for _, x := range ps {
		x.check()
		x.rows()
	}
	e := (&pair{}).a.Copy()
	vp.Assert(e.Width() == 0 && e.Height() == 0, "a copy of a zero array is one")
	vp.Reach()
}

// Package trieh checks the ternary search trie.
package trieh

import (
	"github.com/zyedidia/generic/trie"
	"verif/harness/hl"
	"verif/harness/vp"
)

func init() {
	vp.Register("trieh.Mill", Mill)
	vp.Register("trieh.Hist", Hist)
	vp.Register("trieh.PreHist", PreHist)
	vp.Register("trieh.Built", Built)
	vp.Register("trieh.PreBuilt", PreBuilt)
	vp.Register("trieh.Scale", Scale)
	vp.Register("trieh.PreScale", PreScale)
}

type pair struct {
	t   *trie.Trie[int]
	log *hl.Log[string]
	old [][]string // keys returned earlier, with copies
	was [][]string
}

func start() *pair {
	return &pair{t: trie.New[int](), log: &hl.Log[string]{Eq: func(a, b string) bool { return a == b }}}
}

func (p *pair) put(k string, v int) {
	p.t.Put(k, v)
	if len(k) > 0 {
		p.log.DoPut(k, v)
	}
}

func (p *pair) remove(k string) {
	p.t.Remove(k)
	if len(k) > 0 {
		p.log.DoRemove(k)
	}
}

func (p *pair) size() {
	vp.Assert(p.t.Size() == p.log.Size(), "Size is the number of keys")
}

func (p *pair) get(q string) {
	v, ok := p.t.Get(q)
	mv, mok := p.log.Get(q)
	vp.Assert(ok == mok, "Get finds exactly the keys present")
	vp.Assert(v == mv, "Get returns the last value, or zero")
	vp.Assert(p.t.Contains(q) == mok, "Contains finds exactly the keys present")
}

func hasPrefix(k, pre string) bool {
	return len(k) >= len(pre) && k[:len(pre)] == pre
}

func less(a, b string) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := len(a) < len(b)
	for i := n - 1; i >= 0; i-- {
		r = vp.Or(a[i] < b[i], vp.And(a[i] == b[i], r))
	}
	return r
}

// listed asserts that ks are exactly the keys present with the prefix, ascending.
func (p *pair) listed(ks []string, pre string) {
	for i, k := range ks {
		_, ok := p.log.Get(k)
		vp.Assert(ok, "a listed key is present")
		vp.Assert(hasPrefix(k, pre), "a listed key has the prefix")
		if i > 0 {
			vp.Assert(less(ks[i-1], k), "listed keys ascend strictly")
		}
	}
	n := 0
	l := p.log
	for i := range l.K {
		if !l.Put[i] {
			continue
		}
		last := true
		for j := i + 1; j < len(l.K); j++ {
			last = vp.And(last, l.K[i] != l.K[j])
		}
		n += vp.B2I(vp.And(last, hasPrefix(l.K[i], pre)))
	}
	vp.Assert(len(ks) == n, "every key with the prefix is listed")
}

func (p *pair) keys() {
	ks := p.t.Keys()
	p.listed(ks, "")
	p.hold(ks)
}

// hold remembers returned keys; they must never change.
func (p *pair) hold(ks []string) {
	var c []string
	for _, k := range ks {
		c = append(c, string([]byte(k)))
	}
	p.old = append(p.old, ks)
	p.was = append(p.was, c)
}

func (p *pair) held() {
	for i := range p.old {
		vp.Assert(len(p.old[i]) == len(p.was[i]), "returned keys stay valid")
		for j := range p.was[i] {
			vp.Assert(p.old[i][j] == p.was[i][j], "returned keys stay valid")
		}
	}
}

func (p *pair) prefix(q string) {
	ks := p.t.KeysWithPrefix(q)
	p.listed(ks, q)
	p.hold(ks)
}

func (p *pair) longest(q string) {
	r := p.t.LongestPrefix(q)
	vp.Assert(hasPrefix(q, r), "LongestPrefix returns a prefix of the query")
	if len(r) > 0 {
		_, ok := p.log.Get(r)
		vp.Assert(ok, "LongestPrefix returns a stored key")
	}
	for n := len(r) + 1; n <= len(q); n++ {
		_, ok := p.log.Get(q[:n])
		vp.Assert(vp.Not(ok), "no longer prefix of the query is stored")
	}
}

// history runs n operations on keys of up to l arbitrary bytes.
func (p *pair) history(n, l int) {
	for i := 0; i < n; i++ {
		k := vp.Str("k", vp.Choose("len", l+1))
		if vp.Choose("op", 2) == 0 {
			p.put(k, vp.Int("v"))
		} else {
			p.remove(k)
		}
	}
}

// Hist: args[0] operations on arbitrary strings of up to args[1] bytes, then any query; with
// args[2] an arbitrary lookup after every operation.
func Hist(args []int) {
	p := start()
	for i := 0; i < args[0]; i++ {
		p.history(1, args[1])
		p.size()
		if args[2] == 1 && i < args[0]-1 {
			p.get(vp.Str("q", args[1]))
		}
	}
	p.get(vp.Str("q", vp.Choose("qlen", args[1]+2)))
	vp.Observe(p.t.Size())
	vp.Reach()
}

// PreHist: the same for the prefix queries, with queries of up to args[2] bytes; with
// args[3] every query is also asked after every operation.
func PreHist(args []int) {
	p := start()
	for i := 0; i < args[0]; i++ {
		p.history(1, args[1])
		if args[3] == 1 && i < args[0]-1 {
			p.keys()
			if args[2] > 0 {
				p.prefix(vp.Str("q", 1))
			}
			p.longest(vp.Str("q", args[2]))
		}
	}
	switch vp.Choose("query", 3) {
	case 0:
		p.keys()
	case 1:
		p.prefix(vp.Str("q", vp.Choose("qlen", args[2]+1)))
	case 2:
		p.longest(vp.Str("q", vp.Choose("qlen", args[2]+1)))
	}
	vp.Observe(p.t.Size())
	vp.Reach()
}

// words builds sets of keys that exercise siblings, chains and prefixes.
func words(kind, n int) []string {
	var out []string
	switch kind {
	case 0: // one level, every sibling order
		for _, r := range hl.Order(n, vp.Choose("order", 6)) {
			out = append(out, string([]byte{byte(10 + 20*r)}))
		}
	case 1: // two levels under one parent that is itself a key
		out = append(out, "m")
		for _, r := range hl.Order(n, vp.Choose("order", 6)) {
			out = append(out, string([]byte{'m', byte(10 + 20*r)}))
		}
	case 2: // prefixes of one word, and branches off it
		w := "abacabad"
		for _, r := range hl.Order(n, vp.Choose("order", 4)) {
			if r < len(w) {
				out = append(out, w[:r+1])
			} else {
				out = append(out, w[:r-len(w)]+"b!")
			}
		}
	case 3: // one level shaped by a complete tree, with children below
		s := hl.Full(3)
		for i, r := range s.LevelOrder() {
			if i < n {
				out = append(out, string([]byte{byte(20 + 30*r)}))
			}
		}
		out = append(out, string([]byte{20 + 30*5, 'x'}), string([]byte{20 + 30*3, 'y'}), string([]byte{20 + 30*5, 'x', 'y'}))
	}
	return out
}

func (p *pair) build(kind, n int) {
	for i, w := range words(kind, n) {
		p.put(w, 1000+i)
	}
	p.size()
}

// Built: keys of kind args[0] (args[1] of them), then args[2] operations on present or
// arbitrary keys of up to args[3] bytes, then any query.
func Built(args []int) {
	p := start()
	p.build(args[0], args[1])
	for i := 0; i < args[2]; i++ {
		p.some(args[3])
		p.size()
	}
	p.get(vp.Str("q", vp.Choose("qlen", args[3]+1)))
	for _, k := range p.log.K {
		p.get(k)
	}
	vp.Reach()
}

// some is an operation on a present or an arbitrary key.
func (p *pair) some(l int) {
	if vp.Choose("known", 2) == 0 {
		p.remove(p.log.K[vp.Choose("w", len(p.log.K))])
		return
	}
	k := vp.Str("k", vp.Choose("len", l+1))
	if vp.Choose("op", 2) == 0 {
		p.put(k, vp.Int("v"))
	} else {
		p.remove(k)
	}
}

// PreBuilt: the same for the prefix queries.
func PreBuilt(args []int) {
	p := start()
	p.build(args[0], args[1])
	p.keys()
	for i := 0; i < args[2]; i++ {
		p.some(args[3])
	}
	p.held()
	p.keys()
	switch vp.Choose("query", 2) {
	case 0:
		p.prefix(vp.Str("q", vp.Choose("qlen", args[3]+1)))
	case 1:
		q := vp.Str("q", vp.Choose("qlen", args[3]+1))
		switch vp.Choose("tail", 3) {
		case 1:
			q = "abacabad" + q
		case 2:
			q = "m" + q
		}
		p.longest(q)
	}
	p.put("zz", 1)
	p.remove("m")
	p.remove("ab")
	p.t.KeysWithPrefix("z")
	p.held()
	vp.Reach()
}

// tree of words over an alphabet of w letters, up to d long: 0 in order, 1 reversed, else
// shuffled.
func lexicon(w, d, mode int) []string {
	all := []string{""}
	from := 0
	for i := 0; i < d; i++ {
		to := len(all)
		for ; from < to; from++ {
			for c := 0; c < w; c++ {
				all = append(all, all[from]+string([]byte{byte(40 + 30*c)}))
			}
		}
	}
	all = all[1:]
	var out []string
	for _, i := range hl.Order(len(all), mode) {
		out = append(out, all[i])
	}
	return out
}

// scaled builds a trie of all words over args[0] letters up to args[1] long, in one of the
// orders, removes some, and puts some again with an arbitrary value.
func scaled(args []int) (*trie.Trie[int], map[string]int, []string, int) {
	words := lexicon(args[0], args[1], []int{0, 1, 4}[vp.Choose("order", 3)])
	t := trie.New[int]()
	m := map[string]int{}
	put := func(w string, v int) {
		t.Put(w, v)
		m[w] = v
		vp.Progress()
	}
	for i, w := range words {
		put(w, i+1)
	}
	var rest []string
	switch vp.Choose("remove", 4) {
	case 0: // a subtree with its root
		for _, w := range words {
			if w[0] == words[0][0] {
				rest = append(rest, w)
			}
		}
	case 1: // longest words first
		for l := args[1]; l > 1; l-- {
			for _, w := range words {
				if len(w) == l {
					rest = append(rest, w)
				}
			}
		}
	case 2: // shortest first, so that inner nodes go while they have children
		for l := 1; l < args[1]; l++ {
			for _, w := range words {
				if len(w) == l {
					rest = append(rest, w)
				}
			}
		}
	case 3: // two of three
		for i, w := range words {
			if i%3 > 0 {
				rest = append(rest, w)
			}
		}
	}
	for _, w := range rest {
		t.Remove(w)
		delete(m, w)
		vp.Progress()
	}
	v := vp.Int("v")
	for i, w := range rest {
		if i%5 == 1 {
			put(w, v)
		}
	}
	return t, m, words, v
}

// Scale: every word of the lexicon looked up, in a trie as scaled makes it, and an
// arbitrary string.
func Scale(args []int) {
	t, m, words, _ := scaled(args)
	vp.Assert(t.Size() == len(m), "Size is the number of keys")
	get := func(w string) {
		v, ok := t.Get(w)
		x, has := m[w]
		vp.Assert(vp.And(ok == has, v == x), "Get returns the last value of exactly the keys present")
		vp.Assert(t.Contains(w) == has, "Contains finds exactly the keys present")
	}
	for _, w := range words {
		get(w)
		vp.Progress()
	}
	q := vp.Str("q", 1+vp.Choose("qlen", args[2]))
	v, ok := t.Get(q)
	x, has := 0, false
	for _, w := range words {
		if y, on := m[w]; on {
			has = vp.Or(has, w == q)
			x = vp.Ite(w == q, y, x)
		}
	}
	vp.Assert(vp.And(ok == has, v == x), "Get returns the last value of exactly the keys present")
	vp.Observe(t.Size())
	vp.Reach()
}

// PreScale: the prefix queries for every word and all of its extensions.
func PreScale(args []int) {
	t, m, words, _ := scaled(args)
	list := func(ks []string, pre string) {
		n := 0
		for w := range m {
			n += vp.B2I(hasPrefix(w, pre))
		}
		vp.Assert(len(ks) == n, "every key with the prefix is listed")
		for i, k := range ks {
			_, has := m[k]
			vp.Assert(has && hasPrefix(k, pre), "only keys with the prefix are listed")
			vp.Assert(i == 0 || ks[i-1] < k, "listed keys ascend strictly")
		}
		vp.Progress()
	}
	vp.MapOrder(-1)
	list(t.Keys(), "")
	list(t.KeysWithPrefix(""), "")
	old := t.Keys()
	was := make([]string, len(old))
	for i := range old {
		was[i] = string([]byte(old[i]))
	}
	for _, w := range words {
		list(t.KeysWithPrefix(w), w)
		for _, q := range []string{w, w + "(", w + "(("} {
			r := ""
			for i := 1; i <= len(q); i++ {
				if _, has := m[q[:i]]; has {
					r = q[:i]
				}
			}
			vp.Assert(t.LongestPrefix(q) == r, "LongestPrefix is the longest key that is a prefix")
		}
	}
	for i := range old {
		vp.Assert(old[i] == was[i], "returned keys stay valid")
	}
	q := vp.Str("q", 1)
	ks := t.KeysWithPrefix(q)
	n := 0
	for w := range m {
		n += vp.B2I(w[:1] == q)
	}
	vp.Assert(len(ks) == n, "every key with the prefix is listed")
	vp.Reach()
}

// Mill: args[2] operations in waves on the words over args[0] letters up to args[1] long,
// one of an arbitrary value; args[3] histories. With args[4]=1 the prefix queries are asked
// as well.
func Mill(args []int) {
	words := lexicon(args[0], args[1], 0)
	n := len(words)
	r := hl.NewRand(args[3])
	t := trie.New[int]()
	has, val := make([]bool, n), make([]int, n)
	special := vp.Int("v")
	at := args[2] * (1 + vp.Choose("at", 3)) / 5
	up, cnt := true, 0
	list := func(ks []string, pre string) {
		want := 0
		for i, w := range words {
			want += vp.B2I(has[i] && hasPrefix(w, pre))
		}
		vp.Assert(len(ks) == want, "every key with the prefix is listed")
		for i, k := range ks {
			vp.Assert(t.Contains(k) && hasPrefix(k, pre), "only keys with the prefix are listed")
			vp.Assert(i == 0 || ks[i-1] < k, "listed keys ascend strictly")
		}
	}
	for i := 0; i < args[2]; i++ {
		vp.Progress()
		k := r.N(n)
		x := i + 1
		if i == at {
			x = special
		}
		if (r.N(16) < 11) == up || i == at {
			t.Put(words[k], x)
			cnt += vp.B2I(!has[k])
			has[k], val[k] = true, x
		} else {
			t.Remove(words[k])
			cnt -= vp.B2I(has[k])
			has[k], val[k] = false, 0
		}
		if cnt >= n*3/4 {
			up = false
		}
		if cnt == 0 {
			up = true
		}
		vp.Assert(t.Size() == cnt, "Size is the number of keys")
		k = r.N(n)
		v, ok := t.Get(words[k])
		vp.Assert(vp.And(ok == has[k], v == val[k]), "Get returns the last value of exactly the keys present")
		if i%16 == 15 {
			for k, w := range words {
				v, ok := t.Get(w)
				vp.Assert(vp.And(ok == has[k], v == val[k]), "Get returns the last value of exactly the keys present")
				vp.Assert(t.Contains(w) == has[k], "Contains finds exactly the keys present")
			}
			list(t.Keys(), "")
		}
		if args[4] == 1 && i%4 == 0 {
			w := words[r.N(n)]
			list(t.KeysWithPrefix(w), w)
			q := w + []string{"", "a", words[r.N(n)]}[r.N(3)]
			best := ""
			for k, w := range words {
				if has[k] && hasPrefix(q, w) && len(w) > len(best) {
					best = w
				}
			}
			vp.Assert(t.LongestPrefix(q) == best, "LongestPrefix is the longest key that is a prefix")
		}
	}
	vp.Observe(t.Size())
	vp.Reach()
}

package main

// B01..B03.

import (
	"fmt"
	"math"
	"sort"

	"github.com/idoall/stockindicator/container"
	"github.com/idoall/stockindicator/container/bst"
	"github.com/idoall/stockindicator/container/queue"
)

// rev is a user-defined comparable that orders the other way round and
// carries a tag that takes no part in the comparison.
type rev struct{ v, tag int }

func (a rev) Compare(o container.Comparable) int {
	b := o.(rev)
	switch {
	case a.v > b.v:
		return -1
	case a.v < b.v:
		return 1
	}
	return 0
}

// runTree compares a tree with a sorted list after every step.
func runTree(t *T) {
	kind := t.Round(3)
	small := t.Chance(60)
	span := 200
	if small {
		span = 4
	}
	scale := t.Pick(50, 8, 8, 8, 8, 8, 10)
	mk := func(k int) any {
		switch kind {
		case 1:
			if k == span {
				return int64(math.MaxInt64)
			}
			if k == -span {
				return int64(math.MinInt64)
			}
			return int64(k)*[]int64{1, 1, 1 << 32, 1 << 53, 3, 1000003, 1}[scale] + []int64{0, 1 << 53, 0, 0, 1 << 62, 0, math.MinInt32}[scale]
		case 2:
			return rev{k, t.Int(0, 3)}
		}
		switch k {
		case span:
			return math.Inf(1)
		case -span:
			return math.Inf(-1)
		}
		switch scale {
		case 1: // neighbours in the last place
			return 4 + float64(k)*0x1p-50
		case 2:
			return float64(k) * 5e-324
		case 3:
			return float64(k) * 1e300
		case 4:
			return float64(k) * 1e-10
		case 5:
			return 1e15 + float64(k)
		case 6:
			return 123.45 + float64(k)/100
		}
		return float64(k) * 0.25
	}
	if t.Chance(20) { // another one, used before and still there
		other := bst.New()
		other.Insert(mk(-span))
		other.Insert(mk(span))
		other.Insert(mk(t.Zig(span)))
		defer func() {
			if kind != 2 && (other.Min() != mk(-span) || other.Max() != mk(span)) {
				t.Failf("another tree holds %v to %v after the operations on this one", other.Min(), other.Max())
			}
		}()
	}
	tree := bst.New()
	var ms []int // sorted as the tree orders
	less := func(a, b int) bool {
		if kind == 2 {
			return a > b
		}
		return a < b
	}
	find := func(k int) int {
		i := sort.Search(len(ms), func(i int) bool { return !less(ms[i], k) })
		if i < len(ms) && ms[i] == k {
			return i
		}
		return -1
	}
	insert := func(k int) {
		i := sort.Search(len(ms), func(i int) bool { return less(k, ms[i]) })
		ms = append(ms, 0)
		copy(ms[i+1:], ms[i:])
		ms[i] = k
	}
	eq := func(got any, k int, what string) {
		if got == nil {
			t.Failf("%s is none, the multiset holds %d", what, k)
		}
		if kind == 2 {
			if got.(rev).v != k {
				t.Failf("%s is %v, the multiset says %d", what, got, k)
			}
			return
		}
		if got != mk(k) {
			t.Failf("%s is %v, the multiset says %v", what, got, mk(k))
		}
	}
	check := func() {
		if len(ms) == 0 {
			if a, b := tree.Min(), tree.Max(); a != nil || b != nil {
				t.Failf("the tree is empty but has minimum %v and maximum %v", a, b)
			}
			return
		}
		eq(tree.Min(), ms[0], "minimum")
		eq(tree.Max(), ms[len(ms)-1], "maximum")
	}
	ins, rem, missing := 0, 0, 0
	grow := 50 + t.Hidden(40)
	size := 5 + t.Hidden(80)
	if t.Hidden(800) == 0 {
		size = 300 + t.Hidden(3000)
	}
	t.List(size, 4000, func(i int) {
		k := t.Zig(span)
		op := int(t.choice(3, func(r *rng) uint64 {
			if int(r.below(100)) < grow {
				return 0
			}
			return 1 + r.below(3)
		}))
		switch op {
		case 0:
			tree.Insert(mk(k))
			insert(k)
			ins++
			t.Notef("insert %d", k)
		case 1, 2: // remove something that is there
			if op == 1 && len(ms) > 0 {
				k = ms[t.Int(0, len(ms)-1)]
			}
			p := find(k)
			got := tree.Remove(mk(k))
			t.Notef("remove %d", k)
			if got != (p >= 0) {
				t.Failf("removing %d reports %v, the multiset says %v", k, got, p >= 0)
			}
			if p >= 0 {
				ms = append(ms[:p], ms[p+1:]...)
				rem++
			} else {
				missing++
			}
		case 3: // bulk
			if kind != 0 {
				return
			}
			var xs []float64
			for j := t.Int(0, 4); j > 0; j-- {
				q := t.Zig(span)
				xs = append(xs, mk(q).(float64))
				insert(q)
			}
			t.Notef("insert all %v", xs)
			if r := tree.Inserts(xs); r != tree {
				t.Failf("the bulk insertion returns another tree")
			}
			ins += len(xs)
		}
		check()
	})
	// take everything out again
	for len(ms) > 0 && t.Chance(90) {
		i := t.Int(0, len(ms)-1)
		if !tree.Remove(mk(ms[i])) {
			t.Failf("%d is in the multiset but cannot be removed", ms[i])
		}
		ms = append(ms[:i], ms[i+1:]...)
		check()
		rem++
	}
	t.ClassIf(len(ms) == 0, "emptied")
	t.ClassIf(missing > 0, "removals of absent values")
	t.Class("%s", []string{"floats", "integers", "comparables"}[kind])
	t.NonTrivial(ins > 2 && rem > 0)
}

// fixedDeep fills trees of thousands of levels: values that come in order.
func fixedDeep(f *Fixed) {
	const n = 6000
	orders := map[string]func(i int) int{
		"rising":              func(i int) int { return i },
		"falling":             func(i int) int { return -i },
		"from both ends":      func(i int) int { return (1 - i%2*2) * (n - i) },
		"outwards":            func(i int) int { return (1 - i%2*2) * i },
		"with repetitions":    func(i int) int { return i / 5 },
		"all the same":        func(i int) int { return 3 },
		"rising in stretches": func(i int) int { return i%1000*7 + i/1000 },
	}
	takes := map[string]func(i, left int) int{ // place among the values left
		"smallest first": func(i, left int) int { return 0 },
		"largest first":  func(i, left int) int { return left - 1 },
		"middle first":   func(i, left int) int { return left / 2 },
		"all over":       func(i, left int) int { return i * 7919 % left },
	}
	for on, order := range orders {
		for tn, take := range takes {
			tree := bst.New()
			var ms []int
			ok := func(what string) {
				if len(ms) == 0 {
					if tree.Min() != nil || tree.Max() != nil {
						f.Failf("%s values, %s, %s: empty, but minimum %v and maximum %v", on, tn, what, tree.Min(), tree.Max())
					}
					return
				}
				if tree.Min() != int64(ms[0]) || tree.Max() != int64(ms[len(ms)-1]) {
					f.Failf("%d %s values, %s, %s: minimum %v and maximum %v, want %d and %d", n, on, tn, what, tree.Min(), tree.Max(), ms[0], ms[len(ms)-1])
				}
			}
			for i := 0; i < n; i++ {
				tree.Insert(int64(order(i)))
				ms = append(ms, order(i))
			}
			sort.Ints(ms)
			ok("all in")
			for i := 0; len(ms) > 0; i++ {
				k := take(i, len(ms))
				if v := ms[k]; !tree.Remove(int64(v)) {
					f.Failf("%d %s values, %s: %d, one of %d values left, cannot be removed", n, on, tn, v, len(ms))
				}
				ms = append(ms[:k], ms[k+1:]...)
				if i%7 == 0 || len(ms) < 3 {
					ok(fmt.Sprintf("%d left", len(ms)))
				}
			}
			if tree.Remove(int64(order(0))) {
				f.Failf("%d %s values, %s: a value can be removed once more", n, on, tn)
			}
			f.Count++
		}
	}
}

func fixedTree(f *Fixed) {
	n := 7
	if f.Tier == "thorough" {
		n = 8
	}
	const vals = 3
	ops := make([]int, n)
	var rec func(d int)
	rec = func(d int) {
		if d == n {
			tree := bst.New()
			var cnt [vals]int
			for j, o := range ops {
				v := o % vals
				if o < vals {
					tree.Insert(float64(v))
					cnt[v]++
				} else {
					if got := tree.Remove(float64(v)); got != (cnt[v] > 0) {
						f.Failf("operations %v (0-2 insert, 3-5 remove): step %d reports %v", ops, j, got)
					}
					if cnt[v] > 0 {
						cnt[v]--
					}
				}
				var mn, mx any
				for v := 0; v < vals; v++ {
					if cnt[v] > 0 {
						if mn == nil {
							mn = float64(v)
						}
						mx = float64(v)
					}
				}
				if tree.Min() != mn || tree.Max() != mx {
					f.Failf("operations %v (0-2 insert, 3-5 remove): after step %d minimum %v maximum %v, want %v %v", ops, j, tree.Min(), tree.Max(), mn, mx)
				}
			}
			f.Count++
			return
		}
		for o := 0; o < 2*vals; o++ {
			ops[d] = o
			rec(d + 1)
		}
	}
	rec(0)
	// every order of insertion and removal of five values, one repeated
	xs := []float64{1, 2, 3, 4, 2}
	perms(5, func(p []int) {
		perms(5, func(q []int) {
			tree := bst.New()
			for _, i := range p {
				tree.Insert(xs[i])
			}
			left := map[int]bool{0: true, 1: true, 2: true, 3: true, 4: true}
			for _, i := range q {
				if !tree.Remove(xs[i]) {
					f.Failf("inserted in the order %v: value %v cannot be removed (order %v)", p, xs[i], q)
				}
				delete(left, i)
				mn, mx := math.Inf(1), math.Inf(-1)
				for j := range left {
					mn, mx = math.Min(mn, xs[j]), math.Max(mx, xs[j])
				}
				if len(left) == 0 {
					if tree.Min() != nil || tree.Max() != nil {
						f.Failf("the emptied tree holds %v", tree.Min())
					}
				} else if tree.Min() != mn || tree.Max() != mx {
					f.Failf("inserted %v, removed %v up to %v: minimum %v maximum %v, want %v %v", p, q, xs[i], tree.Min(), tree.Max(), mn, mx)
				}
			}
			f.Count++
		})
	})
}

func perms(n int, f func(p []int)) {
	p := make([]int, 0, n)
	used := make([]bool, n)
	var rec func()
	rec = func() {
		if len(p) == n {
			f(p)
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				p = append(p, i)
				rec()
				p = p[:len(p)-1]
				used[i] = false
			}
		}
	}
	rec()
}

// ---------------------------------------------------------------- B02

type box struct{ n int }

func runQueue(t *T) {
	nq := t.Int(1, 2)
	qs := make([]*queue.Queue, nq)
	ms := make([][]any, nq)
	for i := range qs {
		qs[i] = queue.New()
	}
	shared := &box{1}
	ins, outs, empties := 0, 0, 0
	grow := 35 + t.Hidden(40)
	size := 5 + t.Hidden(60)
	if t.Hidden(800) == 0 {
		size = 300 + t.Hidden(5000)
	}
	t.List(size, 6000, func(i int) {
		w := t.Int(0, nq-1)
		q := qs[w]
		op := int(t.choice(2, func(r *rng) uint64 {
			if int(r.below(100)) < grow {
				return 0
			}
			return 1 + r.below(2)
		}))
		switch op {
		case 0:
			var v any
			switch t.Int(0, 6) {
			case 0:
				v = ins
			case 1:
				v = nil
			case 2:
				v = "s"
			case 3:
				v = shared
			case 4:
				v = &box{ins}
			case 5:
				v = box{ins % 2}
			case 6:
				v = float64(ins) / 4
			}
			q.Enqueue(v)
			ms[w] = append(ms[w], v)
			ins++
			t.Notef("%d: enqueue %v", w, v)
		case 1:
			t.Notef("%d: dequeue", w)
			if len(ms[w]) == 0 {
				panicked := func() (p bool) {
					defer func() { p = recover() != nil }()
					q.Dequeue()
					return
				}()
				if !panicked {
					t.Failf("dequeuing from the empty queue does not panic")
				}
				empties++
				return
			}
			got := q.Dequeue()
			if got != ms[w][0] {
				t.Failf("dequeued %v, the oldest value is %v", got, ms[w][0])
			}
			ms[w] = ms[w][1:]
			outs++
		}
		for k := range qs {
			if qs[k].Empty() != (len(ms[k]) == 0) {
				t.Failf("Empty is %v with %d values in queue %d", qs[k].Empty(), len(ms[k]), k)
			}
		}
	})
	for k := range qs {
		for len(ms[k]) > 0 {
			if got := qs[k].Dequeue(); got != ms[k][0] {
				t.Failf("dequeued %v, the oldest value is %v", got, ms[k][0])
			}
			ms[k] = ms[k][1:]
			if qs[k].Empty() != (len(ms[k]) == 0) {
				t.Failf("Empty is %v with %d values left", qs[k].Empty(), len(ms[k]))
			}
		}
	}
	t.ClassIf(empties > 0, "dequeues from the empty queue")
	t.NonTrivial(ins > 2 && outs > 1)
}

// ---------------------------------------------------------------- B03

func runCompare(t *T) {
	sgn := func(less, more bool) int {
		if less {
			return -1
		}
		if more {
			return 1
		}
		return 0
	}
	call := func(a, b any) (r int, panicked bool) {
		defer func() {
			if recover() != nil {
				panicked = true
			}
		}()
		return container.Compare(a, b), false
	}
	t.NonTrivial(true)
	kind := t.Round(4)
	t.Class("%s", []string{"floats", "integers", "comparables", "anything else"}[kind])
	switch kind {
	case 0:
		var v [3]float64
		for i := range v {
			switch t.Int(0, 3) {
			case 0:
				v[i] = float64(t.Zig(3)) / 2
			case 1:
				v[i] = []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 5e-324, -5e-324, 1 << 53, 1<<53 + 2}[t.Int(0, 9)]
			case 2:
				if i > 0 { // a neighbour
					v[i] = math.Nextafter(v[i-1], []float64{math.Inf(1), math.Inf(-1), v[i-1]}[t.Int(0, 2)])
				}
			case 3:
				v[i] = math.Float64frombits(t.Uint64())
				if math.IsNaN(v[i]) {
					v[i] = 1
				}
			}
		}
		t.Notef("%v", v)
		for i := range v {
			for j := range v {
				if g, p := call(v[i], v[j]); p || g != sgn(v[i] < v[j], v[i] > v[j]) {
					t.Failf("Compare(%v, %v) is %d (panic %v)", v[i], v[j], g, p)
				}
			}
		}
	case 1:
		var v [3]int64
		for i := range v {
			switch t.Int(0, 3) {
			case 0:
				v[i] = int64(t.Zig(3))
			case 1:
				v[i] = []int64{math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 1 << 53, 1<<53 + 1, 1 << 32, -1 << 32, 1 << 31, 0}[t.Int(0, 9)]
			case 2:
				if i > 0 {
					v[i] = v[i-1] + int64(t.Zig(1))
				}
			case 3:
				v[i] = int64(t.Uint64())
			}
		}
		t.Notef("%v", v)
		for i := range v {
			for j := range v {
				if g, p := call(v[i], v[j]); p || g != sgn(v[i] < v[j], v[i] > v[j]) {
					t.Failf("Compare(%v, %v) is %d (panic %v)", v[i], v[j], g, p)
				}
			}
		}
	case 2:
		a, b := rev{t.Zig(3), 0}, rev{t.Zig(3), 1}
		t.Notef("%v %v", a, b)
		if g, p := call(a, b); p || g != a.Compare(b) {
			t.Failf("Compare(%v, %v) is %d (panic %v), their own comparison gives %d", a, b, g, p, a.Compare(b))
		}
		// the first one decides: it is not asked the other way round
		x, y := &spy{answer: t.Zig(1)}, &spy{answer: t.Zig(1)}
		if g, p := call(x, y); p || g != x.answer || x.asked != y || y.asked != nil {
			t.Failf("Compare of two comparables gives %d (panic %v), the first answers %d when asked about the second", g, p, x.answer)
		}
	case 3:
		odd := []any{1, "a", nil, true, int32(1), uint64(1), float32(1), []int{1}, struct{}{}, math.Pi, int64(1), rev{1, 1}}
		a := odd[t.Int(0, 8)]
		b := odd[t.Int(0, len(odd)-1)]
		t.Notef("%#v %#v", a, b)
		if g, p := call(a, b); !p {
			t.Failf("Compare(%#v, %#v) is %d and does not panic", a, b, g)
		}
		// numbers of different kinds have no order either
		c, d := odd[t.Int(9, 11)], odd[t.Int(9, 11)]
		if g, p := call(c, d); !p && sameKind(c) != sameKind(d) {
			t.Failf("Compare(%#v, %#v) is %d and does not panic", c, d, g)
		}
	}
}

func sameKind(a any) int {
	switch a.(type) {
	case float64:
		return 0
	case int64:
		return 1
	}
	return 2
}

type spy struct {
	answer int
	asked  container.Comparable
}

func (s *spy) Compare(o container.Comparable) int { s.asked = o; return s.answer }

func init() {
	register(&Prop{ID: "B01", Quick: 1200000, Thorough: 24000000, Run: runTree,
		Rule:  "more than two values are inserted and one is removed",
		Fixed: []FixedCase{{"all sequences of seven operations on three values; all orders of five insertions and removals", fixedTree}, {"trees of thousands of levels", fixedDeep}}})
	register(&Prop{ID: "B02", Quick: 2000000, Thorough: 40000000, Run: runQueue, Rule: "more than two values go in and more than one comes out"})
	register(&Prop{ID: "B03", Quick: 3000000, Thorough: 60000000, Run: runCompare, Rule: "every case"})
}

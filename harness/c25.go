package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/cond"
	"golang.org/x/exp/constraints"
)

func init() {
	register(&Check{ID: "C25", Level: "exploration", Race: true, Quick: 2400, Thorough: 20000, Run: runC25,
		Rule: "comparisons of every ordered type over all pairs of edge and random values (extremes, infinities, NaN, both zeros, strings that are prefixes or differ in one byte), equality of pointers, chains, slices, maps, arrays and structs by content; random trees of conditions evaluated on records against an independent evaluation of the same tree, repeated, by several goroutines under the race detector, with the record and the lists of conditions compared afterwards; the same conditions as filters of full, index and intersecting queries; non-trivial: a case whose conditions were both true and false"})
}

type c25Num int16
type c25Str string
type c25Flt float32

type c25Pt struct {
	X int8
	Y string
}

// C25Rec is the record conditions are evaluated on.
type C25Rec struct {
	ID  uint64
	I8  int8
	I   int
	I64 int64
	U8  uint8
	U64 uint64
	F32 float32
	F64 float64
	S   string
	N   c25Num
	NS  c25Str
	B   bool
	D   []byte
	P   c25Pt
	Q   *int64
	L   []string
	M   map[string]int
	A   [2]c25Pt
	R   *c25Node
}

// c25Node is compared by what it points at.
type c25Node struct {
	V    int8
	Next *c25Node
}

func (n *c25Node) String() string {
	if n == nil {
		return "."
	}
	return fmt.Sprintf("%d%v", n.V, n.Next)
}

func c25Chain(r *rand.Rand) *c25Node {
	if r.Intn(3) == 0 {
		return nil
	}
	return &c25Node{int8(r.Intn(2)), c25Chain(r)}
}

var c25F64 = []float64{0, math.Copysign(0, -1), 1, -1, 1.5, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 1<<53 + 2, math.Nextafter(1, 2), math.Nextafter(1, 0)}
var c25F32 = []float32{0, float32(math.Copysign(0, -1)), 1, -1, 0.1, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), math.MaxFloat32, math.SmallestNonzeroFloat32, 1 << 24, 1<<24 + 2}
var c25Strs = []string{"", "a", "A", "ab", "b", "a\x00", "\x00", "é", "e", "z", "ÿ", "\xff", "\xfe\xff", "日本", "10", "9", "aa", strings.Repeat("a", 100), strings.Repeat("a", 99) + "b", " a", "a "}

func (x C25Rec) String() string {
	q := "nil"
	if x.Q != nil {
		q = fmt.Sprint(*x.Q)
	}
	return fmt.Sprintf("{%d %d %d %d %d %d %v %v %q %d %q %v %q %v %s %q %v %v %v}", x.ID, x.I8, x.I, x.I64, x.U8, x.U64, x.F32, x.F64, x.S, x.N, x.NS, x.B, x.D, x.P,
		q, x.L, x.M, x.A, x.R)
}

func c25Record(r *rand.Rand, id uint64) *C25Rec {
	x := &C25Rec{ID: id}
	x.I8 = int8(edgeI64(r))
	x.I = int(edgeI64(r))
	x.I64 = edgeI64(r)
	x.U8 = uint8(r.Intn(6))
	x.U64 = edgeU64(r)
	x.F32 = pick(r, c25F32)
	x.F64 = pick(r, c25F64)
	x.S = pick(r, strPool)
	x.N = c25Num(edgeI64(r))
	x.NS = c25Str(pick(r, strPool))
	x.B = r.Intn(2) == 0
	x.D = []byte(pick(r, strPool))
	x.P = c25Pt{int8(r.Intn(2)), pick(r, []string{"", "a"})}
	if r.Intn(3) > 0 {
		q := int64(r.Intn(3))
		x.Q = &q
	}
	// empty ones are never told from missing ones
	if n := r.Intn(3); n > 0 {
		x.M = map[string]int{}
		for i := 0; i < n; i++ {
			x.L = append(x.L, pick(r, []string{"", "a"}))
			x.M[pick(r, []string{"", "a"})] = r.Intn(2)
		}
	}
	x.A[r.Intn(2)] = x.P
	x.R = c25Chain(r)
	return x
}

// c25Pairs compares every operator on every pair of values.
func c25Pairs[V constraints.Ordered](c *Case, vals []V) {
	type rec struct{ V V }
	get := func(x *rec) V { return x.V }
	getV := func(x rec) V { return x.V }
	name := fmt.Sprintf("%T", vals[0])
	n := 0
	for _, b := range vals {
		ops := map[string]cond.Cond[*rec]{"Eq": cond.Eq(get, b), "Gt": cond.Gt(get, b), "Gte": cond.Gte(get, b), "Lt": cond.Lt(get, b), "Lte": cond.Lte(get, b),
			"Not(Eq)": cond.Not(cond.Eq(get, b)), "Not(Lt)": cond.Not(cond.Lt(get, b))}
		opsV := map[string]cond.Cond[rec]{"Eq": cond.Eq(getV, b), "Gt": cond.Gt(getV, b), "Gte": cond.Gte(getV, b), "Lt": cond.Lt(getV, b), "Lte": cond.Lte(getV, b)}
		for _, a := range vals {
			want := map[string]bool{"Eq": a == b, "Gt": a > b, "Gte": a >= b, "Lt": a < b, "Lte": a <= b, "Not(Eq)": !(a == b), "Not(Lt)": !(a < b)}
			for op, w := range want {
				if got := ops[op].Eval(&rec{a}); got != w {
					c.Fail("compare", "%s of %s: record value %v and %v gave %v", op, name, a, b, got)
				}
				if o, ok := opsV[op]; ok {
					if got := o.Eval(rec{a}); got != w {
						c.Fail("compare", "%s of %s: record value %v and %v gave %v", op, name, a, b, got)
					}
				}
				n++
			}
		}
	}
	c.Logf("%d values of %s", len(vals), name)
	c.Eval(n)
	c.Count("comparisons", n)
}

func c25Ints[V constraints.Integer](r *rand.Rand) []V {
	var z V
	bits := uint(reflect.TypeOf(z).Bits())
	vals := []V{0, 1, 2, ^z, ^z - 1, 1 << (bits - 1), 1<<(bits-1) - 1, 1<<(bits-1) + 1}
	for i := 0; i < 6; i++ {
		vals = append(vals, V(r.Uint64()>>uint(r.Intn(64))))
	}
	return vals
}

func c25AllPairs(c *Case) {
	r := c.R
	switch r.Intn(16) {
	case 0:
		c25Pairs(c, c25Ints[int](r))
	case 1:
		c25Pairs(c, c25Ints[int8](r))
	case 2:
		c25Pairs(c, c25Ints[int16](r))
	case 3:
		c25Pairs(c, c25Ints[int32](r))
	case 4:
		c25Pairs(c, c25Ints[int64](r))
	case 5:
		c25Pairs(c, c25Ints[uint](r))
	case 6:
		c25Pairs(c, c25Ints[uint8](r))
	case 7:
		c25Pairs(c, c25Ints[uint16](r))
	case 8:
		c25Pairs(c, c25Ints[uint32](r))
	case 9:
		c25Pairs(c, c25Ints[uint64](r))
	case 10:
		c25Pairs(c, c25Ints[uintptr](r))
	case 11:
		c25Pairs(c, c25Ints[c25Num](r))
	case 12:
		c25Pairs(c, append(append([]float32{}, c25F32...), float32(r.NormFloat64()), math.Float32frombits(r.Uint32())))
	case 13:
		c25Pairs(c, append(append([]float64{}, c25F64...), r.NormFloat64(), math.Float64frombits(r.Uint64())))
	case 14:
		b := make([]byte, r.Intn(8))
		r.Read(b)
		c25Pairs(c, append(append([]string{}, c25Strs...), string(b), string(b)+"\x00"))
	case 15:
		var v []c25Flt
		for _, f := range c25F32 {
			v = append(v, c25Flt(f))
		}
		c25Pairs(c, v)
		var s []c25Str
		for _, f := range c25Strs {
			s = append(s, c25Str(f))
		}
		c25Pairs(c, s)
	}
}

// c25ByContent is an equality of values that are compared by their content, the
// value is never the same memory as that of a record.
func c25ByContent(r *rand.Rand, o *C25Rec) tree {
	switch r.Intn(5) {
	case 0:
		var q *int64
		if o.Q != nil {
			v := *o.Q
			q = &v
		}
		return tree{cond.Eq(func(x *C25Rec) *int64 { return x.Q }, q), func(x *C25Rec) bool {
			return (x.Q == nil) == (q == nil) && (q == nil || *x.Q == *q)
		}, "Q==" + o.String()}
	case 1:
		l := append([]string(nil), o.L...)
		return tree{cond.Eq(func(x *C25Rec) []string { return x.L }, l), func(x *C25Rec) bool {
			return fmt.Sprintf("%q", x.L) == fmt.Sprintf("%q", l)
		}, fmt.Sprintf("L==%q", l)}
	case 2:
		var m map[string]int
		if o.M != nil {
			m = map[string]int{}
			for k, v := range o.M {
				m[k] = v
			}
		}
		return tree{cond.Eq(func(x *C25Rec) map[string]int { return x.M }, m), func(x *C25Rec) bool {
			if len(x.M) != len(m) {
				return false
			}
			for k, v := range m {
				if w, ok := x.M[k]; !ok || w != v {
					return false
				}
			}
			return true
		}, fmt.Sprintf("M==%v", m)}
	case 3:
		a := o.A
		return tree{cond.Eq(func(x *C25Rec) [2]c25Pt { return x.A }, a), func(x *C25Rec) bool { return x.A == a }, fmt.Sprintf("A==%v", a)}
	}
	var copied func(n *c25Node) *c25Node
	copied = func(n *c25Node) *c25Node {
		if n == nil {
			return nil
		}
		return &c25Node{n.V, copied(n.Next)}
	}
	n := copied(o.R)
	if r.Intn(2) == 0 {
		// as a part of a value
		type part struct{ N *c25Node }
		return tree{cond.Eq(func(x *C25Rec) part { return part{x.R} }, part{n}), func(x *C25Rec) bool { return x.R.String() == n.String() }, fmt.Sprintf("{R}==%v", n)}
	}
	return tree{cond.Eq(func(x *C25Rec) *c25Node { return x.R }, n), func(x *C25Rec) bool { return x.R.String() == n.String() }, fmt.Sprintf("R==%v", n)}
}

// tree is a condition with an evaluation of its own.
type tree struct {
	c    cond.Cond[*C25Rec]
	want func(x *C25Rec) bool
	name string
}

func cmpTree[V constraints.Ordered](r *rand.Rand, f string, get func(*C25Rec) V, v V) tree {
	switch r.Intn(5) {
	case 0:
		return tree{cond.Gt(get, v), func(x *C25Rec) bool { return get(x) > v }, fmt.Sprintf("%s>%v", f, v)}
	case 1:
		return tree{cond.Gte(get, v), func(x *C25Rec) bool { return get(x) >= v }, fmt.Sprintf("%s>=%v", f, v)}
	case 2:
		return tree{cond.Lt(get, v), func(x *C25Rec) bool { return get(x) < v }, fmt.Sprintf("%s<%v", f, v)}
	case 3:
		return tree{cond.Lte(get, v), func(x *C25Rec) bool { return get(x) <= v }, fmt.Sprintf("%s<=%v", f, v)}
	}
	return tree{cond.Eq(get, v), func(x *C25Rec) bool { return get(x) == v }, fmt.Sprintf("%s==%v", f, v)}
}

func c25Leaf(r *rand.Rand, near *C25Rec) tree {
	o := near
	if r.Intn(2) == 0 {
		o = c25Record(r, r.Uint64()%50)
	}
	switch r.Intn(18) {
	case 16, 17:
		return c25ByContent(r, o)
	case 14:
		// values of any type are equal when their types and values are
		get := func(x *C25Rec) any {
			switch x.ID % 4 {
			case 0:
				return x.U8
			case 1:
				return int(x.U8)
			case 2:
				return c25Num(x.U8)
			}
			return float64(x.U8)
		}
		v := get(&C25Rec{ID: uint64(r.Intn(4)), U8: uint8(r.Intn(6))})
		return tree{cond.Eq(get, v), func(x *C25Rec) bool { return get(x) == v }, fmt.Sprintf("any==%T(%v)", v, v)}
	case 0:
		return cmpTree(r, "I8", func(x *C25Rec) int8 { return x.I8 }, o.I8)
	case 1:
		return cmpTree(r, "I", func(x *C25Rec) int { return x.I }, o.I)
	case 2:
		return cmpTree(r, "I64", func(x *C25Rec) int64 { return x.I64 }, o.I64)
	case 3:
		return cmpTree(r, "U8", func(x *C25Rec) uint8 { return x.U8 }, o.U8)
	case 4:
		return cmpTree(r, "U64", func(x *C25Rec) uint64 { return x.U64 }, o.U64)
	case 5:
		return cmpTree(r, "F32", func(x *C25Rec) float32 { return x.F32 }, o.F32)
	case 6, 7:
		return cmpTree(r, "F64", func(x *C25Rec) float64 { return x.F64 }, o.F64)
	case 8:
		return cmpTree(r, "S", func(x *C25Rec) string { return x.S }, o.S)
	case 9:
		return cmpTree(r, "N", func(x *C25Rec) c25Num { return x.N }, o.N)
	case 10:
		return cmpTree(r, "NS", func(x *C25Rec) c25Str { return x.NS }, o.NS)
	case 11:
		return tree{cond.Eq(func(x *C25Rec) bool { return x.B }, o.B), func(x *C25Rec) bool { return x.B == o.B }, fmt.Sprintf("B==%v", o.B)}
	case 12:
		d := append([]byte{}, o.D...)
		return tree{cond.Eq(func(x *C25Rec) []byte { return x.D }, d), func(x *C25Rec) bool { return bytes.Equal(x.D, d) }, fmt.Sprintf("D==%q", d)}
	case 13:
		return tree{cond.Eq(func(x *C25Rec) c25Pt { return x.P }, o.P), func(x *C25Rec) bool { return x.P == o.P }, fmt.Sprintf("P==%v", o.P)}
	}
	m := uint64(1 + r.Intn(4))
	f := func(x *C25Rec) bool { return (x.ID+uint64(len(x.S)))%m == 0 }
	return tree{cond.Func(f), f, fmt.Sprintf("f%d", m)}
}

func c25Tree(r *rand.Rand, depth int, near *C25Rec) tree {
	if depth == 0 || r.Intn(5) == 0 {
		return c25Leaf(r, near)
	}
	switch r.Intn(5) {
	case 0:
		t := c25Tree(r, depth-1, near)
		return tree{cond.Not(t.c), func(x *C25Rec) bool { return !t.want(x) }, "!(" + t.name + ")"}
	default:
		n := r.Intn(5)
		if r.Intn(60) == 0 {
			n = 300
		}
		var ts []tree
		var cs []cond.Cond[*C25Rec]
		var names []string
		for i := 0; i < n; i++ {
			d := depth - 1
			if n > 10 {
				d = 0
			}
			t := c25Tree(r, d, near)
			ts, cs, names = append(ts, t), append(cs, t.c), append(names, t.name)
		}
		if len(names) > 12 {
			names = append(names[:12], fmt.Sprintf("... %d", len(names)))
		}
		var out tree
		if r.Intn(2) == 0 {
			out = tree{cond.And(cs...), func(x *C25Rec) bool {
				v := true
				for _, t := range ts {
					v = t.want(x) && v
				}
				return v
			}, "and(" + strings.Join(names, ",") + ")"}
		} else {
			out = tree{cond.Or(cs...), func(x *C25Rec) bool {
				v := false
				for _, t := range ts {
					v = t.want(x) || v
				}
				return v
			}, "or(" + strings.Join(names, ",") + ")"}
		}
		if r.Intn(2) == 0 {
			// the list is the caller's again
			for i := range cs {
				cs[i] = cond.Func(func(*C25Rec) bool { return r.Intn(2) == 0 })
			}
		}
		return out
	}
}

// c25Same compares records; NaN equals itself here.
func c25Same(a, b *C25Rec) bool { return a.String() == b.String() && len(a.D) == len(b.D) }

func runC25(c *Case) {
	r := c.R
	c25AllPairs(c)
	var recs, copies []*C25Rec
	for i := 0; i < 20+r.Intn(30); i++ {
		x := c25Record(r, uint64(i))
		y := *x
		y.D = append([]byte{}, x.D...)
		recs, copies = append(recs, x), append(copies, &y)
	}
	var ts []tree
	for i := 0; i < 6; i++ {
		ts = append(ts, c25Tree(r, r.Intn(6), pick(r, recs)))
	}
	// a condition used at several places of another
	a, b := pick(r, ts), pick(r, ts)
	ts = append(ts, tree{cond.Or(cond.And(a.c, cond.Not(b.c)), cond.And(b.c, cond.Not(a.c))), func(x *C25Rec) bool { return a.want(x) != b.want(x) }, "xor(" + a.name + "," + b.name + ")"})
	if r.Intn(10) == 0 {
		t := pick(r, ts)
		cc := t.c
		n := 200 + r.Intn(2)
		for i := 0; i < n; i++ {
			cc = cond.Not(cc)
		}
		w := t.want
		ts = append(ts, tree{cc, func(x *C25Rec) bool { return w(x) != (n%2 == 1) }, fmt.Sprintf("not^%d(%s)", n, t.name)})
	}
	trues, falses := 0, 0
	want := make([][]bool, len(ts))
	for i, t := range ts {
		c.Logf("%s", clip(t.name, 400))
		for _, x := range recs {
			want[i] = append(want[i], t.want(x))
			if t.want(x) {
				trues++
			} else {
				falses++
			}
		}
	}
	eval := func(g int, r *rand.Rand) {
		for k := 0; k < len(ts)*len(recs); k++ {
			i, j := r.Intn(len(ts)), r.Intn(len(recs))
			if got := ts[i].c.Eval(recs[j]); got != want[i][j] {
				c.Fail("tree", "%s on %v gave %v (goroutine %d)", clip(ts[i].name, 1500), recs[j], got, g)
			}
		}
	}
	for i, t := range ts {
		for j, x := range recs {
			if got := t.c.Eval(x); got != want[i][j] {
				c.Fail("tree", "%s on %v gave %v", clip(t.name, 1500), x, got)
			}
		}
	}
	c.Par(1+r.Intn(6), eval)
	c.Eval(3 * len(ts) * len(recs))
	c.Count("trees", len(ts))
	c.Count("true", trues)
	c.Count("false", falses)
	for i := range recs {
		if !c25Same(recs[i], copies[i]) {
			c.Fail("record", "evaluation changed the record %v into %v", copies[i], recs[i])
		}
	}
	if r.Intn(3) == 0 {
		c25Query(c, ts, recs, want)
	}
	if trues > 0 && falses > 0 {
		c.Nontrivial()
	}
}

// c25Query uses the conditions as filters of queries.
func c25Query(c *Case, ts []tree, recs []*C25Rec, want [][]bool) {
	r := c.R
	e := newEnv(c, EnvCfg{Ser: newSerializer(serCBOR)})
	tab := bond.NewTable[*C25Rec](bond.TableOptions[*C25Rec]{DB: e.db, TableID: 3, TableName: "c25",
		TablePrimaryKeyFunc: func(b bond.KeyBuilder, x *C25Rec) []byte { return b.AddUint64Field(x.ID).Bytes() }})
	mk := func(id bond.IndexID, f func(b bond.KeyBuilder, x *C25Rec) []byte) *bond.Index[*C25Rec] {
		return bond.NewIndex[*C25Rec](bond.IndexOptions[*C25Rec]{IndexID: id, IndexName: fmt.Sprint("i", id), IndexKeyFunc: f, IndexOrderFunc: bond.IndexOrderDefault[*C25Rec]})
	}
	u8 := mk(1, func(b bond.KeyBuilder, x *C25Rec) []byte { return b.AddByteField(x.U8).Bytes() })
	all := mk(2, func(b bond.KeyBuilder, x *C25Rec) []byte { return b.Bytes() })
	c.Must(tab.AddIndex([]*bond.Index[*C25Rec]{u8, all}), "AddIndex")
	c.Must(tab.Insert(bg, recs), "insert")
	for i := range recs {
		got, err := tab.Get(bg, bond.NewSelectorPoint(&C25Rec{ID: uint64(i)}))
		c.Must(err, "get")
		if len(got) != 1 || !c25Same(got[0], recs[i]) {
			c.Harness("record %v was stored as %v", recs[i], got)
		}
	}
	q := func(g int, r *rand.Rand) {
		for k := 0; k < 8; k++ {
			i := r.Intn(len(ts))
			var w []uint64
			v := uint8(r.Intn(6))
			qq := tab.Query()
			kind := r.Intn(4)
			where := func(x *C25Rec) bool { return true }
			switch kind {
			case 1:
				qq = qq.With(u8, bond.NewSelectorPoint(&C25Rec{U8: v}))
				where = func(x *C25Rec) bool { return x.U8 == v }
			case 2:
				qq = qq.With(all, bond.NewSelectorPoint(&C25Rec{}))
			}
			qq = qq.Filter(ts[i].c)
			name := clip(ts[i].name, 1500)
			if kind == 3 {
				qq = qq.With(all, bond.NewSelectorPoint(&C25Rec{})).Intersects(tab.Query().With(u8, bond.NewSelectorPoint(&C25Rec{U8: v})))
				where = func(x *C25Rec) bool { return x.U8 == v }
			}
			rev := kind < 3 && r.Intn(3) == 0
			if rev {
				qq = qq.Reverse()
			}
			for n, x := range recs {
				if where(x) && want[i][n] {
					w = append(w, x.ID)
				}
			}
			var rows []*C25Rec
			if err := qq.Execute(bg, &rows); err != nil {
				c.Fail("query", "query with the filter %s failed: %v", name, err)
			}
			var ids []uint64
			for _, x := range rows {
				ids = append(ids, x.ID)
			}
			sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
			if fmt.Sprint(ids) != fmt.Sprint(w) {
				c.Fail("query", "query %d with the filter %s selected %v, it is true for %v", kind, name, ids, w)
			}
			c.Count("queries", 1)
			c.Eval(1)
		}
	}
	c.Par(1+r.Intn(3), q)
}

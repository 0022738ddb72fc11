package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"

	"github.com/go-bond/bond"
)

func init() {
	register(&Check{ID: "C09", Level: "exploration", Quick: 8000, Thorough: 80000, Run: runC09,
		Rule: "random order clauses (1-4 fields of every type in both directions) over rows with extreme and tied values; index listings forward, reverse and from the middle compared with a comparison of the values themselves, through inserts, updates and deletes; order functions called directly over all 16-bit values and random neighbours; rows handed in compared before and after; non-trivial: at least two rows tie on the first order field and the listing has at least five rows",
	})
}

// ofield is one order field: how to read, compare and set its extremes.
type ofield struct {
	Field
	cmp func(a, b *Row) int
	set func(x *Row, max bool)
	low func(x *Row) bool // the value is the smallest of its type
	fix func(x *Row)      // moves it off the smallest value
}

func bigW(r *Row) *big.Int {
	v := new(big.Int).Lsh(big.NewInt(r.W[0]), 62)
	return v.Add(v, big.NewInt(r.W[1]>>2))
}

func cmpI(a, b int64) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func orderFields() []ofield {
	ui := func(k FKind, f func(*Row) uint64, set func(*Row, bool)) ofield {
		return ofield{Field: Field{Kind: k, U: f}, cmp: func(a, b *Row) int { return cmpU(f(a), f(b)) }, set: set}
	}
	si := func(k FKind, f func(*Row) int64, put func(*Row, int64), min, max int64) ofield {
		return ofield{Field: Field{Kind: k, I: f}, cmp: func(a, b *Row) int { return cmpI(f(a), f(b)) },
			set: func(x *Row, m bool) {
				if m {
					put(x, max)
				} else {
					put(x, min)
				}
			},
			low: func(x *Row) bool { return f(x) == min },
			fix: func(x *Row) { put(x, min+1) },
		}
	}
	pickU := func(m bool, max uint64) uint64 {
		if m {
			return max
		}
		return 0
	}
	return []ofield{
		si(fI64, func(x *Row) int64 { return x.B }, func(x *Row, v int64) { x.B = v }, math.MinInt64, math.MaxInt64),
		si(fI32, func(x *Row) int64 { return int64(x.N) }, func(x *Row, v int64) { x.N = int32(v) }, math.MinInt32, math.MaxInt32),
		si(fI16, func(x *Row) int64 { return int64(x.H) }, func(x *Row, v int64) { x.H = int16(v) }, math.MinInt16, math.MaxInt16),
		ui(fU64, func(x *Row) uint64 { return uint64(x.W[2]) }, func(x *Row, m bool) { x.W[2] = int64(pickU(m, math.MaxUint64)) }),
		ui(fU32, func(x *Row) uint64 { return uint64(x.A) }, func(x *Row, m bool) { x.A = uint32(pickU(m, math.MaxUint32)) }),
		ui(fU16, func(x *Row) uint64 { return uint64(x.C) }, func(x *Row, m bool) { x.C = uint16(pickU(m, math.MaxUint16)) }),
		ui(fU8, func(x *Row) uint64 { return uint64(x.U) }, func(x *Row, m bool) { x.U = uint8(pickU(m, math.MaxUint8)) }),
		{Field: Field{Kind: fBytes, S: func(x *Row) []byte { return x.Fix }}, cmp: func(a, b *Row) int { return bytes.Compare(a.Fix, b.Fix) },
			set: func(x *Row, m bool) {
				x.Fix = []byte{0, 0, 0, 0}
				if m {
					x.Fix = []byte{255, 255, 255, 255}
				}
			}},
		{Field: Field{Kind: fBig128, G: bigW}, cmp: func(a, b *Row) int { return bigW(a).Cmp(bigW(b)) },
			set: func(x *Row, m bool) {
				x.W[0], x.W[1] = math.MinInt64, math.MinInt64
				if m {
					x.W[0], x.W[1] = math.MaxInt64, math.MaxInt64
				}
			}},
	}
}

// cmpPK compares primary keys by value.
func cmpPK(k PKKind, a, b *Row) int {
	switch k {
	case pkI64:
		return cmpI(int64(a.ID), int64(b.ID))
	case pkStr:
		return bytes.Compare(pkString(a.ID), pkString(b.ID))
	case pkComp:
		if c := cmpU(a.ID%4, b.ID%4); c != 0 {
			return c
		}
	case pkBig:
		return pkBigInt(a.ID).Cmp(pkBigInt(b.ID))
	}
	return cmpU(a.ID, b.ID)
}

func minPK(k PKKind) uint64 {
	switch k {
	case pkI64:
		return 1 << 63
	case pkBig:
		return math.MaxUint64 - 2
	}
	return 0
}

func runC09(c *Case) {
	r := c.R
	switch {
	case c.Idx < 16 || r.Intn(10) == 0:
		c09Direct(c)
	case c.Idx < 64 || r.Intn(60) == 0:
		c09Special(c)
	default:
		c09Table(c)
	}
}

func orderRow(r *rand.Rand, p *Profile, id uint64) Row {
	x := p.rowID(r, id)
	x.W = []int64{edgeI64(r), edgeI64(r), edgeI64(r)}
	if r.Intn(2) == 0 {
		x.W = []int64{int64(r.Intn(3) - 1), int64(r.Intn(9) - 4), int64(r.Intn(3) - 1)}
	}
	if len(x.Fix) == 0 {
		x.Fix = []byte{0, 0, 0, 0}
	}
	if r.Intn(3) == 0 { // ties
		x.B, x.N, x.H, x.A, x.C, x.U = int64(r.Intn(3)-1), int32(r.Intn(3)-1), int16(r.Intn(3)-1), uint32(r.Intn(2)), uint16(r.Intn(2)), uint8(r.Intn(2))
	}
	return x
}

func c09Table(c *Case) {
	r := c.R
	all := orderFields()
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	ofs := all[:1+r.Intn(4)]
	if r.Intn(5) < 2 {
		ofs = ofs[:1]
	}
	d := &IDef{ID: pick(r, []byte{1, 2, 7, 255}), Name: "o"}
	var desc string
	for i := range ofs {
		ofs[i].Desc = r.Intn(2) == 0
		d.Ord = append(d.Ord, ofs[i].Field)
		desc += fmt.Sprintf(" %d:%v", ofs[i].Kind, ofs[i].Desc)
	}
	keyed := r.Intn(3) > 0
	if keyed {
		d.Key = []Field{{Kind: fU8, U: func(x *Row) uint64 {
			if x.On {
				return 1
			}
			return 0
		}}}
	}
	def := &TDef{ID: 5, PK: PKKind(r.Intn(int(pkKinds))), Ser: SerKind(r.Intn(int(serKinds))), Idx: []*IDef{d}, Prefetch: pick(r, []int{0, 1, 3, 1000})}
	c.Logf("order%s desc, pk %v, ser %v, keyed %v", desc, def.PK, def.Ser, keyed)
	e := newEnv(c, EnvCfg{Ser: newSerializer(serCBOR)})
	t := newTab(e.db, def)
	t.Keep()
	p := &Profile{IDs: idPool(r, 24)}
	rows := map[uint64]Row{}
	gen := func(id uint64) Row {
		x := orderRow(r, p, id)
		for i := range ofs {
			// the smallest value of a signed type in a descending order is
			// judged by c09Special
			if f := &ofs[i]; f.Desc && f.low != nil && f.low(&x) {
				f.fix(&x)
			}
		}
		return x
	}
	kept := func(what string) {
		if s := t.KeptDiff(); s != "" {
			c.Fail("row-modified", "%s: a row handed in was modified: %s", what, s)
		}
	}
	less := func(a, b *Row) bool {
		for i := range ofs {
			if v := ofs[i].cmp(a, b); v != 0 {
				return (v < 0) != ofs[i].Desc
			}
		}
		return cmpPK(def.PK, a, b) < 0
	}
	check := func(what string) {
		on := r.Intn(2) == 0
		var want []Row
		for _, x := range rows {
			if !keyed || x.On == on {
				want = append(want, x)
			}
		}
		sort.Slice(want, func(i, j int) bool { return less(&want[i], &want[j]) })
		for i := 1; i < len(want) && len(want) >= 5; i++ {
			if ofs[0].cmp(&want[i-1], &want[i]) == 0 {
				c.Nontrivial()
			}
		}
		start := Row{ID: minPK(def.PK), On: on, W: []int64{0, 0, 0}, Fix: []byte{0, 0, 0, 0}}
		for i := range ofs {
			ofs[i].set(&start, ofs[i].Desc)
		}
		if len(want) > 0 && r.Intn(4) == 0 {
			k := r.Intn(len(want))
			start = want[k]
			want = want[k:]
		}
		rev := r.Intn(2) == 0
		if rev {
			for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
				want[i], want[j] = want[j], want[i]
			}
		}
		s := Sel{Kind: selPoint, Rows: []Row{start}}
		var got []Row
		var err error
		way := r.Intn(3)
		switch way {
		case 0:
			got, err = t.ScanIndex(bg, d.ID, s, rev, nil)
		case 1:
			err = t.ForEach(bg, d.ID, s, rev, nil, func(_ []byte, get func() (Row, error)) (bool, error) {
				x, err := get()
				got = append(got, x)
				return true, err
			})
		default:
			got, err = t.Query(bg, &QSpec{Idx: d.ID, Sel: &s, Reverse: rev}, nil)
		}
		if err != nil {
			c.Fail("order", "%s: listing: %v", what, err)
		}
		if df := rowsDiff(got, want); df != "" {
			c.Fail("order", "%s: listing (way %d, reverse %v) is out of order: %s", what, way, rev, df)
		}
		c.Eval(1)
		c.Count("listings", 1)
		c.Count("listed", len(got))
		kept(what)
	}
	var ids []uint64
	for n := 2 + r.Intn(5); n > 0; n-- {
		op := r.Intn(7)
		var rs, olds []Row
		var err error
		name := ""
		for _, i := range r.Perm(len(p.IDs)) {
			if id := p.IDs[i]; len(rs) < 1+r.Intn(16) {
				o, ok := rows[id]
				if ok == (op >= 2) || op == 1 {
					rs = append(rs, gen(id))
					olds = append(olds, o)
				}
			}
		}
		if len(rs) == 0 {
			continue
		}
		switch op {
		case 0:
			name, err = "insert", t.Insert(bg, rs, nil)
		case 1:
			name, err = "upsert", t.Upsert(bg, rs, nil, nil)
		case 2, 3:
			name, err = "update", t.Update(bg, rs, nil)
		case 4:
			name, err = "unsafe update", t.UnsafeUpdate(bg, rs, olds, nil)
		case 5:
			b := e.db.Batch(bond.BatchTypeReadWrite)
			name = "batch update"
			if err = t.Update(bg, rs, b); err == nil {
				err = b.Commit(bond.Sync)
			}
			_ = b.Close()
		default:
			if len(olds) > 4 {
				olds = olds[:4]
			}
			rs = nil
			for _, o := range olds {
				delete(rows, o.ID)
			}
			name, err = "delete", t.Delete(bg, olds, nil)
		}
		c.Logf("%s of %d rows", name, len(rs)+len(olds))
		c.Must(err, name)
		for _, x := range rs {
			rows[x.ID] = x
		}
		kept(name)
		check(name)
		check(name)
	}
	_ = ids
	if r.Intn(10) == 0 {
		c.Must(t.ReIndex([]byte{d.ID}), "ReIndex")
		kept("ReIndex")
		check("ReIndex")
	}
}

// c09Direct calls the order functions directly.
func c09Direct(c *Case) {
	r := c.R
	enc := func(v fval, d bond.IndexOrderType) []byte {
		o := bond.IndexOrder{KeyBuilder: bond.NewKeyBuilder(buffer(r))}
		switch v.k {
		case fU64:
			o = o.OrderUint64(v.u, d)
		case fU32:
			o = o.OrderUint32(uint32(v.u), d)
		case fU16:
			o = o.OrderUint16(uint16(v.u), d)
		case fU8:
			o = o.OrderByte(byte(v.u), d)
		case fI64:
			o = o.OrderInt64(v.i, d)
		case fI32:
			o = o.OrderInt32(int32(v.i), d)
		case fI16:
			o = o.OrderInt16(int16(v.i), d)
		case fBytes:
			keep := append([]byte(nil), v.b...)
			o = o.OrderBytes(v.b, d)
			if !bytes.Equal(keep, v.b) {
				c.Fail("row-modified", "OrderBytes changed its argument from %x to %x", keep, v.b)
			}
		default:
			keep := new(big.Int).Set(v.g)
			o = o.OrderBigInt(v.g, v.bits+v.odd, d)
			if keep.Cmp(v.g) != 0 {
				c.Fail("row-modified", "OrderBigInt changed its argument from %v to %v", keep, v.g)
			}
		}
		return append([]byte(nil), o.Bytes()...)
	}
	pair := func(x, y fval, want int, d bool) {
		a, b := enc(x, bond.IndexOrderType(d)), enc(y, bond.IndexOrderType(d))
		if d {
			want = -want
		}
		if got := bytes.Compare(a, b); got != want {
			c.Fail("order", "descending %v: %v and %v must sort %d, their orders %x and %x sort %d", d, x, y, want, a, b, got)
		}
		c.Eval(1)
		c.Count("pairs", 1)
	}
	d := r.Intn(2) == 0
	if c.Idx < 16 {
		d = c.Idx%2 == 0
		switch c.Idx / 2 {
		case 0:
			lo := math.MinInt16
			if d {
				lo++
			}
			for i := lo; i < math.MaxInt16; i++ {
				pair(fval{k: fI16, i: int64(i)}, fval{k: fI16, i: int64(i + 1)}, -1, d)
			}
		case 1:
			for i := 0; i < math.MaxUint16; i++ {
				pair(fval{k: fU16, u: uint64(i)}, fval{k: fU16, u: uint64(i + 1)}, -1, d)
			}
		case 2:
			for i := 0; i < 255; i++ {
				pair(fval{k: fU8, u: uint64(i)}, fval{k: fU8, u: uint64(i + 1)}, -1, d)
			}
		case 3:
			for i := -65535; i < 65535; i++ {
				pair(fval{k: fBig128, bits: 16, g: big.NewInt(int64(i))}, fval{k: fBig128, bits: 16, g: big.NewInt(int64(i + 1))}, -1, d)
			}
		}
	}
	for n := 0; n < 500; n++ {
		k := pick(r, []FKind{fU64, fU32, fU16, fU8, fI64, fI32, fI16, fBytes, fBig128})
		bits := pick(r, bigWidths)
		x := genVal(r, k, bits)
		y := near(r, x)
		if r.Intn(2) == 0 {
			y = genVal(r, k, bits)
		}
		if k == fBytes && len(y.b) != len(x.b) {
			y.b = append([]byte(nil), x.b...)
			if len(y.b) > 0 {
				y.b[r.Intn(len(y.b))] ^= byte(1 << r.Intn(8))
			}
		}
		if d { // see c09Special
			for _, v := range []*fval{&x, &y} {
				if m, ok := map[FKind]int64{fI64: math.MinInt64, fI32: math.MinInt32, fI16: math.MinInt16}[k]; ok && v.i == m {
					v.i++
				}
			}
		}
		pair(x, y, x.cmp(y), d)
	}
}

// c09Special observes the values whose stored format does not sort: the
// smallest signed value in a descending order, and byte strings of different
// lengths. A listing in exactly the order of that format is the recorded
// finding; any other wrong order is not.
func c09Special(c *Case) {
	r := c.R
	all := orderFields()
	f := all[r.Intn(3)]
	f.Desc = true
	key := "desc-min-int"
	byts := r.Intn(2) == 0
	if byts {
		f = all[7]
		f.Desc = r.Intn(2) == 0
		key = "order-bytes-length"
	}
	d := &IDef{ID: 3, Name: "o", Ord: []Field{f.Field}}
	def := &TDef{ID: 5, PK: pkU64, Ser: serCBOR, Idx: []*IDef{d}}
	e := newEnv(c, EnvCfg{Ser: newSerializer(serCBOR)})
	t := newTab(e.db, def)
	p := &Profile{IDs: []uint64{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}}
	var rs []Row
	for _, id := range p.IDs {
		x := orderRow(r, p, id)
		if id < 3 && !byts {
			f.set(&x, false)
		}
		if byts {
			x.Fix = x.Fix[:r.Intn(5)]
		}
		rs = append(rs, x)
	}
	c.Logf("special %s %v", key, f.Desc)
	c.Must(t.Insert(bg, rs, nil), "insert")
	// the listing of a raw scan of the whole index
	var got []Row
	for _, x := range e.dumpTable(def.ID) {
		if x.k[1] != d.ID {
			continue
		}
		id := bond.KeyBytes(x.k).ToKey().PrimaryKey
		for i := range rs {
			if bytes.Equal(id, def.pkBytes(&rs[i])) {
				got = append(got, rs[i])
			}
		}
	}
	want := append([]Row(nil), rs...)
	sort.Slice(want, func(i, j int) bool {
		if v := f.cmp(&want[i], &want[j]); v != 0 {
			return (v < 0) != f.Desc
		}
		return want[i].ID < want[j].ID
	})
	c.Count("special", 1)
	df := rowsDiff(got, want)
	if df == "" {
		return
	}
	format := append([]Row(nil), rs...)
	sort.Slice(format, func(i, j int) bool {
		a, b := &format[i], &format[j]
		if byts {
			if v := len(a.Fix) - len(b.Fix); v != 0 {
				return v < 0
			}
		} else if la, lb := f.low(a), f.low(b); la != lb {
			return la
		}
		if v := f.cmp(a, b); v != 0 {
			return (v < 0) != f.Desc
		}
		return a.ID < b.ID
	})
	if rowsDiff(got, format) != "" {
		c.Fail("order-special", "neither in value order nor in that of the recorded finding: %s", df)
	}
	c.Fail(key, "%s", df)
}

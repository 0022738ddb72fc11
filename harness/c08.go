package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"math/rand"

	"github.com/go-bond/bond"
)

func init() {
	register(&Check{ID: "C08", Level: "exploration", Quick: 30000, Thorough: 300000, Run: runC08,
		Rule: "random, neighbouring and extreme values of every field type alone and in composite keys (all 16-bit values exhaustively), encoded into random buffers; bytes compared with an independent encoder and with recorded vectors, byte order with value order, decoded parts with what was encoded; tables with keys longer than the pooled buffers; non-trivial: every case compares at least 100 pairs",
	})
}

// fval is a field value.
type fval struct {
	k    FKind
	bits int
	odd  int // declared on top of bits, rounded down in the layout
	u    uint64
	i    int64
	b    []byte
	g    *big.Int
}

func (v fval) String() string {
	switch v.k {
	case fStr, fBytes:
		return fmt.Sprintf("%q", clipB(v.b))
	case fBig128:
		return fmt.Sprintf("big%d:%v", v.bits, v.g)
	case fI16, fI32, fI64:
		return fmt.Sprintf("i:%d", v.i)
	}
	return fmt.Sprintf("u:%d", v.u)
}

func (v fval) spec() []byte {
	if v.k == fBig128 {
		return encBig(v.g, v.bits)
	}
	f := Field{Kind: v.k, U: func(*Row) uint64 { return v.u }, I: func(*Row) int64 { return v.i }, S: func(*Row) []byte { return v.b }}
	return f.specEnc(nil)
}

func (v fval) add(b bond.KeyBuilder) bond.KeyBuilder {
	switch v.k {
	case fU64:
		return b.AddUint64Field(v.u)
	case fU32:
		return b.AddUint32Field(uint32(v.u))
	case fU16:
		return b.AddUint16Field(uint16(v.u))
	case fU8:
		return b.AddByteField(byte(v.u))
	case fI64:
		return b.AddInt64Field(v.i)
	case fI32:
		return b.AddInt32Field(int32(v.i))
	case fI16:
		return b.AddInt16Field(int16(v.i))
	case fStr:
		return b.AddStringField(string(v.b))
	case fBytes:
		return b.AddBytesField(v.b)
	default:
		return b.AddBigIntField(v.g, v.bits+v.odd)
	}
}

func (v fval) cmp(o fval) int {
	switch v.k {
	case fU64, fU32, fU16, fU8:
		return cmpU(v.u, o.u)
	case fI64, fI32, fI16:
		switch {
		case v.i < o.i:
			return -1
		case v.i > o.i:
			return 1
		}
		return 0
	case fBig128:
		return v.g.Cmp(o.g)
	}
	return bytes.Compare(v.b, o.b)
}

func cmpU(a, b uint64) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func genBig(r *rand.Rand, bits int) *big.Int {
	max := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
	var v *big.Int
	switch r.Intn(6) {
	case 0:
		v = big.NewInt(int64(r.Intn(3)))
	case 1:
		v = new(big.Int).Set(max)
	case 2:
		v = new(big.Int).Sub(max, big.NewInt(int64(r.Intn(3))))
	case 3:
		v = new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(bits)))
		v.Sub(v, big.NewInt(int64(r.Intn(2))))
	default:
		v = new(big.Int).Rand(r, max)
		v.Rsh(v, uint(r.Intn(bits)))
	}
	if r.Intn(2) == 0 {
		v.Neg(v)
	}
	return v
}

func genVal(r *rand.Rand, k FKind, bits int) fval {
	v := fval{k: k, bits: bits, odd: max(0, r.Intn(16)-8)}
	switch k {
	case fU64:
		v.u = edgeU64(r)
	case fU32:
		v.u = uint64(uint32(edgeU64(r)))
		if r.Intn(8) == 0 {
			v.u = math.MaxUint32 - uint64(r.Intn(2))
		}
	case fU16:
		v.u = uint64(uint16(edgeU64(r)))
	case fU8:
		v.u = uint64(byte(edgeU64(r)))
	case fI64:
		v.i = edgeI64(r)
		if r.Intn(8) == 0 {
			v.i = pick(r, []int64{math.MinInt64, math.MinInt64 + 1, math.MaxInt64, -1, 0, 1})
		}
	case fI32:
		v.i = int64(int32(edgeI64(r)))
		if r.Intn(6) == 0 {
			v.i = pick(r, []int64{math.MinInt32, math.MinInt32 + 1, math.MaxInt32, -1, 0, 1})
		}
	case fI16:
		v.i = int64(int16(edgeI64(r)))
		if r.Intn(6) == 0 {
			v.i = pick(r, []int64{math.MinInt16, math.MinInt16 + 1, math.MaxInt16, -1, 0, 1})
		}
	case fStr, fBytes:
		n := r.Intn(6)
		if r.Intn(12) == 0 {
			n = pick(r, []int{100, 127, 128, 255, 256, 257, 2040, 2048, 2049, 5000})
			if r.Intn(20) == 0 {
				n = pick(r, []int{65535, 65536, 70000})
			}
		}
		v.b = make([]byte, n)
		for i := range v.b {
			v.b[i] = pick(r, []byte{0, 1, 'a', 'b', 0x7f, 0x80, 0xfe, 0xff, byte(r.Intn(256))})
		}
	default:
		v.g = genBig(r, bits)
	}
	return v
}

// near is a value next to another.
func near(r *rand.Rand, v fval) fval {
	o := v
	d := int64(r.Intn(3)) - 1
	switch v.k {
	case fU64:
		o.u += uint64(d)
	case fU32:
		o.u = uint64(uint32(v.u + uint64(d)))
	case fU16:
		o.u = uint64(uint16(v.u + uint64(d)))
	case fU8:
		o.u = uint64(byte(v.u + uint64(d)))
	case fI64:
		o.i += d
	case fI32:
		o.i = int64(int32(v.i + d))
	case fI16:
		o.i = int64(int16(v.i + d))
	case fStr, fBytes:
		o.b = append([]byte{}, v.b...)
		switch {
		case r.Intn(3) == 0:
			o.b = append(o.b, pick(r, []byte{0, 0xff}))
		case len(o.b) > 0 && r.Intn(2) == 0:
			o.b = o.b[:len(o.b)-1]
		case len(o.b) > 0:
			o.b[r.Intn(len(o.b))] += byte(d)
		}
	default:
		n := new(big.Int).Add(v.g, big.NewInt(d))
		if n.BitLen() <= v.bits {
			o.g = n
		}
	}
	return o
}

// buffer is a destination of random capacity holding garbage.
func buffer(r *rand.Rand) []byte {
	switch r.Intn(4) {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	b := make([]byte, pick(r, []int{1, 5, 9, 17, 64, 2048, 8192}))
	r.Read(b)
	return b[:0]
}

var bigWidths = []int{8, 16, 24, 32, 56, 64, 72, 128, 136, 192, 256, 264, 320, 512, 1032, 2048}

func runC08(c *Case) {
	r := c.R
	c.Nontrivial()
	switch {
	case c.Idx < 12:
		c08Exhaustive(c)
	case r.Intn(40) == 0:
		c08Table(c)
	default:
		c08Fields(c)
		c08Keys(c)
		if r.Intn(50) == 0 {
			c08OddWidth(c)
		}
	}
}

// c08OddWidth encodes an integer that needs all the bits of a width that is no
// multiple of eight.
func c08OddWidth(c *Case) {
	bits := pick(c.R, bigWidths) + 1 + c.R.Intn(7)
	v := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(int64(1+c.R.Intn(100))))
	var p any
	func() {
		defer func() { p = recover() }()
		bond.NewKeyBuilder(nil).AddBigIntField(v, bits)
	}()
	if p != nil {
		c.Fail("bigint-odd-width", "AddBigIntField panics for an integer of %d bits in a field of %d bits: %v", v.BitLen(), bits, p)
	}
}

// c08Exhaustive compares all neighbouring values of the small types and the
// recorded vectors.
func c08Exhaustive(c *Case) {
	var prev []byte
	step := func(v fval) {
		k := v.add(bond.NewKeyBuilder(buffer(c.R))).Bytes()
		if w := append([]byte{1}, v.spec()...); !bytes.Equal(k, w) {
			c.Fail("layout", "%v encodes to %x, the documented layout is %x", v, k, w)
		}
		if prev != nil && bytes.Compare(prev, k) >= 0 {
			c.Fail("order", "the encoding of %v, %x, does not follow that of the value before, %x", v, k, prev)
		}
		prev = append([]byte(nil), k...)
		c.Eval(1)
	}
	switch c.Idx % 4 {
	case 0:
		for i := math.MinInt16; i <= math.MaxInt16; i++ {
			step(fval{k: fI16, i: int64(i)})
		}
	case 1:
		for i := 0; i <= math.MaxUint16; i++ {
			step(fval{k: fU16, u: uint64(i)})
		}
	case 2:
		for i := -65535; i <= 65535; i++ {
			step(fval{k: fBig128, bits: 16, g: big.NewInt(int64(i))})
		}
	default:
		for i := 0; i < 256; i++ {
			step(fval{k: fU8, u: uint64(i)})
		}
		for _, g := range goldenKeys {
			if h := hex.EncodeToString(g.make()); h != g.hex {
				c.Fail("golden", "%s is encoded as %s, databases in use have %s", g.name, h, g.hex)
			}
			c.Count("golden", 1)
		}
	}
	c.Count("exhaustive", 1)
}

func c08Fields(c *Case) {
	r := c.R
	for n := 0; n < 60; n++ {
		// a composite of fixed-width fields, perhaps ended by a variable one
		var kinds []FKind
		k := 1 + r.Intn(4)
		if r.Intn(50) == 0 {
			k = 20 + r.Intn(200)
		}
		for ; k > 0; k-- {
			kinds = append(kinds, pick(r, []FKind{fU64, fU32, fU16, fU8, fI64, fI32, fI16, fBig128}))
		}
		if r.Intn(3) == 0 {
			kinds = append(kinds, pick(r, []FKind{fStr, fBytes}))
		}
		if r.Intn(2) == 0 {
			kinds = kinds[len(kinds)-1:]
		}
		bits := pick(r, bigWidths)
		var x, y []fval
		for _, k := range kinds {
			v := genVal(r, k, bits)
			x = append(x, v)
			switch r.Intn(4) {
			case 0:
				y = append(y, genVal(r, k, bits))
			case 1, 2:
				y = append(y, near(r, v))
			default:
				y = append(y, v)
			}
		}
		enc := func(vs []fval) []byte {
			b := bond.NewKeyBuilder(buffer(r))
			var w []byte
			for i, v := range vs {
				b = v.add(b)
				w = append(append(w, byte(i+1)), v.spec()...)
			}
			if !bytes.Equal(b.Bytes(), w) {
				c.Fail("layout", "%v encodes to %x, the documented layout is %x", vs, b.Bytes(), w)
			}
			return append([]byte(nil), b.Bytes()...)
		}
		a, b := enc(x), enc(y)
		want := 0
		for i := range x {
			if want = x[i].cmp(y[i]); want != 0 {
				break
			}
		}
		if got := bytes.Compare(a, b); got != want {
			c.Fail("order", "%v and %v compare %d, their encodings %x and %x compare %d", x, y, want, a, b, got)
		}
		c.Eval(1)
		c.Count("pairs", 1)
		c.Distinct(string(a) + "|" + string(b))
	}
}

func c08Keys(c *Case) {
	r := c.R
	part := func() []byte {
		if r.Intn(4) == 0 {
			return []byte{}
		}
		n := r.Intn(12)
		if r.Intn(20) == 0 {
			n = pick(r, []int{255, 256, 2038, 2048, 3000, 70000})
		}
		b := make([]byte, n)
		r.Read(b)
		return b
	}
	for n := 0; n < 40; n++ {
		t, i := byte(r.Intn(256)), byte(r.Intn(256))
		idx, ord, pk := part(), part(), part()
		if len(pk) == 0 {
			pk = []byte{byte(r.Intn(256))}
		}
		if i == 0 {
			idx, ord = []byte{}, []byte{}
		}
		want := specKey(t, i, idx, ord, pk)
		raw := bond.KeyEncodeRaw(bond.TableID(t), bond.IndexID(i),
			func(b []byte) []byte { return append(b, idx...) },
			func(b []byte) []byte { return append(b, ord...) },
			func(b []byte) []byte { return append(b, pk...) }, buffer(r))
		if !bytes.Equal(raw, want) {
			c.Fail("key-layout", "KeyEncodeRaw(%d, %d, %x, %x, %x) is %x", t, i, idx, ord, pk, raw)
		}
		k := bond.Key{TableID: bond.TableID(t), IndexID: bond.IndexID(i), Index: idx, IndexOrder: ord, PrimaryKey: pk}
		enc := bond.KeyEncode(k)
		if r.Intn(2) == 0 {
			enc = bond.KeyEncode(k, buffer(r))
		}
		if !bytes.Equal(enc, want) {
			c.Fail("key-layout", "KeyEncode(%d, %d, %x, %x, %x) is %x", t, i, idx, ord, pk, enc)
		}
		d := bond.KeyDecode(append([]byte(nil), raw...))
		if r.Intn(2) == 0 {
			d = bond.KeyBytes(raw).ToKey()
		}
		if byte(d.TableID) != t || byte(d.IndexID) != i || !bytes.Equal(d.Index, idx) || !bytes.Equal(d.IndexOrder, ord) || !bytes.Equal(d.PrimaryKey, pk) {
			c.Fail("key-decode", "decoding %x gives %+v", want, d)
		}
		kb := bond.KeyBytes(raw)
		if byte(kb.TableID()) != t || byte(kb.IndexID()) != i || !bytes.Equal(kb.Index(), idx) || kb.IsDataKey() != (i == 0) || kb.IsIndexKey() != (i != 0) {
			c.Fail("key-decode", "accessors of %x: table %d index %d key %x data %v index %v", want, kb.TableID(), kb.IndexID(), kb.Index(), kb.IsDataKey(), kb.IsIndexKey())
		}
		if k.IsDataKey() != (i == 0) || d.IsDataKey() != (i == 0) {
			c.Fail("key-decode", "Key.IsDataKey of %+v is %v", k, k.IsDataKey())
		}
		data := specKey(t, 0, nil, nil, pk)
		if g := kb.ToDataKeyBytes(buffer(r)); !bytes.Equal(g, data) {
			c.Fail("row-key", "the row key of %x is %x, got %x", want, data, g)
		}
		if g := kb.ToDataKeyBytes(); !bytes.Equal(g, data) {
			c.Fail("row-key", "the row key of %x is %x, got %x", want, data, g)
		}
		if g := bond.KeyEncode(k.ToDataKey()); !bytes.Equal(g, data) {
			c.Fail("row-key", "Key.ToDataKey of %x gives %x", want, g)
		}
		pre := want[:6+len(idx)]
		if g := bond.KeyEncode(k.ToKeyPrefix()); !bytes.Equal(g, pre) {
			c.Fail("prefix", "the prefix of %x is %x, got %x", want, pre, g)
		}
		cmp := bond.DefaultKeyComparer()
		if g := cmp.Split(raw); g != len(pre) {
			c.Fail("prefix", "Split(%x) is %d, the prefix has %d bytes", want, g, len(pre))
		}
		if other := specKey(t, i, part(), part(), part()); len(other) > 0 {
			if g, w := cmp.Compare(raw, other), bytes.Compare(raw, other); sign(g) != w {
				c.Fail("comparer", "the comparer orders %x and %x as %d", raw, other, g)
			}
			if cmp.Equal(raw, other) != bytes.Equal(raw, other) {
				c.Fail("comparer", "the comparer takes %x and %x for equal", raw, other)
			}
			lo, hi := raw, other
			if bytes.Compare(lo, hi) > 0 {
				lo, hi = hi, lo
			}
			if !bytes.Equal(lo, hi) {
				if s := cmp.Separator(nil, lo, hi); bytes.Compare(s, lo) < 0 || bytes.Compare(s, hi) >= 0 {
					c.Fail("comparer", "separator of %x and %x is %x", lo, hi, s)
				}
			}
			if s := cmp.Successor(nil, lo); bytes.Compare(s, lo) < 0 {
				c.Fail("comparer", "successor of %x is %x", lo, s)
			}
		}
		if !bytes.Equal(raw, want) {
			c.Fail("modified", "decoding changed the key %x to %x", want, raw)
		}
		c.Eval(1)
		c.Count("keys", 1)
	}
}

// c08Table reads the stored keys of a table with long keys.
func c08Table(c *Case) {
	r := c.R
	e := newEnv(c, EnvCfg{Ser: newSerializer(serCBOR)})
	pkf := []Field{{Kind: fU16, U: func(x *Row) uint64 { return uint64(x.C) }}, {Kind: fBytes, S: func(x *Row) []byte { return x.Data }}}
	key := []Field{{Kind: fU8, U: func(x *Row) uint64 { return uint64(x.U) }}, {Kind: fStr, S: func(x *Row) []byte { return []byte(x.Str) }}}
	ord := []Field{{Kind: fI64, Desc: true, I: func(x *Row) int64 { return x.B }}, {Kind: fBytes, S: func(x *Row) []byte { return x.Fix }}}
	t := bond.NewTable[*Row](bond.TableOptions[*Row]{DB: e.db, TableID: 7, TableName: "t", Serializer: newSerializer(serCBOR),
		TablePrimaryKeyFunc: func(b bond.KeyBuilder, x *Row) []byte { return bondKey(pkf, b, x) }, ScanPrefetchSize: pick(r, []int{0, 1, 3})})
	idx := bond.NewIndex[*Row](bond.IndexOptions[*Row]{IndexID: 9, IndexName: "i",
		IndexKeyFunc:   func(b bond.KeyBuilder, x *Row) []byte { return bondKey(key, b, x) },
		IndexOrderFunc: func(o bond.IndexOrder, x *Row) bond.IndexOrder { return bondOrder(ord, o, x) }})
	c.Must(t.AddIndex([]*bond.Index[*Row]{idx}), "AddIndex")
	long := func() []byte {
		b := make([]byte, pick(r, []int{1, 100, 1000, 2030, 2048, 2049, 4096, 9000}))
		r.Read(b)
		return b
	}
	want := map[string]bool{}
	var rows []*Row
	for i := 0; i < 30; i++ {
		x := &Row{C: uint16(i), Data: long(), U: byte(r.Intn(2)), Str: hex.EncodeToString(long()), B: edgeI64(r), Fix: long()}
		rows = append(rows, x)
		want[string(specKey(7, 0, nil, nil, specFields(pkf, x)))] = true
		want[string(specKey(7, 9, specFields(key, x), specFields(ord, x), specFields(pkf, x)))] = true
	}
	c.Must(t.Insert(bg, rows), "insert")
	got := e.dumpTable(7)
	for _, x := range got {
		if !want[string(x.k)] {
			c.Fail("stored-layout", "stored key of %d bytes is not in the documented layout: %x", len(x.k), clipB(x.k))
		}
	}
	if len(got) != len(want) {
		c.Fail("stored-layout", "%d keys stored, want %d", len(got), len(want))
	}
	for _, x := range rows {
		g, err := t.GetPoint(bg, x)
		if err != nil || !g.Equal(*x) {
			c.Fail("stored", "row with a key of %d bytes: %v", len(x.Data), err)
		}
		var ts []*Row
		err = t.ScanIndex(bg, idx, bond.NewSelectorPoint(x), &ts, false)
		if err != nil || len(ts) == 0 || !ts[0].Equal(*x) {
			c.Fail("stored", "index lookup of a key of %d bytes: %d rows, %v", len(x.Str), len(ts), err)
		}
		n := 0
		err = t.ScanIndexForEach(bg, idx, bond.NewSelectorPoint(x), func(k bond.KeyBytes, l bond.Lazy[*Row]) (bool, error) {
			g, err := l.Get()
			if err != nil {
				return false, err
			}
			if w := specKey(7, 0, nil, nil, specFields(pkf, g)); !bytes.Equal(k.ToDataKeyBytes(buffer(r)), w) {
				c.Fail("row-key", "index entry %s converts to another row's key", showKey(clipB(k)))
			}
			n++
			return true, nil
		}, r.Intn(2) == 0)
		if err != nil || n == 0 {
			c.Fail("stored", "scan: %d, %v", n, err)
		}
		c.Eval(3)
	}
	c.Count("long-key-tables", 1)
}

type golden struct {
	name string
	make func() []byte
	hex  string
}

var goldenKeys = []golden{
	{"int64 -1", func() []byte { return bond.NewKeyBuilder(nil).AddInt64Field(-1).Bytes() }, "0100fffffffffffffffe"},
	{"int64 min", func() []byte { return bond.NewKeyBuilder(nil).AddInt64Field(math.MinInt64).Bytes() }, "01007fffffffffffffff"},
	{"int32 5, int16 -3", func() []byte { return bond.NewKeyBuilder(nil).AddInt32Field(5).AddInt16Field(-3).Bytes() }, "0102000000050200fffc"},
	{"uint64 258, uint32, uint16, byte", func() []byte {
		return bond.NewKeyBuilder(nil).AddUint64Field(258).AddUint32Field(3).AddUint16Field(4).AddByteField(5).Bytes()
	}, "0100000000000001020200000003030004" + "0405"},
	{"string, bytes", func() []byte {
		return bond.NewKeyBuilder(nil).AddStringField("ab").AddBytesField([]byte{9, 8}).Bytes()
	}, "016162020908"},
	{"big -2 of 64 bits", func() []byte { return bond.NewKeyBuilder(nil).AddBigIntField(big.NewInt(-2), 64).Bytes() }, "0100fffffffffffffffd"},
	{"big 2 of 64 bits", func() []byte { return bond.NewKeyBuilder(nil).AddBigIntField(big.NewInt(2), 64).Bytes() }, "01020000000000000002"},
	{"user key", func() []byte { return bond.NewUserKey("abc") }, "00ff0000000000000000616263"},
	{"index entry", func() []byte {
		return bond.KeyEncode(bond.Key{TableID: 3, IndexID: 2, Index: []byte{7}, IndexOrder: []byte{8, 9}, PrimaryKey: []byte{1}})
	}, "03020000000107000000020809" + "01"},
	{"order desc int64 7, uint16 1", func() []byte {
		return bond.IndexOrder{KeyBuilder: bond.NewKeyBuilder(nil)}.OrderInt64(7, bond.IndexOrderTypeDESC).OrderUint16(1, bond.IndexOrderTypeDESC).Bytes()
	}, "0100fffffffffffffff802fffe"},
	{"order desc bytes, big", func() []byte {
		return bond.IndexOrder{KeyBuilder: bond.NewKeyBuilder(nil)}.OrderBytes([]byte{1, 2}, bond.IndexOrderTypeDESC).OrderBigInt(big.NewInt(5), 16, bond.IndexOrderTypeDESC).Bytes()
	}, "01fefd0200fffa"},
}

var _ = binary.BigEndian

func sign(i int) int {
	switch {
	case i < 0:
		return -1
	case i > 0:
		return 1
	}
	return 0
}

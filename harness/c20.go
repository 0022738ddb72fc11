package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"strings"
	"time"

	"github.com/fxamacker/cbor/v2"
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/serializers"
	"github.com/go-bond/bond/utils"
)

func init() {
	register(&Check{ID: "C20", Level: "exploration", Race: true, Quick: 1200, Thorough: 20000, Run: runC20,
		Rule: "every serializer and configuration (buffers and coders pooled or not, modes, value and pointer rows, maps and nested values) used by one and by several goroutines: rows of very different sizes written in every way offered, the bytes held, compared and read back at random later times and released, values it can't handle and damaged bytes mixed in, the same through tables; race detector; non-trivial: at least 200 values read back while others were held",
	})
}

// wide has the kinds of fields Row lacks.
type wide struct {
	F32  float32
	F64  float64
	Sub  *wide             `json:",omitempty" cbor:",omitempty" msgpack:",omitempty"`
	List []wide            `json:",omitempty" cbor:",omitempty" msgpack:",omitempty"`
	M    map[string][]byte `json:",omitempty" cbor:",omitempty" msgpack:",omitempty"`
	N    map[string]int64  `json:",omitempty" cbor:",omitempty" msgpack:",omitempty"`
	Arr  [3]uint16
	R    Row
	P    *Row `json:",omitempty" cbor:",omitempty" msgpack:",omitempty"`
	I8   int8
	U64  uint64
}

func randWide(r *rand.Rand, p *Profile, depth int) wide {
	w := wide{F32: float32(r.NormFloat64()), F64: pick(r, []float64{0, 1, -1.5, math.MaxFloat64, math.SmallestNonzeroFloat64, r.NormFloat64(), 1e300, 16777217}),
		I8: int8(r.Intn(256)), U64: edgeU64(r), Arr: [3]uint16{uint16(r.Intn(65536)), 0, 65535}}
	if r.Intn(2) == 0 {
		w.R = p.row(r)
	}
	if r.Intn(2) == 0 {
		x := p.row(r)
		w.P = &x
	}
	if depth < 2 && r.Intn(2) == 0 {
		s := randWide(r, p, depth+1)
		w.Sub = &s
	}
	for n := r.Intn(4); depth < 2 && n > 0; n-- {
		w.List = append(w.List, randWide(r, p, depth+1))
	}
	if r.Intn(2) == 0 {
		w.M = map[string][]byte{}
		w.N = map[string]int64{}
		for n := r.Intn(4); n >= 0; n-- {
			w.M[fmt.Sprint("k", r.Intn(100))] = []byte{byte(n), 255}
			w.N[fmt.Sprint("", r.Intn(100))] = edgeI64(r)
		}
	}
	return w
}

func (w wide) String() string {
	s := fmt.Sprintf("%v %v %v %v %v %v", w.F32, w.F64, w.Arr, w.R, w.I8, w.U64)
	if w.P != nil {
		s += " P" + w.P.String()
	}
	if w.Sub != nil {
		s += " S(" + w.Sub.String() + ")"
	}
	for _, l := range w.List {
		s += " L(" + l.String() + ")"
	}
	return s + fmt.Sprintf(" %v %v", w.M, w.N) // maps print sorted
}

// serVal is a value to write and how to read it.
type serVal struct {
	v    any // given to the serializer
	want string
	read func(s bond.Serializer[any], b []byte) (func() string, error)
	// reads two rows into one variable, what the first and then the variable hold
	twice func(s bond.Serializer[any], b1, b2 []byte) (string, string, error)
}

func readAs[T any](show func(*T) string) func(s bond.Serializer[any], b []byte) (func() string, error) {
	return func(s bond.Serializer[any], b []byte) (func() string, error) {
		var t T
		if err := s.Deserialize(b, &t); err != nil {
			return nil, err
		}
		return func() string { return show(&t) }, nil
	}
}

func readTwice[T any](show func(*T) string) func(s bond.Serializer[any], b1, b2 []byte) (string, string, error) {
	return func(s bond.Serializer[any], b1, b2 []byte) (string, string, error) {
		var t T
		if err := s.Deserialize(b1, &t); err != nil {
			return "", "", err
		}
		first := t
		if err := s.Deserialize(b2, &t); err != nil {
			return "", "", err
		}
		return show(&first), show(&t), nil
	}
}

func structVal(r *rand.Rand, p *Profile) serVal {
	x := p.row(r)
	if r.Intn(6) == 0 { // very long
		x.Data = bytes.Repeat([]byte{byte(r.Intn(256))}, 1<<uint(6+r.Intn(11)))
		x.Str = strings.Repeat("é", 1<<uint(r.Intn(12)))
	}
	if r.Intn(6) == 0 {
		x = Row{}
	}
	switch r.Intn(6) {
	case 0:
		return serVal{v: x, want: x.String(), read: readAs(func(t *Row) string { return t.String() })}
	case 1, 2:
		return serVal{v: &x, want: x.String(), read: readAs(func(t **Row) string { return (*t).String() })}
	case 3:
		w := randWide(r, p, 0)
		return serVal{v: &w, want: w.String(), read: readAs(func(t **wide) string { return (*t).String() })}
	case 4:
		rs := []Row{x, p.row(r)}[:r.Intn(3)]
		return serVal{v: rs, want: fmt.Sprint(rs), read: readAs(func(t *[]Row) string { return fmt.Sprint(append([]Row{}, *t...)) })}
	default:
		m := map[string]int64{}
		for n := r.Intn(5); n > 0; n-- {
			m[fmt.Sprint(r.Intn(50))] = edgeI64(r)
		}
		return serVal{v: m, want: fmt.Sprint(m), read: readAs(func(t *map[string]int64) string { return fmt.Sprint(*t) })}
	}
}

// timeVal is sometimes a time, which only some encoding modes keep entirely.
func timeVal(r *rand.Rand, p *Profile) serVal {
	if r.Intn(3) > 0 {
		return structVal(r, p)
	}
	show := func(t *time.Time) string { return t.UTC().String() }
	x := time.Unix(r.Int63n(1<<33), r.Int63n(1e9)).In(time.FixedZone("", 60*(r.Intn(1200)-600)))
	return serVal{v: x, want: show(&x), read: readAs(show), twice: readTwice(show)}
}

func msgpGenVal(r *rand.Rand, p *Profile) serVal {
	x := p.row(r)
	if r.Intn(6) == 0 {
		x.Data = bytes.Repeat([]byte{byte(r.Intn(256))}, 1<<uint(6+r.Intn(11)))
	}
	if r.Intn(6) == 0 {
		x = Row{}
	}
	ptr := func(t **RowG) string { return (*t).Row.String() }
	val := func(t *RowG) string { return t.Row.String() }
	switch r.Intn(3) {
	case 0:
		g := &RowG{x}
		return serVal{v: &g, want: x.String(), read: readAs(ptr), twice: readTwice(ptr)}
	case 1:
		return serVal{v: &RowG{x}, want: x.String(), read: readAs(val), twice: readTwice(val)}
	default:
		return serVal{v: &RowG{x}, want: x.String(), read: readAs(ptr), twice: readTwice(ptr)}
	}
}

func protoVal(r *rand.Rand, p *Profile) serVal {
	x := p.row(r)
	if r.Intn(6) == 0 {
		x = Row{}
	}
	return serVal{v: &RowP{x}, want: x.String(), read: readAs(func(t *RowP) string { return t.Row.String() })}
}

// msgV1 is a row for the standard protobuf functions.
type msgV1 struct{ Row }

func (m *msgV1) Reset()         { m.Row = Row{} }
func (m *msgV1) String() string { return m.Row.String() }
func (m *msgV1) ProtoMessage()  {}

type v1Coder struct{}

func (v1Coder) Marshal(m serializers.ProtobufMessageV1) ([]byte, error) {
	return (&RowP{m.(*msgV1).Row}).MarshalVT()
}
func (v1Coder) Unmarshal(b []byte, m serializers.ProtobufMessageV1) error {
	m.Reset()
	p := RowP{}
	err := p.UnmarshalVT(b)
	m.(*msgV1).Row = p.Row
	return err
}

func v1Val(r *rand.Rand, p *Profile) serVal {
	x := p.row(r)
	if r.Intn(4) == 0 {
		return protoVal(r, p)
	}
	return serVal{v: &msgV1{x}, want: x.String(), read: readAs(func(t *msgV1) string { return t.Row.String() })}
}

type serUse struct {
	name string
	s    bond.Serializer[any]
	val  func(r *rand.Rand, p *Profile) serVal
	bad  []any // values it can't write
	junk bool  // damaged bytes have to be refused at least when cut
}

func bufferPool() utils.SyncPool[bytes.Buffer] {
	b := &utils.SyncPoolWrapper[bytes.Buffer]{}
	b.New = func() any { return bytes.Buffer{} }
	return b
}

func serUses(c *Case) serUse {
	r := c.R
	odd := []any{make(chan int), func() {}, map[string]any{"f": func() {}}, struct{ C chan int }{make(chan int)}, []any{1, make(chan bool)}}
	alien := []any{1, "text", struct{ A int }{1}, &struct{ A int }{1}, Row{}, &Row{}, nil, (*Row)(nil), []RowG{{}}, map[string]int{}}
	switch r.Intn(10) {
	case 0:
		return serUse{"json", &serializers.JsonSerializer{}, structVal, append(odd, math.NaN(), math.Inf(1)), true}
	case 1:
		return serUse{"cbor", &serializers.CBORSerializer{}, structVal, odd, true}
	case 2:
		opt := pick(r, []cbor.EncOptions{cbor.CanonicalEncOptions(), cbor.CoreDetEncOptions(), cbor.CTAP2EncOptions(), {}})
		opt.Time = cbor.TimeRFC3339Nano
		em, err := opt.EncMode()
		c.Must(err, "cbor")
		dm, err := cbor.DecOptions{MaxNestedLevels: 64}.DecMode()
		c.Must(err, "cbor")
		return serUse{"cbor-modes", &serializers.CBORSerializer{EncMode: em, DecMode: dm}, timeVal, odd, true}
	case 3:
		return serUse{"msgpack", &serializers.MsgpackSerializer{}, structVal, odd, true}
	case 4:
		return serUse{"msgpack-pooled", newPooledMsgpack(), structVal, odd, true}
	case 5:
		s := newPooledMsgpack()
		s.Buffer = nil
		return serUse{"msgpack-coders", s, structVal, odd, true}
	case 6:
		return serUse{"msgpgen", &serializers.MsgpackGenSerializer{}, msgpGenVal, alien, true}
	case 7:
		return serUse{"msgpgen-pooled", &serializers.MsgpackGenSerializer{Buffer: bufferPool()}, msgpGenVal, alien, true}
	case 8:
		return serUse{"proto", &serializers.ProtobufSerializer{}, protoVal, append(alien, &msgV1{}), false}
	default:
		return serUse{"proto-v1", &serializers.ProtobufSerializer{Encoder: v1Coder{}, Decoder: v1Coder{}}, v1Val, alien, false}
	}
}

// heldBytes is a serialized value in someone's hands.
type heldBytes struct {
	v    serVal
	b    []byte
	copy []byte
	free func()
}

func runC20(c *Case) {
	r := c.R
	if r.Intn(5) == 0 {
		c20Tables(c)
		return
	}
	u := serUses(c)
	n := 1
	if r.Intn(2) == 0 {
		n = 2 + r.Intn(6)
	}
	c.Logf("%s, %d users", u.name, n)
	c.Count(u.name, 1)
	read := make([]int, n)
	c.Par(n, func(g int, r *rand.Rand) { read[g] = u.use(c, r, 120) })
	t := 0
	for _, k := range read {
		t += k
	}
	c.Eval(t)
	c.Distinct(fmt.Sprint(u.name, n, t))
	c.Count("read-back", t)
	if t >= 200 || n == 1 && t >= 100 {
		c.Nontrivial()
	}
}

// use makes a random sequence of calls and returns how many values it compared.
func (u *serUse) use(c *Case, r *rand.Rand, steps int) int {
	p := &Profile{IDs: idPool(r, 30), Small: r.Intn(2) == 0, Zero: 40}
	var held []*heldBytes
	reads := 0
	var buf bytes.Buffer
	var viaBuf func(any) ([]byte, error)
	if sb, ok := u.s.(bond.SerializerWithBuffer[any]); ok && r.Intn(2) == 0 {
		viaBuf = sb.SerializeFuncWithBuffer(&buf)
	}
	var last *heldBytes // valid until the function with buffer is called again
	check := func(h *heldBytes, when string) {
		if !bytes.Equal(h.b, h.copy) {
			c.Fail("bytes", "%s: bytes handed out earlier changed %s: %x became %x", u.name, when, clipB(h.copy), clipB(h.b))
		}
		from := h.b
		if r.Intn(2) == 0 {
			from = append([]byte(nil), h.b...)
		}
		show, err := h.v.read(u.s, from)
		if err != nil {
			c.Fail("round-trip", "%s: reading back %s: %v", u.name, clipS(h.v.want), err)
		}
		if got := show(); got != h.v.want {
			c.Fail("round-trip", "%s: wrote %s, read %s", u.name, clipS(h.v.want), clipS(got))
		}
		if len(from) > 0 && &from[0] != &h.b[0] {
			// the row does not depend on the bytes any more
			for i := range from {
				from[i] ^= 0x55
			}
			if got := show(); got != h.v.want {
				c.Fail("mixed", "%s: %s became %s when the bytes it was read from changed", u.name, clipS(h.v.want), clipS(got))
			}
		}
		if len(held) > 0 && h.v.twice != nil {
			if o := pick(r, held); o.v.twice != nil && fmt.Sprintf("%T", o.v.v) == fmt.Sprintf("%T", h.v.v) {
				first, second, err := h.v.twice(u.s, h.b, o.b)
				if err != nil || first != h.v.want || second != o.v.want {
					c.Fail("mixed", "%s: %s and %s read into one variable give %s and %s, %v", u.name, clipS(h.v.want), clipS(o.v.want), clipS(first), clipS(second), err)
				}
				c.Count("one-variable", 1)
			}
		}
		if !bytes.Equal(h.b, h.copy) {
			c.Fail("bytes", "%s: reading changed the bytes", u.name)
		}
		reads++
	}
	hold := func(v serVal, b []byte, free func()) *heldBytes {
		h := &heldBytes{v, b, append([]byte(nil), b...), free}
		return h
	}
	for i := 0; i < steps; i++ {
		switch k := r.Intn(12); {
		case k < 3:
			v := u.val(r, p)
			b, err := u.s.Serialize(v.v)
			if err != nil {
				c.Fail("write", "%s: writing %s: %v", u.name, clipS(v.want), err)
			}
			held = append(held, hold(v, b, nil))
		case k < 6:
			sc, ok := u.s.(bond.SerializerWithClosable[any])
			if !ok {
				continue
			}
			v := u.val(r, p)
			b, free, err := sc.SerializerWithCloseable(v.v)
			if err != nil {
				c.Fail("write", "%s: writing %s: %v", u.name, clipS(v.want), err)
			}
			held = append(held, hold(v, b, free))
		case k < 8 && viaBuf != nil:
			if last != nil {
				check(last, "before the next call with the buffer")
				last = nil
			}
			v := u.val(r, p)
			b, err := viaBuf(v.v)
			if err != nil {
				c.Fail("write", "%s: writing %s with a buffer: %v", u.name, clipS(v.want), err)
			}
			last = hold(v, b, nil)
		case k == 8: // something it can't handle
			v := pick(r, u.bad)
			u.refuse(c, v, viaBuf)
			if viaBuf != nil {
				last = nil
			}
		case k == 9 && len(held) > 0 && u.junk: // damaged bytes
			h := pick(r, held)
			if len(h.copy) > 1 {
				d := append([]byte(nil), h.copy[:1+r.Intn(len(h.copy)-1)]...)
				if _, err := h.v.read(u.s, d); err == nil && !sameLen(u.s, h, d) {
					c.Fail("damaged", "%s: %d of %d bytes are accepted", u.name, len(d), len(h.copy))
				}
				c.Count("damaged", 1)
			}
		default:
			if len(held) == 0 {
				continue
			}
			j := r.Intn(len(held))
			h := held[j]
			check(h, "while held")
			if r.Intn(3) > 0 {
				if h.free != nil {
					h.free()
				}
				held = append(held[:j], held[j+1:]...)
			}
		}
	}
	for _, h := range held {
		check(h, "while held")
	}
	for _, h := range held {
		if h.free != nil {
			h.free()
		}
	}
	return reads
}

// sameLen tells whether the value is as complete in the bytes left as in all
// (a cut inside of ignored trailing bytes).
func sameLen(s bond.Serializer[any], h *heldBytes, d []byte) bool {
	got, err := h.v.read(s, d)
	return err == nil && got() == h.v.want
}

func (u *serUse) refuse(c *Case, v any, viaBuf func(any) ([]byte, error)) {
	try := func(name string, f func() ([]byte, error)) {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(failure); ok {
					panic(x)
				}
				c.Fail("refuse", "%s: %s of %T panics: %v", u.name, name, v, x)
			}
		}()
		if b, err := f(); err == nil {
			c.Fail("refuse", "%s: %s of %T gives %x, it can't be read back", u.name, name, v, clipB(b))
		}
	}
	try("Serialize", func() ([]byte, error) { return u.s.Serialize(v) })
	if sc, ok := u.s.(bond.SerializerWithClosable[any]); ok {
		try("SerializerWithCloseable", func() ([]byte, error) { b, _, err := sc.SerializerWithCloseable(v); return b, err })
	}
	if viaBuf != nil {
		try("SerializeFuncWithBuffer", func() ([]byte, error) { return viaBuf(v) })
	}
	c.Count("refused", 1)
}

func clipS(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// c20Tables writes and reads rows of very different sizes through tables that
// share a serializer, from several goroutines.
func c20Tables(c *Case) {
	r := c.R
	e := newEnv(c, EnvCfg{Ser: newSerializer(serCBOR)})
	kind := SerKind(r.Intn(int(serKinds)))
	n := 1 + r.Intn(4)
	var hs []*Hist
	for g := 0; g < n; g++ {
		d := &TDef{ID: byte(1 + g), PK: PKKind(r.Intn(int(pkKinds))), Ser: kind, Idx: pickIndexes(r, 1)}
		d.pkFieldsOf()
		hs = append(hs, &Hist{c: c, e: e, t: newTab(e.db, d), m: newModel(d), batch: true, noRef: true})
	}
	c.Logf("%d tables, %v", n, kind)
	c.Count("tables", n)
	c.Par(n, func(g int, r *rand.Rand) {
		h := hs[g]
		h.r = r
		h.p = &Profile{IDs: idPool(r, 25), Small: r.Intn(2) == 0, Zero: 40}
		bad := func(key, f string, a ...any) { c.Fail("table", f, a...) }
		for i := 0; i < 15; i++ {
			if r.Intn(3) == 0 { // short after long
				rs := h.absent(6)
				for j := range rs {
					if r.Intn(2) == 0 {
						rs[j].Data = bytes.Repeat([]byte{byte(j)}, 1<<uint(4+r.Intn(11)))
					} else {
						rs[j] = Row{ID: rs[j].ID}
					}
				}
				if err := h.t.Insert(bg, rs, nil); err != nil {
					c.Fail("table", "%v: insert: %v", kind, err)
				}
				h.m.Put(rs)
			}
			h.step(bad)
			got, err := h.t.Scan(bg, false, nil)
			if err != nil {
				c.Fail("table", "%v: scan: %v", kind, err)
			}
			if d := rowsDiff(got, entRows(h.m.selEntries(0, nil, false))); d != "" {
				c.Fail("table", "%v: %s", kind, d)
			}
			c.Count("read-back", len(got))
			c.Eval(1)
		}
	})
	c.Nontrivial()
}

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"github.com/tinylib/msgp/msgp"
)

// Row is the canonical row of the models.
type Row struct {
	ID   uint64
	A    uint32
	B    int64
	C    uint16
	N    int32
	H    int16
	U    uint8
	On   bool
	Str  string
	Fix  []byte            `json:",omitempty" cbor:",omitempty" msgpack:",omitempty"` // always 0 or 4 bytes
	Data []byte            `json:",omitempty" cbor:",omitempty" msgpack:",omitempty"`
	Tags map[string]string `json:",omitempty" cbor:",omitempty" msgpack:",omitempty"`
	Opt  *int64            `json:",omitempty" cbor:",omitempty" msgpack:",omitempty"`
	W    []int64           `json:",omitempty" cbor:",omitempty" msgpack:",omitempty"`
}

func (r Row) Clone() Row {
	r.Fix = append([]byte(nil), r.Fix...)
	r.Data = append([]byte(nil), r.Data...)
	r.W = append([]int64(nil), r.W...)
	if r.Tags != nil {
		t := make(map[string]string, len(r.Tags))
		for k, v := range r.Tags {
			t[k] = v
		}
		r.Tags = t
	}
	if r.Opt != nil {
		o := *r.Opt
		r.Opt = &o
	}
	return r
}

// String is canonical: nil and empty collections are the same.
func (r Row) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "{%d A%d B%d C%d N%d H%d U%d %v %q", r.ID, r.A, r.B, r.C, r.N, r.H, r.U, r.On, r.Str)
	if len(r.Fix) > 0 {
		fmt.Fprintf(&sb, " F%x", r.Fix)
	}
	if len(r.Data) > 0 {
		if len(r.Data) > 24 {
			fmt.Fprintf(&sb, " D[%d]%016x", len(r.Data), hashString(string(r.Data)))
		} else {
			fmt.Fprintf(&sb, " D%x", r.Data)
		}
	}
	if len(r.Tags) > 0 {
		ks := make([]string, 0, len(r.Tags))
		for k := range r.Tags {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&sb, " %q=%q", k, r.Tags[k])
		}
	}
	if r.Opt != nil {
		fmt.Fprintf(&sb, " O%d", *r.Opt)
	}
	if len(r.W) > 0 {
		fmt.Fprintf(&sb, " W%v", r.W)
	}
	sb.WriteByte('}')
	return sb.String()
}

func (r Row) Equal(o Row) bool {
	if r.ID != o.ID || r.A != o.A || r.B != o.B || r.C != o.C || r.N != o.N || r.H != o.H || r.U != o.U || r.On != o.On || r.Str != o.Str {
		return false
	}
	if !bytes.Equal(r.Fix, o.Fix) || !bytes.Equal(r.Data, o.Data) || len(r.Tags) != len(o.Tags) || len(r.W) != len(o.W) {
		return false
	}
	for k, v := range r.Tags {
		if w, ok := o.Tags[k]; !ok || w != v {
			return false
		}
	}
	for i := range r.W {
		if r.W[i] != o.W[i] {
			return false
		}
	}
	if (r.Opt == nil) != (o.Opt == nil) || (r.Opt != nil && *r.Opt != *o.Opt) {
		return false
	}
	return true
}

// RowG is a row with msgp-style generated methods.
type RowG struct{ Row }

func (z *RowG) EncodeMsg(en *msgp.Writer) (err error) {
	put := func(e error) {
		if err == nil {
			err = e
		}
	}
	put(en.WriteMapHeader(14))
	k := func(s string) { put(en.WriteString(s)) }
	k("ID")
	put(en.WriteUint64(z.ID))
	k("A")
	put(en.WriteUint32(z.A))
	k("B")
	put(en.WriteInt64(z.B))
	k("C")
	put(en.WriteUint16(z.C))
	k("N")
	put(en.WriteInt32(z.N))
	k("H")
	put(en.WriteInt16(z.H))
	k("U")
	put(en.WriteUint8(z.U))
	k("On")
	put(en.WriteBool(z.On))
	k("Str")
	put(en.WriteString(z.Str))
	k("Fix")
	put(en.WriteBytes(z.Fix))
	k("Data")
	put(en.WriteBytes(z.Data))
	k("Tags")
	put(en.WriteMapHeader(uint32(len(z.Tags))))
	for kk, v := range z.Tags {
		put(en.WriteString(kk))
		put(en.WriteString(v))
	}
	k("Opt")
	if z.Opt == nil {
		put(en.WriteNil())
	} else {
		put(en.WriteInt64(*z.Opt))
	}
	k("W")
	put(en.WriteArrayHeader(uint32(len(z.W))))
	for _, v := range z.W {
		put(en.WriteInt64(v))
	}
	return
}

func (z *RowG) DecodeMsg(dc *msgp.Reader) (err error) {
	n, err := dc.ReadMapHeader()
	if err != nil {
		return err
	}
	for i := uint32(0); i < n; i++ {
		f, err := dc.ReadString()
		if err != nil {
			return err
		}
		switch f {
		case "ID":
			z.ID, err = dc.ReadUint64()
		case "A":
			z.A, err = dc.ReadUint32()
		case "B":
			z.B, err = dc.ReadInt64()
		case "C":
			z.C, err = dc.ReadUint16()
		case "N":
			z.N, err = dc.ReadInt32()
		case "H":
			z.H, err = dc.ReadInt16()
		case "U":
			z.U, err = dc.ReadUint8()
		case "On":
			z.On, err = dc.ReadBool()
		case "Str":
			z.Str, err = dc.ReadString()
		case "Fix":
			z.Fix, err = dc.ReadBytes(z.Fix)
		case "Data":
			z.Data, err = dc.ReadBytes(z.Data)
		case "Tags":
			var m uint32
			m, err = dc.ReadMapHeader()
			if err != nil {
				return err
			}
			// like generated code: an existing map is emptied and reused
			if z.Tags == nil {
				z.Tags = make(map[string]string, m)
			} else {
				for k := range z.Tags {
					delete(z.Tags, k)
				}
			}
			for j := uint32(0); j < m; j++ {
				k, e := dc.ReadString()
				if e != nil {
					return e
				}
				v, e := dc.ReadString()
				if e != nil {
					return e
				}
				z.Tags[k] = v
			}
		case "Opt":
			if dc.IsNil() {
				err = dc.ReadNil()
				z.Opt = nil
			} else {
				if z.Opt == nil {
					z.Opt = new(int64)
				}
				*z.Opt, err = dc.ReadInt64()
			}
		case "W":
			var m uint32
			m, err = dc.ReadArrayHeader()
			if cap(z.W) >= int(m) {
				z.W = z.W[:m]
			} else {
				z.W = make([]int64, m)
			}
			for j := range z.W {
				if z.W[j], err = dc.ReadInt64(); err != nil {
					return err
				}
			}
		default:
			err = dc.Skip()
		}
		if err != nil {
			return err
		}
	}
	return nil
}

// RowP is a row with vtprotobuf-style methods: zero fields are omitted and
// unmarshalling merges into the receiver, as generated code does.
type RowP struct{ Row }

func pbTag(b []byte, f, w int) []byte { return binary.AppendUvarint(b, uint64(f<<3|w)) }

func (m *RowP) MarshalVT() ([]byte, error) {
	var b []byte
	vi := func(f int, v uint64) {
		if v != 0 {
			b = pbTag(b, f, 0)
			b = binary.AppendUvarint(b, v)
		}
	}
	by := func(f int, v []byte) {
		if len(v) > 0 {
			b = pbTag(b, f, 2)
			b = binary.AppendUvarint(b, uint64(len(v)))
			b = append(b, v...)
		}
	}
	vi(1, m.ID)
	vi(2, uint64(m.A))
	vi(3, uint64(m.B))
	vi(4, uint64(m.C))
	vi(5, uint64(int64(m.N)))
	vi(6, uint64(int64(m.H)))
	vi(7, uint64(m.U))
	if m.On {
		vi(8, 1)
	}
	by(9, []byte(m.Str))
	by(10, m.Fix)
	by(11, m.Data)
	ks := make([]string, 0)
	for k := range m.Tags {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		var e []byte
		e = pbTag(e, 1, 2)
		e = binary.AppendUvarint(e, uint64(len(k)))
		e = append(e, k...)
		e = pbTag(e, 2, 2)
		e = binary.AppendUvarint(e, uint64(len(m.Tags[k])))
		e = append(e, m.Tags[k]...)
		b = pbTag(b, 12, 2)
		b = binary.AppendUvarint(b, uint64(len(e)))
		b = append(b, e...)
	}
	if m.Opt != nil {
		b = pbTag(b, 13, 0)
		b = binary.AppendUvarint(b, uint64(*m.Opt))
	}
	for _, v := range m.W {
		b = pbTag(b, 14, 0)
		b = binary.AppendUvarint(b, uint64(v))
	}
	return b, nil
}

func pbField(b []byte) (f, w int, v uint64, s, rest []byte, err error) {
	t, n := binary.Uvarint(b)
	if n <= 0 {
		return 0, 0, 0, nil, nil, fmt.Errorf("bad tag")
	}
	b = b[n:]
	f, w = int(t>>3), int(t&7)
	v, n = binary.Uvarint(b)
	if n <= 0 {
		return 0, 0, 0, nil, nil, fmt.Errorf("bad varint")
	}
	b = b[n:]
	if w == 2 {
		if uint64(len(b)) < v {
			return 0, 0, 0, nil, nil, fmt.Errorf("short")
		}
		return f, w, v, b[:v], b[v:], nil
	}
	if w != 0 {
		return 0, 0, 0, nil, nil, fmt.Errorf("bad wire type")
	}
	return f, w, v, nil, b, nil
}

func (m *RowP) UnmarshalVT(b []byte) error {
	for len(b) > 0 {
		f, _, v, s, rest, err := pbField(b)
		if err != nil {
			return err
		}
		b = rest
		switch f {
		case 1:
			m.ID = v
		case 2:
			m.A = uint32(v)
		case 3:
			m.B = int64(v)
		case 4:
			m.C = uint16(v)
		case 5:
			m.N = int32(v)
		case 6:
			m.H = int16(v)
		case 7:
			m.U = uint8(v)
		case 8:
			m.On = v != 0
		case 9:
			m.Str = string(s)
		case 10:
			m.Fix = append(m.Fix[:0], s...)
		case 11:
			m.Data = append(m.Data[:0], s...)
		case 12:
			_, _, _, k, r2, err := pbField(s)
			if err != nil {
				return err
			}
			_, _, _, val, _, err := pbField(r2)
			if err != nil {
				return err
			}
			if m.Tags == nil {
				m.Tags = map[string]string{}
			}
			m.Tags[string(k)] = string(val)
		case 13:
			o := int64(v)
			m.Opt = &o
		case 14:
			m.W = append(m.W, int64(v))
		}
	}
	return nil
}

// ---- generation ----

var u64Edge = []uint64{0, 1, 2, 3, 127, 128, 254, 255, 256, 257, 510, 511, 512, 0xFFFE, 0xFFFF, 0x10000, 0xFFFFFF, 0x1000000, math.MaxUint32, 1 << 32, math.MaxInt64, 1 << 63, math.MaxUint64 - 1, math.MaxUint64, 0xFF00, 0xFFFF00, 0x00FF00FF, 0xFF00FF00FF00FFFF}
var i64Edge = []int64{0, 1, -1, 2, -2, 127, 128, -127, -128, -129, 255, 256, -255, -256, -257, 32767, -32768, 65535, 65536, -65536, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, math.MaxInt64 - 1}

func pick[T any](r *rand.Rand, s []T) T { return s[r.Intn(len(s))] }

func edgeU64(r *rand.Rand) uint64 {
	switch r.Intn(4) {
	case 0:
		return r.Uint64()
	default:
		return pick(r, u64Edge)
	}
}

func edgeI64(r *rand.Rand) int64 {
	if r.Intn(4) == 0 {
		return int64(r.Uint64())
	}
	return pick(r, i64Edge)
}

var strPool = []string{"", "a", "b", "ab", "a\x00", "é", "日本", "z", "zz", "\x01", "\x02", "a\x02b", "\u007f", "quote\"'\\", "\n\t", "𝄞", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"}

// Profile bounds the value domains of generated rows.
type Profile struct {
	IDs   []uint64
	Small bool // few distinct index values: heavy collisions
	Big   bool // occasionally large payloads
	Huge  bool // often payloads of megabytes
	Zero  int  // percent chance that an optional field is zero
}

func (p *Profile) row(r *rand.Rand) Row { return p.rowID(r, pick(r, p.IDs)) }

func (p *Profile) rowID(r *rand.Rand, id uint64) Row {
	x := Row{ID: id}
	z := p.Zero
	if z == 0 {
		z = 35
	}
	has := func() bool { return r.Intn(100) >= z }
	if p.Small {
		x.A = uint32(r.Intn(3))
		x.B = int64(r.Intn(5) - 2)
		x.C = uint16(r.Intn(2) * 255)
		x.N = int32(r.Intn(3) - 1)
		x.H = int16(r.Intn(3) - 1)
		x.U = uint8(r.Intn(3))
	} else {
		x.A = uint32(edgeU64(r))
		if r.Intn(2) == 0 {
			x.A = uint32(r.Intn(4)) + 254
		}
		x.B = edgeI64(r)
		x.C = uint16(edgeU64(r))
		x.N = int32(edgeI64(r))
		x.H = int16(edgeI64(r))
		x.U = uint8(edgeU64(r))
	}
	x.On = r.Intn(2) == 0
	if has() {
		x.Str = pick(r, strPool)
	}
	if has() {
		x.Fix = beN(edgeU64(r), 4)
		x.Fix = append([]byte(nil), x.Fix...)
	}
	if has() {
		n := r.Intn(12)
		if p.Big && r.Intn(20) == 0 {
			n = 1500 + r.Intn(6000)
		}
		x.Data = make([]byte, n)
		r.Read(x.Data)
	}
	if p.Huge && r.Intn(8) == 0 {
		x.Data = bytes.Repeat([]byte{byte(id)}, 1<<20+r.Intn(3<<20))
	}
	if has() {
		x.Tags = map[string]string{}
		for i := r.Intn(3); i >= 0; i-- {
			x.Tags[pick(r, []string{"x", "y", "z", "k\x00", "long-key"})] = pick(r, strPool)
		}
	}
	if has() {
		var v int64
		if p.Small {
			v = int64(r.Intn(3))
		} else {
			v = edgeI64(r)
		}
		x.Opt = &v
	}
	if has() {
		for i := r.Intn(4); i > 0; i-- {
			x.W = append(x.W, edgeI64(r))
		}
	}
	return x
}

// mutate changes some fields of a row, keeping its ID.
func (p *Profile) mutate(r *rand.Rand, x Row) Row {
	n := p.rowID(r, x.ID)
	y := x.Clone()
	switch r.Intn(8) {
	case 0:
		return n
	case 6: // a prefix or an extension
		if len(y.Str) > 0 && r.Intn(2) == 0 {
			y.Str = strings.ToValidUTF8(y.Str[:r.Intn(len(y.Str))], "")
		} else {
			y.Str += pick(r, strPool)
		}
		if len(y.Str) > 100 {
			y.Str = n.Str
		}
	case 7:
		y.U = n.U
	case 1:
		y.B = n.B
	case 2:
		y.A, y.C = n.A, n.C
	case 3:
		y.On = !y.On
		y.Opt = n.Opt
	case 4:
		y.Opt, y.Tags, y.Str, y.Fix = n.Opt, n.Tags, n.Str, n.Fix
	case 5:
		y.N, y.U, y.H = n.N, n.U, n.H
		y.Data = n.Data
	}
	return y
}

var _ = big.NewInt

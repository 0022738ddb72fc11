package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"sync/atomic"

	"github.com/go-bond/bond"
)

// An independent statement of the documented key layout. Nothing in this file
// calls bond to encode.

type FKind byte

const (
	fU64 FKind = iota
	fU32
	fU16
	fU8
	fI64
	fI32
	fI16
	fStr
	fBytes
	fBig128
)

// Field is one component of a key or order, given by an accessor.
type Field struct {
	Kind FKind
	Desc bool
	U    func(r *Row) uint64
	I    func(r *Row) int64
	S    func(r *Row) []byte
	G    func(r *Row) *big.Int
}

func beN(v uint64, n int) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return b[8-n:]
}

// encSigned encodes sign and magnitude in n bytes.
func encSigned(neg bool, mag uint64, n int) []byte {
	switch {
	case mag == 0:
		return append([]byte{1}, beN(0, n)...)
	case neg:
		return append([]byte{0}, beN(^mag, n)...)
	default:
		return append([]byte{2}, beN(mag, n)...)
	}
}

func mag64(v int64) (bool, uint64) {
	if v < 0 {
		return true, uint64(-(v + 1)) + 1
	}
	return false, uint64(v)
}

func encBig(v *big.Int, bits int) []byte {
	n := bits / 8
	out := make([]byte, 1+n)
	out[0] = byte(v.Sign() + 1)
	m := new(big.Int).Abs(v).Bytes()
	copy(out[1+n-len(m):], m)
	if v.Sign() < 0 {
		for i := 1; i <= n; i++ {
			out[i] = ^out[i]
		}
	}
	return out
}

func inv(b []byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[i] = ^b[i]
	}
	return o
}

// specEnc is the layout of one field value.
func (f *Field) specEnc(r *Row) []byte {
	switch f.Kind {
	case fU64, fU32, fU16, fU8:
		n := map[FKind]int{fU64: 8, fU32: 4, fU16: 2, fU8: 1}[f.Kind]
		v := f.U(r)
		if f.Desc {
			v = ^v
		}
		return append([]byte{}, beN(v, n)...)
	case fI64, fI32, fI16:
		n := map[FKind]int{fI64: 8, fI32: 4, fI16: 2}[f.Kind]
		v := f.I(r)
		if f.Desc && v != []int64{fI64: math.MinInt64, fI32: math.MinInt32, fI16: math.MinInt16}[f.Kind] {
			v = -v // the layout mirrors every value but the smallest, which stays (see C09)
		}
		neg, m := mag64(v)
		return encSigned(neg, m, n)
	case fStr, fBytes:
		b := f.S(r)
		if f.Desc {
			return inv(b)
		}
		return append([]byte{}, b...)
	case fBig128:
		v := f.G(r)
		if f.Desc {
			v = new(big.Int).Neg(v)
		}
		return encBig(v, 128)
	}
	panic("kind")
}

func specFields(fs []Field, r *Row) []byte {
	out := []byte{}
	for i := range fs {
		out = append(out, byte(i+1))
		out = append(out, fs[i].specEnc(r)...)
	}
	return out
}

// specKey is the documented layout of a full key.
func specKey(table, index byte, key, ord, pk []byte) []byte {
	out := []byte{table, index}
	out = append(out, beN(uint64(len(key)), 4)...)
	out = append(out, key...)
	out = append(out, beN(uint64(len(ord)), 4)...)
	out = append(out, ord...)
	return append(out, pk...)
}

// bigChanged holds what happened to a number a row's key or order was built from.
var bigChanged atomic.Value

func noteBig(what string, was, is *big.Int) {
	if was.Cmp(is) != 0 {
		bigChanged.Store(fmt.Sprintf("%s made %v of %v", what, is, was))
	}
}

// bondKey builds the same fields through bond.
func bondKey(fs []Field, b bond.KeyBuilder, r *Row) []byte {
	for i := range fs {
		f := &fs[i]
		switch f.Kind {
		case fU64:
			b = b.AddUint64Field(f.U(r))
		case fU32:
			b = b.AddUint32Field(uint32(f.U(r)))
		case fU16:
			b = b.AddUint16Field(uint16(f.U(r)))
		case fU8:
			b = b.AddByteField(byte(f.U(r)))
		case fI64:
			b = b.AddInt64Field(f.I(r))
		case fI32:
			b = b.AddInt32Field(int32(f.I(r)))
		case fI16:
			b = b.AddInt16Field(int16(f.I(r)))
		case fStr:
			b = b.AddStringField(string(f.S(r)))
		case fBytes:
			b = b.AddBytesField(f.S(r))
		case fBig128:
			g := f.G(r)
			keep := new(big.Int).Set(g)
			b = b.AddBigIntField(g, 128)
			noteBig("AddBigIntField", keep, g)
		}
	}
	return b.Bytes()
}

func bondOrder(fs []Field, o bond.IndexOrder, r *Row) bond.IndexOrder {
	for i := range fs {
		f := &fs[i]
		d := bond.IndexOrderType(f.Desc)
		switch f.Kind {
		case fU64:
			o = o.OrderUint64(f.U(r), d)
		case fU32:
			o = o.OrderUint32(uint32(f.U(r)), d)
		case fU16:
			o = o.OrderUint16(uint16(f.U(r)), d)
		case fU8:
			o = o.OrderByte(byte(f.U(r)), d)
		case fI64:
			o = o.OrderInt64(f.I(r), d)
		case fI32:
			o = o.OrderInt32(int32(f.I(r)), d)
		case fI16:
			o = o.OrderInt16(int16(f.I(r)), d)
		case fBytes:
			o = o.OrderBytes(f.S(r), d)
		case fBig128:
			g := f.G(r)
			keep := new(big.Int).Set(g)
			o = o.OrderBigInt(g, 128, d)
			noteBig("OrderBigInt", keep, g)
		default:
			panic("order kind")
		}
	}
	return o
}

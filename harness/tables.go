package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/cond"
	"github.com/go-bond/bond/serializers"
	"github.com/vmihailenco/msgpack/v5"

	"github.com/go-bond/bond/utils"
)

// ---- definitions ----

type PKKind int

const (
	pkU64 PKKind = iota
	pkI64
	pkStr  // variable length, 0xFF runs
	pkComp // U16 bucket + U64
	pkBig
	pkKinds
)

func (k PKKind) String() string { return [...]string{"u64", "i64", "str", "comp", "big"}[k] }

func pkString(id uint64) []byte {
	// injective and variable length, with 0xFF runs and zero bytes
	b := beN(id, 8)
	i := 0
	for i < 8 && b[i] == 0 {
		i++
	}
	out := append([]byte{}, b[i:]...)
	return out
}

func pkBigInt(id uint64) *big.Int {
	v := new(big.Int).SetUint64(id)
	if id%3 == 1 {
		v.Neg(v)
	}
	return v.Mul(v, big.NewInt(1<<40))
}

func pkFields(k PKKind) []Field {
	switch k {
	case pkU64:
		return []Field{{Kind: fU64, U: func(r *Row) uint64 { return r.ID }}}
	case pkI64:
		return []Field{{Kind: fI64, I: func(r *Row) int64 { return int64(r.ID) }}}
	case pkStr:
		return []Field{{Kind: fBytes, S: func(r *Row) []byte { return pkString(r.ID) }}}
	case pkComp:
		return []Field{{Kind: fU16, U: func(r *Row) uint64 { return r.ID % 4 }}, {Kind: fU64, U: func(r *Row) uint64 { return r.ID }}}
	case pkBig:
		return []Field{{Kind: fBig128, G: func(r *Row) *big.Int { return pkBigInt(r.ID) }}}
	}
	panic("pk")
}

// IDef is the definition of one index, independent of the row type.
type IDef struct {
	ID     byte
	Name   string
	Key    []Field
	Ord    []Field
	Filter func(r *Row) bool
	// Point rows for selecting everything under a key need the smallest order.
	VarKey bool // key contains a variable-length field: equality lookups only
}

func (d *IDef) key(r *Row) []byte { return specFields(d.Key, r) }
func (d *IDef) ord(r *Row) []byte { return specFields(d.Ord, r) }
func (d *IDef) accepts(r *Row) bool {
	return d.Filter == nil || d.Filter(r)
}

var optNil = int64(-77)

func optVal(r *Row) int64 {
	if r.Opt == nil {
		return optNil
	}
	return *r.Opt
}

func fix4(r *Row) []byte {
	if len(r.Fix) == 4 {
		return r.Fix
	}
	return []byte{0, 0, 0, 0}
}

// indexPool is the set of index shapes the engines draw from.
func indexPool() []*IDef {
	return []*IDef{
		{Name: "A", Key: []Field{{Kind: fU32, U: func(r *Row) uint64 { return uint64(r.A) }}}},
		{Name: "A_Bdesc", Key: []Field{{Kind: fU32, U: func(r *Row) uint64 { return uint64(r.A) }}},
			Ord: []Field{{Kind: fI64, Desc: true, I: func(r *Row) int64 { return r.B }}}},
		{Name: "C_U_Ndesc_on", Key: []Field{{Kind: fU16, U: func(r *Row) uint64 { return uint64(r.C) }}},
			Ord:    []Field{{Kind: fU8, U: func(r *Row) uint64 { return uint64(r.U) }}, {Kind: fI32, Desc: true, I: func(r *Row) int64 { return int64(r.N) }}},
			Filter: func(r *Row) bool { return r.On }},
		{Name: "all_B", Ord: []Field{{Kind: fI64, I: func(r *Row) int64 { return r.B }}}},
		{Name: "Str", VarKey: true, Key: []Field{{Kind: fStr, S: func(r *Row) []byte { return []byte(r.Str) }}}},
		{Name: "Opt", Key: []Field{{Kind: fI64, I: func(r *Row) int64 { return optVal(r) }}},
			Filter: func(r *Row) bool { return r.Opt != nil }},
		{Name: "H_Adesc", Key: []Field{{Kind: fI16, I: func(r *Row) int64 { return int64(r.H) }}},
			Ord: []Field{{Kind: fU32, Desc: true, U: func(r *Row) uint64 { return uint64(r.A) }}}},
		{Name: "A_C_Fixdesc", Key: []Field{{Kind: fU32, U: func(r *Row) uint64 { return uint64(r.A) }}, {Kind: fU16, U: func(r *Row) uint64 { return uint64(r.C) }}},
			Ord: []Field{{Kind: fBytes, Desc: true, S: fix4}}},
		{Name: "tags", Key: []Field{{Kind: fU8, U: func(r *Row) uint64 { return uint64(len(r.Tags)) }}},
			Ord:    []Field{{Kind: fBig128, G: func(r *Row) *big.Int { return new(big.Int).Mul(big.NewInt(r.B), big.NewInt(int64(r.A)+1)) }}},
			Filter: func(r *Row) bool { return len(r.Tags) > 0 }},
		{Name: "B_Cdesc_Uasc", Key: []Field{{Kind: fI64, I: func(r *Row) int64 { return r.B }}},
			Ord: []Field{{Kind: fU16, Desc: true, U: func(r *Row) uint64 { return uint64(r.C) }}, {Kind: fU8, U: func(r *Row) uint64 { return uint64(r.U) }}}},
		{Name: "N_Hdesc", Key: []Field{{Kind: fI32, I: func(r *Row) int64 { return int64(r.N) }}},
			Ord: []Field{{Kind: fI16, Desc: true, I: func(r *Row) int64 { return int64(r.H) }}, {Kind: fU64, Desc: true, U: func(r *Row) uint64 { return uint64(r.A) << 3 }}}},
		{Name: "U_Udesc", Key: []Field{{Kind: fU8, U: func(r *Row) uint64 { return uint64(r.U) }}},
			Ord: []Field{{Kind: fU8, Desc: true, U: func(r *Row) uint64 { return uint64(r.U) }}, {Kind: fI16, I: func(r *Row) int64 { return int64(r.H) }}}},
	}
}

// morePool holds the shapes that the recorded databases don't have.
func morePool() []*IDef {
	wide := func(r *Row) *big.Int { return new(big.Int).Mul(big.NewInt(r.B), big.NewInt(int64(r.A)+1)) }
	return []*IDef{
		{Name: "U_bigdesc", Key: []Field{{Kind: fU8, U: func(r *Row) uint64 { return uint64(r.U) }}},
			Ord: []Field{{Kind: fBig128, Desc: true, G: wide}, {Kind: fI16, Desc: true, I: func(r *Row) int64 { return int64(r.H) / 2 }}}},
		{Name: "big_on", Key: []Field{{Kind: fBig128, G: wide}, {Kind: fU8, U: func(r *Row) uint64 { return uint64(r.U) }}},
			Filter: func(r *Row) bool { return r.On || r.Opt == nil }},
		{Name: "B_Fix_Ndesc", Key: []Field{{Kind: fI64, I: func(r *Row) int64 { return r.B }}, {Kind: fBytes, S: fix4}},
			Ord: []Field{{Kind: fI32, Desc: true, I: func(r *Row) int64 { return int64(r.N) / 2 }}}},
	}
}

// varIndexPool is the set of index shapes whose orders vary in length. Which
// entries they have is determined like for any other, but not how a listing
// of them sorts (see C09), so only engines that compare entries draw them.
func varIndexPool() []*IDef {
	str := func(r *Row) []byte { return []byte(r.Str) }
	data := func(r *Row) []byte {
		if len(r.Data) > 200 {
			return r.Data[:200]
		}
		return r.Data
	}
	return []*IDef{
		{Name: "A_Str", Key: []Field{{Kind: fU32, U: func(r *Row) uint64 { return uint64(r.A) }}},
			Ord: []Field{{Kind: fBytes, S: str}}},
		{Name: "Str_Datadesc", VarKey: true, Key: []Field{{Kind: fStr, S: str}},
			Ord: []Field{{Kind: fBytes, Desc: true, S: data}}},
		{Name: "all_Strdesc", Ord: []Field{{Kind: fBytes, Desc: true, S: str}}},
		{Name: "Str_Str", VarKey: true, Key: []Field{{Kind: fStr, S: func(r *Row) []byte { return []byte(r.Str)[:strSplit(r)] }}},
			Ord: []Field{{Kind: fBytes, S: func(r *Row) []byte { return []byte(r.Str)[strSplit(r):] }}}},
	}
}

// strSplit is where Str_Str splits the string of a row.
func strSplit(r *Row) int { return int(r.U) % (len(r.Str) + 1) }

// addVarIndex replaces the first of the indexes by one of varIndexPool.
func (d *TDef) addVarIndex(r *rand.Rand) {
	if len(d.Idx) > 0 {
		n := pick(r, varIndexPool())
		n.ID = d.Idx[0].ID
		d.Idx[0] = n
	}
}

// pickIndexes draws n index shapes with the given ids.
func pickIndexes(r *rand.Rand, ids ...byte) []*IDef {
	pool := append(indexPool(), morePool()...)
	r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	var out []*IDef
	for i, id := range ids {
		d := pool[i%len(pool)]
		d.ID = id
		out = append(out, d)
	}
	return out
}

// TDef defines a table.
type TDef struct {
	ID       byte
	PK       PKKind
	Ser      SerKind
	Idx      []*IDef
	Prefetch int
	Filter   bond.Filter
	Hook     func(site string) error // called by every function bond calls back; may panic
	pk       []Field
}

func (d *TDef) hook(site string) {
	if d.Hook != nil {
		if err := d.Hook(site); err != nil {
			panic(userPanic{err.Error()})
		}
	}
}

// userPanic is the panic of a function given by the user of bond.
type userPanic struct{ msg string }

func (d *TDef) pkFieldsOf() []Field {
	if d.pk == nil {
		d.pk = pkFields(d.PK)
	}
	return d.pk
}
func (d *TDef) pkBytes(r *Row) []byte { return specFields(d.pkFieldsOf(), r) }
func (d *TDef) dataKey(r *Row) []byte { return specKey(d.ID, 0, nil, nil, d.pkBytes(r)) }
func (d *TDef) idxKey(i *IDef, r *Row) []byte {
	return specKey(d.ID, i.ID, i.key(r), i.ord(r), d.pkBytes(r))
}

func (d *TDef) idx(id byte) *IDef {
	for _, i := range d.Idx {
		if i.ID == id {
			return i
		}
	}
	return nil
}

// ---- serializers ----

type SerKind int

const (
	serJSON SerKind = iota
	serCBOR
	serMsgpack
	serMsgpackPooled
	serMsgpGen
	serProto
	serCBORVal // value-type rows
	serKinds
)

func (k SerKind) String() string {
	return [...]string{"json", "cbor", "msgpack", "msgpack-pooled", "msgpgen", "proto", "cbor-value"}[k]
}

func newSerializer(k SerKind) bond.Serializer[any] {
	switch k {
	case serJSON:
		return &serializers.JsonSerializer{}
	case serCBOR, serCBORVal:
		return &serializers.CBORSerializer{}
	case serMsgpack:
		return &serializers.MsgpackSerializer{}
	case serMsgpackPooled:
		return newPooledMsgpack()
	case serMsgpGen:
		return &serializers.MsgpackGenSerializer{}
	case serProto:
		return &serializers.ProtobufSerializer{}
	}
	panic("ser")
}

type hookSer struct {
	def   *TDef
	inner bond.Serializer[any]
}

func (s *hookSer) call(site string) error {
	if s.def.Hook != nil {
		return s.def.Hook(site)
	}
	return nil
}

func (s *hookSer) Serialize(v any) ([]byte, error) {
	if err := s.call("ser"); err != nil {
		return nil, err
	}
	return s.inner.Serialize(v)
}

func (s *hookSer) Deserialize(b []byte, v any) error {
	if err := s.call("deser"); err != nil {
		return err
	}
	return s.inner.Deserialize(b, v)
}

type hookSerBuf struct{ hookSer }

func (s *hookSerBuf) SerializeFuncWithBuffer(buff *bytes.Buffer) func(any) ([]byte, error) {
	f := s.inner.(bond.SerializerWithBuffer[any]).SerializeFuncWithBuffer(buff)
	return func(v any) ([]byte, error) {
		if err := s.call("ser"); err != nil {
			return nil, err
		}
		return f(v)
	}
}

func hookSerializer(def *TDef) bond.Serializer[any] {
	in := newSerializer(def.Ser)
	if def.Hook == nil {
		return in
	}
	if _, ok := in.(bond.SerializerWithBuffer[any]); ok {
		return &hookSerBuf{hookSer{def, in}}
	}
	return &hookSer{def, in}
}

func newPooledMsgpack() *serializers.MsgpackSerializer {
	enc := &utils.SyncPoolWrapper[*msgpack.Encoder]{}
	enc.New = func() any { return msgpack.NewEncoder(nil) }
	dec := &utils.SyncPoolWrapper[*msgpack.Decoder]{}
	dec.New = func() any { return msgpack.NewDecoder(nil) }
	buf := &utils.SyncPoolWrapper[bytes.Buffer]{}
	buf.New = func() any { return bytes.Buffer{} }
	return &serializers.MsgpackSerializer{Encoder: enc, Decoder: dec, Buffer: buf}
}

// ---- selectors ----

type SelKind int

const (
	selPoint SelKind = iota
	selPoints
	selRange
	selRanges
)

// Sel is a selector over canonical rows.
type Sel struct {
	Kind SelKind
	Rows []Row // point: 1; points: n; range: 2; ranges: 2n
	None bool  // no explicit selector (default scan)
}

func (s Sel) String() string {
	return fmt.Sprintf("%s%v", [...]string{"point", "points", "range", "ranges"}[s.Kind], s.Rows)
}

// ---- table adaptor ----

// Tab is the row-type independent face of a bond table.
type Tab interface {
	Def() *TDef
	Insert(ctx context.Context, rs []Row, b bond.Batch) error
	Update(ctx context.Context, rs []Row, b bond.Batch) error
	Upsert(ctx context.Context, rs []Row, f func(o, n Row) Row, b bond.Batch) error
	UpsertMut(ctx context.Context, rs []Row, f func(o, n *Row), b bond.Batch) error
	Delete(ctx context.Context, rs []Row, b bond.Batch) error
	UnsafeInsert(ctx context.Context, rs []Row, b bond.Batch) error
	UnsafeUpdate(ctx context.Context, rs, olds []Row, b bond.Batch) error
	GetPoint(ctx context.Context, r Row, b bond.Batch) (Row, error)
	Get(ctx context.Context, s Sel, b bond.Batch) ([]Row, []bool, error)
	Exist(r Row, b bond.Batch) bool
	Scan(ctx context.Context, rev bool, b bond.Batch) ([]Row, error)
	ScanIndex(ctx context.Context, idx byte, s Sel, rev bool, b bond.Batch) ([]Row, error)
	ForEach(ctx context.Context, idx byte, s Sel, rev bool, b bond.Batch, f func(key []byte, get func() (Row, error)) (bool, error)) error
	AnyForEach(ctx context.Context, idx byte, s Sel, rev bool, b bond.Batch, f func(key []byte, get func() (Row, error)) (bool, error)) error
	AnyScan(ctx context.Context, idx byte, s Sel, rev bool, b bond.Batch) ([]Row, error)
	Iter(idx byte, s Sel, b bond.Batch) bond.Iterator
	Prepare(q *QSpec) func(context.Context, bond.Batch) ([]Row, error)
	Query(ctx context.Context, q *QSpec, b bond.Batch) ([]Row, error)
	Derived(ctx context.Context, q *QSpec, ext []*QSpec, order []int, b bond.Batch) ([][]Row, []error)
	AddIndex(ids []byte, reindex bool) error
	AddIndexDup(id byte) error
	ReIndex(ids []byte) error
	Info() bond.TableInfo
	Keep()
	KeptDiff() string
	Hold()
	HeldDiff(forget bool) string
	Twice(ctx context.Context, idx byte, s Sel, b bond.Batch) ([][]Row, []error)
	AnyScanner() bond.TableScanner[any]
	Touch()
	OnIndex(idx byte, old, row *Row, b bond.Batch, buffs [][]byte) error
	NewIntersectKeys(ctx context.Context, q *QSpec, b bond.Batch) ([][]byte, error)
}

// QSpec is a query over canonical rows.
type QSpec struct {
	Idx     byte // 0: primary
	Sel     *Sel // nil: default
	Filter  func(r Row) bool
	FName   string
	Less    func(a, b Row) bool
	LName   string
	Reverse bool
	Twice   bool
	After   *Row
	Offset  uint64
	Limit   uint64
	Inter   []*QSpec
}

func (q *QSpec) String() string {
	s := fmt.Sprintf("idx=%d", q.Idx)
	if q.Sel != nil {
		s += " sel=" + q.Sel.String()
	}
	if q.Filter != nil {
		s += " filter=" + q.FName
	}
	if q.Less != nil {
		s += " order=" + q.LName
	}
	if q.Reverse {
		s += " reverse"
	}
	if q.After != nil {
		s += " after=" + q.After.String()
	}
	s += fmt.Sprintf(" off=%d lim=%d", q.Offset, q.Limit)
	for _, i := range q.Inter {
		s += " &(" + i.String() + ")"
	}
	return s
}

type tab[T any] struct {
	def  *TDef
	t    bond.Table[T]
	to   func(Row) T
	from func(T) Row
	view func(T) *Row
	none func(T) bool
	idx  map[byte]*bond.Index[T]

	plain func(Row) T
	raw   func(T) Row // from, for values that bond passes to call-backs
	keep  bool
	hold  bool

	keptM   sync.Mutex
	kept    []func() string
	held    []func() string
	lastQ   []T
	queries uint64
	builds  uint64
	anySels uint64
	sels    uint64
}

// Hold starts remembering every row bond hands out, and makes every value
// handed to bond unusable once KeptDiff has found it unchanged.
func (x *tab[T]) Hold() { x.keep, x.hold = true, true }

// HeldDiff says which of the rows handed out has changed since.
func (x *tab[T]) HeldDiff(forget bool) string {
	x.keptM.Lock()
	defer x.keptM.Unlock()
	for _, f := range x.held {
		if s := f(); s != "" {
			return s
		}
	}
	if forget {
		x.held = x.held[len(x.held)/2:]
	}
	return ""
}

// remember keeps a description of a row handed out.
func (x *tab[T]) remember(t T) {
	if x.none(t) {
		return
	}
	s := x.view(t).String()
	x.keptM.Lock()
	x.held = append(x.held, func() string {
		if n := x.view(t).String(); n != s {
			return fmt.Sprintf("row %s became %s", s, n)
		}
		return ""
	})
	x.keptM.Unlock()
}

// lastResult is what the result of a query is received in: when rows are
// remembered, a variable that still holds the result of the query before.
func (x *tab[T]) lastResult() []T {
	if !x.hold {
		return nil
	}
	x.keptM.Lock()
	defer x.keptM.Unlock()
	ts := x.lastQ
	x.lastQ = nil
	return ts
}

// rememberSlice keeps which rows a slice handed out holds.
func (x *tab[T]) rememberSlice(ts []T) {
	if !x.hold {
		return
	}
	var was []string
	for _, t := range ts {
		if x.none(t) {
			return
		}
		was = append(was, x.view(t).String())
	}
	x.keptM.Lock()
	x.lastQ = ts
	x.held = append(x.held, func() string {
		for i, t := range ts {
			if n := x.view(t).String(); n != was[i] {
				return fmt.Sprintf("element %d of %d of a query's result, %s, became %s", i, len(ts), was[i], n)
			}
		}
		return ""
	})
	x.keptM.Unlock()
}

// scribble makes a row that was handed to bond unusable.
func scribble(r *Row) {
	for i := range r.Data {
		r.Data[i] ^= 0x5a
	}
	for i := range r.Fix {
		r.Fix[i] ^= 0x5a
	}
	for i := range r.W {
		r.W[i] += 77
	}
	for k := range r.Tags {
		delete(r.Tags, k)
	}
	if r.Tags != nil {
		r.Tags["scribble"] = "x"
	}
	if r.Opt != nil {
		*r.Opt += 5
	}
	r.ID, r.A, r.B, r.Str, r.U = r.ID+1, r.A+3, 99, "scribble", r.U+1
}

// keepSlice remembers a slice handed to bond.
func (x *tab[T]) keepSlice(out []T) {
	if !x.keep {
		return
	}
	var was []string
	for _, t := range out {
		was = append(was, x.view(t).String())
	}
	x.keptM.Lock()
	// before its elements are made unusable
	x.kept = append([]func() string{func() string {
		for i, t := range out {
			if n := x.view(t).String(); n != was[i] {
				return fmt.Sprintf("element %d, %s, became %s", i, was[i], n)
			}
		}
		if x.hold {
			var z T
			for i := range out {
				out[i] = z
			}
		}
		return ""
	}}, x.kept...)
	x.keptM.Unlock()
}

// Keep starts remembering every value handed to bond.
func (x *tab[T]) Keep() { x.keep = true }

// KeptDiff says which of the values handed to bond since the last call have
// changed meanwhile.
func (x *tab[T]) KeptDiff() string {
	x.keptM.Lock()
	defer x.keptM.Unlock()
	k := x.kept
	x.kept = nil
	for _, f := range k {
		if s := f(); s != "" {
			return s
		}
	}
	return ""
}

func newTab(db bond.DB, def *TDef) Tab { return newTabIdx(db, def, true) }

// newTabIdx creates the table; the defined indexes are registered when reg.
func newTabIdx(db bond.DB, def *TDef, reg bool) Tab {
	switch def.Ser {
	case serMsgpGen:
		return mkTab[*RowG](db, def, reg, func(r Row) *RowG { return &RowG{r.Clone()} }, func(t *RowG) Row { return t.Row.Clone() },
			func(t *RowG) *Row { return &t.Row }, func(t *RowG) bool { return t == nil })
	case serProto:
		return mkTab[RowP](db, def, reg, func(r Row) RowP { return RowP{r.Clone()} }, func(t RowP) Row { return t.Row.Clone() },
			func(t RowP) *Row { return &t.Row }, func(t RowP) bool { return t.Row.Equal(Row{}) })
	case serCBORVal:
		return mkTab[Row](db, def, reg, func(r Row) Row { return r.Clone() }, func(t Row) Row { return t.Clone() },
			func(t Row) *Row { return &t }, func(t Row) bool { return t.Equal(Row{}) })
	default:
		return mkTab[*Row](db, def, reg, func(r Row) *Row { c := r.Clone(); return &c }, func(t *Row) Row { return t.Clone() },
			func(t *Row) *Row { return t }, func(t *Row) bool { return t == nil })
	}
}

func mkTab[T any](db bond.DB, def *TDef, reg bool, to func(Row) T, from func(T) Row, view func(T) *Row, none func(T) bool) Tab {
	pkf := def.pkFieldsOf()
	x := &tab[T]{def: def, to: to, plain: to, raw: from, view: view, none: none, idx: map[byte]*bond.Index[T]{}}
	x.t = bond.NewTable[T](bond.TableOptions[T]{
		DB: db, TableID: bond.TableID(def.ID), TableName: fmt.Sprintf("t%d", def.ID),
		TablePrimaryKeyFunc: func(b bond.KeyBuilder, t T) []byte { def.hook("pk"); return bondKey(pkf, b, view(t)) },
		Serializer:          hookSerializer(def),
		ScanPrefetchSize:    def.Prefetch,
		Filter:              def.Filter,
	})
	x.to = func(r Row) T {
		t := to(r)
		if x.keep {
			o := r.Clone()
			x.keptM.Lock()
			x.kept = append(x.kept, func() string {
				if n := *view(t); !n.Equal(o) {
					return fmt.Sprintf("%v became %v", o, n)
				}
				if x.hold {
					scribble(view(t))
				}
				return ""
			})
			x.keptM.Unlock()
		}
		return t
	}
	x.from = func(t T) Row {
		if x.hold {
			x.remember(t)
		}
		return from(t)
	}
	x.idx[0] = x.t.PrimaryIndex()
	for _, d := range def.Idx {
		x.idx[d.ID] = x.mkIndex(d)
	}
	if reg && len(def.Idx) > 0 {
		var ids []byte
		for _, d := range def.Idx {
			ids = append(ids, d.ID)
		}
		if err := x.AddIndex(ids, false); err != nil {
			panic(harnessErr{"AddIndex: " + err.Error()})
		}
	}
	return x
}

func (x *tab[T]) mkIndex(d *IDef) *bond.Index[T] {
	o := bond.IndexOptions[T]{
		IndexID: bond.IndexID(d.ID), IndexName: d.Name,
		IndexKeyFunc: func(b bond.KeyBuilder, t T) []byte { x.def.hook("ikey"); return bondKey(d.Key, b, x.view(t)) },
	}
	if len(d.Ord) > 0 {
		o.IndexOrderFunc = func(o bond.IndexOrder, t T) bond.IndexOrder {
			x.def.hook("iord")
			return bondOrder(d.Ord, o, x.view(t))
		}
	}
	if d.Filter != nil {
		o.IndexFilterFunc = func(t T) bool { x.def.hook("ifilter"); return d.Filter(x.view(t)) }
	}
	return bond.NewIndex[T](o)
}

func (x *tab[T]) Def() *TDef { return x.def }

func (x *tab[T]) tos(rs []Row) []T {
	out := make([]T, len(rs))
	for i := range rs {
		out[i] = x.to(rs[i])
	}
	x.keepSlice(out)
	return out
}
func (x *tab[T]) froms(ts []T) []Row {
	out := make([]Row, len(ts))
	for i := range ts {
		out[i] = x.from(ts[i])
	}
	return out
}

func bs(b bond.Batch) []bond.Batch {
	if b == nil {
		return nil
	}
	return []bond.Batch{b}
}

func (x *tab[T]) Insert(ctx context.Context, rs []Row, b bond.Batch) error {
	return x.t.Insert(ctx, x.tos(rs), bs(b)...)
}
func (x *tab[T]) Update(ctx context.Context, rs []Row, b bond.Batch) error {
	return x.t.Update(ctx, x.tos(rs), bs(b)...)
}
func (x *tab[T]) Upsert(ctx context.Context, rs []Row, f func(o, n Row) Row, b bond.Batch) error {
	if f == nil {
		return x.t.Upsert(ctx, x.tos(rs), bond.TableUpsertOnConflictReplace[T], bs(b)...)
	}
	return x.t.Upsert(ctx, x.tos(rs), func(o, n T) T { x.def.hook("conflict"); return x.to(f(x.raw(o), x.raw(n))) }, bs(b)...)
}

// UpsertMut resolves conflicts by changing the old row in place, which may be
// one of the rows handed in.
func (x *tab[T]) UpsertMut(ctx context.Context, rs []Row, f func(o, n *Row), b bond.Batch) error {
	ts := make([]T, len(rs))
	for i := range rs {
		ts[i] = x.plain(rs[i])
	}
	return x.t.Upsert(ctx, ts, func(o, n T) T {
		x.def.hook("conflict")
		po := x.view(o)
		f(po, x.view(n))
		if any(x.view(o)) == any(po) {
			return o
		}
		return x.plain(*po)
	}, bs(b)...)
}
func (x *tab[T]) Delete(ctx context.Context, rs []Row, b bond.Batch) error {
	return x.t.Delete(ctx, x.tos(rs), bs(b)...)
}
func (x *tab[T]) UnsafeInsert(ctx context.Context, rs []Row, b bond.Batch) error {
	return x.t.(bond.TableUnsafeInserter[T]).UnsafeInsert(ctx, x.tos(rs), bs(b)...)
}
func (x *tab[T]) UnsafeUpdate(ctx context.Context, rs, olds []Row, b bond.Batch) error {
	return x.t.(bond.TableUnsafeUpdater[T]).UnsafeUpdate(ctx, x.tos(rs), x.tos(olds), bs(b)...)
}
func (x *tab[T]) GetPoint(ctx context.Context, r Row, b bond.Batch) (Row, error) {
	t, err := x.t.GetPoint(ctx, x.to(r), bs(b)...)
	if err != nil {
		return Row{}, err
	}
	return x.from(t), nil
}

// sel makes a selector, every third by changing one of other rows.
func (x *tab[T]) sel(s Sel) bond.Selector[T] {
	set := atomic.AddUint64(&x.sels, 1)%3 == 0
	decoy := func() T { return x.plain(Row{ID: 1 << 41, A: 1 << 30}) }
	switch s.Kind {
	case selPoint:
		if set {
			b := bond.NewSelectorPoint(decoy())
			b.SetPoint(x.to(s.Rows[0]))
			return b
		}
		return bond.NewSelectorPoint(x.to(s.Rows[0]))
	case selPoints:
		if set {
			b := bond.NewSelectorPoints(decoy(), decoy(), decoy())
			b.SetPoints(x.tos(s.Rows)...)
			return b
		}
		return bond.NewSelectorPoints(x.tos(s.Rows)...)
	case selRange:
		if set {
			b := bond.NewSelectorRange(decoy(), decoy())
			b.SetRange(x.to(s.Rows[0]), x.to(s.Rows[1]))
			return b
		}
		return bond.NewSelectorRange(x.to(s.Rows[0]), x.to(s.Rows[1]))
	default:
		var rs [][]T
		for i := 0; i+1 < len(s.Rows); i += 2 {
			rs = append(rs, []T{x.to(s.Rows[i]), x.to(s.Rows[i+1])})
			x.keepSlice(rs[len(rs)-1])
		}
		if set {
			b := bond.NewSelectorRanges([]T{decoy(), decoy()})
			b.SetRanges(rs...)
			return b
		}
		return bond.NewSelectorRanges(rs...)
	}
}

// anySel gives the selector of rows or, every second time, the one of any.
func (x *tab[T]) anySel(s Sel) bond.Selector[any] {
	sel := x.sel(s)
	n := atomic.AddUint64(&x.anySels, 1)
	if n%2 == 0 {
		return sel.(bond.Selector[any])
	}
	anys := func(ts []T) (out []any) {
		for _, t := range ts {
			out = append(out, t)
		}
		return
	}
	switch sel := sel.(type) {
	case bond.SelectorPoint[T]:
		if n%3 == 0 {
			p := bond.NewSelectorPoint[any](nil)
			p.SetPoint(sel.Point())
			return p
		}
		return bond.NewSelectorPoint[any](sel.Point())
	case bond.SelectorPoints[T]:
		return bond.NewSelectorPoints(anys(sel.Points())...)
	case bond.SelectorRange[T]:
		a, b := sel.Range()
		return bond.NewSelectorRange[any](a, b)
	case bond.SelectorRanges[T]:
		var rs [][]any
		for _, r := range sel.Ranges() {
			rs = append(rs, anys(r))
		}
		return bond.NewSelectorRanges(rs...)
	}
	return sel.(bond.Selector[any])
}
func (x *tab[T]) Get(ctx context.Context, s Sel, b bond.Batch) ([]Row, []bool, error) {
	ts, err := x.t.Get(ctx, x.sel(s), bs(b)...)
	if err != nil {
		return nil, nil, err
	}
	rs := make([]Row, len(ts))
	ok := make([]bool, len(ts))
	for i, t := range ts {
		if ok[i] = !x.none(t); ok[i] {
			rs[i] = x.from(t)
		}
	}
	return rs, ok, nil
}
func (x *tab[T]) Exist(r Row, b bond.Batch) bool { return x.t.Exist(x.to(r), bs(b)...) }
func (x *tab[T]) Scan(ctx context.Context, rev bool, b bond.Batch) ([]Row, error) {
	var ts []T
	if err := x.t.Scan(ctx, &ts, rev, bs(b)...); err != nil {
		return nil, err
	}
	return x.froms(ts), nil
}
func (x *tab[T]) ScanIndex(ctx context.Context, idx byte, s Sel, rev bool, b bond.Batch) ([]Row, error) {
	var ts []T
	if err := x.t.ScanIndex(ctx, x.idx[idx], x.sel(s), &ts, rev, bs(b)...); err != nil {
		return nil, err
	}
	return x.froms(ts), nil
}

// Twice uses one selector for several calls: a scan, a reverse scan, a query
// and a scan again.
func (x *tab[T]) Twice(ctx context.Context, idx byte, s Sel, b bond.Batch) ([][]Row, []error) {
	sel := x.sel(s)
	var out [][]Row
	var errs []error
	for i := 0; i < 4; i++ {
		var ts []T
		var err error
		if i == 2 {
			err = x.t.Query().With(x.idx[idx], sel).Execute(ctx, &ts, bs(b)...)
		} else {
			err = x.t.ScanIndex(ctx, x.idx[idx], sel, &ts, i == 1, bs(b)...)
		}
		out, errs = append(out, x.froms(ts)), append(errs, err)
	}
	return out, errs
}
func (x *tab[T]) ForEach(ctx context.Context, idx byte, s Sel, rev bool, b bond.Batch, f func(key []byte, get func() (Row, error)) (bool, error)) error {
	cb := func(k bond.KeyBytes, l bond.Lazy[T]) (bool, error) {
		return f(k, func() (Row, error) {
			t, err := l.Get()
			if err != nil {
				return Row{}, err
			}
			return x.from(t), nil
		})
	}
	if s.None {
		return x.t.ScanForEach(ctx, cb, rev, bs(b)...)
	}
	return x.t.ScanIndexForEach(ctx, x.idx[idx], x.sel(s), cb, rev, bs(b)...)
}

func (x *tab[T]) anyIdx(idx byte) *bond.Index[any] {
	i := x.idx[idx]
	return bond.NewIndex[any](bond.IndexOptions[any]{IndexID: i.IndexID, IndexName: i.IndexName,
		IndexKeyFunc: func(b bond.KeyBuilder, t any) []byte {
			if idx == 0 {
				return b.Bytes()
			}
			return i.IndexKeyFunction(b, t.(T))
		},
		IndexOrderFunc: func(o bond.IndexOrder, t any) bond.IndexOrder { return i.IndexOrderFunction(o, t.(T)) },
	})
}

func (x *tab[T]) AnyForEach(ctx context.Context, idx byte, s Sel, rev bool, b bond.Batch, f func(key []byte, get func() (Row, error)) (bool, error)) error {
	sc := bond.TableAnyScanner[T](x.t)
	cb := func(k bond.KeyBytes, l bond.Lazy[any]) (bool, error) {
		return f(k, func() (Row, error) {
			t, err := l.Get()
			if err != nil {
				return Row{}, err
			}
			return x.from(t.(T)), nil
		})
	}
	if s.None {
		return sc.ScanForEach(ctx, cb, rev, bs(b)...)
	}
	return sc.ScanIndexForEach(ctx, x.anyIdx(idx), x.anySel(s), cb, rev, bs(b)...)
}

func (x *tab[T]) AnyScan(ctx context.Context, idx byte, s Sel, rev bool, b bond.Batch) ([]Row, error) {
	sc := bond.TableAnyScanner[T](x.t)
	var ts []any
	var err error
	if s.None {
		err = sc.Scan(ctx, &ts, rev, bs(b)...)
	} else {
		err = sc.ScanIndex(ctx, x.anyIdx(idx), x.anySel(s), &ts, rev, bs(b)...)
	}
	if err != nil {
		return nil, err
	}
	var out []Row
	for _, t := range ts {
		out = append(out, x.from(t.(T)))
	}
	return out, nil
}

func (x *tab[T]) Iter(idx byte, s Sel, b bond.Batch) bond.Iterator {
	if idx == 0 {
		return x.t.Iter(x.sel(s), bs(b)...)
	}
	return x.idx[idx].Iter(x.t, x.sel(s), bs(b)...)
}

func (x *tab[T]) build(q *QSpec) bond.Query[T] { return x.apply(x.t.Query(), q) }

// Derived builds a query, then others from it, and executes them in the given
// order (-1: the first one).
func (x *tab[T]) Derived(ctx context.Context, q *QSpec, ext []*QSpec, order []int, b bond.Batch) ([][]Row, []error) {
	base := x.build(q)
	var ds []bond.Query[T]
	for _, e := range ext {
		ds = append(ds, x.apply(base, e))
	}
	var out [][]Row
	var errs []error
	var all [][]T
	for _, i := range order {
		bq := base
		if i >= 0 {
			bq = ds[i]
		}
		var ts []T
		err := bq.Execute(ctx, &ts, bs(b)...)
		all, errs = append(all, ts), append(errs, err)
	}
	// the results stay what they are while others are executed
	for _, ts := range all {
		out = append(out, x.froms(ts))
	}
	return out, errs
}

// apply adds the clauses of q to a query, in some order. A clause given again
// replaces the earlier one.
func (x *tab[T]) apply(bq bond.Query[T], q *QSpec) bond.Query[T] {
	type qq = bond.Query[T]
	r := rand.New(rand.NewSource(int64(atomic.AddUint64(&x.builds, 1)) * 7919))
	var steps []func(qq) qq
	add := func(f, decoy func(qq) qq) {
		if decoy != nil && r.Intn(8) == 0 {
			steps = append(steps, func(b qq) qq { return f(decoy(b)) })
		} else {
			steps = append(steps, f)
		}
	}
	if q.Sel != nil {
		add(func(b qq) qq { return b.With(x.idx[q.Idx], x.sel(*q.Sel)) }, nil)
	}
	if q.Filter != nil {
		add(func(b qq) qq { return b.Filter(cond.Func(func(t T) bool { return q.Filter(x.raw(t)) })) },
			func(b qq) qq { return b.Filter(cond.Func(func(t T) bool { return false })) })
	}
	if q.Less != nil {
		add(func(b qq) qq { return b.Order(func(a, b T) bool { return q.Less(x.raw(a), x.raw(b)) }) },
			func(b qq) qq { return b.Order(func(a, b T) bool { return q.Less(x.raw(b), x.raw(a)) }) })
	}
	if q.Reverse {
		add(qq.Reverse, nil)
	}
	if q.Twice {
		add(qq.Reverse, nil)
		add(qq.Reverse, nil)
	}
	if q.After != nil {
		add(func(b qq) qq { return b.After(x.to(*q.After)) },
			func(b qq) qq { return b.After(x.to(Row{ID: 1 << 40})) })
	}
	if q.Offset > 0 {
		add(func(b qq) qq { return b.Offset(q.Offset) }, func(b qq) qq { return b.Offset(q.Offset + 3) })
	}
	if q.Limit > 0 {
		add(func(b qq) qq { return b.Limit(q.Limit) }, func(b qq) qq { return b.Limit(q.Limit + 3) })
	}
	for _, i := range q.Inter {
		i := i
		add(func(b qq) qq { return b.Intersects(x.build(i)) }, nil)
	}
	r.Shuffle(len(steps), func(i, j int) { steps[i], steps[j] = steps[j], steps[i] })
	for _, f := range steps {
		bq = f(bq)
	}
	return bq
}

func (x *tab[T]) Query(ctx context.Context, q *QSpec, b bond.Batch) ([]Row, error) {
	ts := x.lastResult()
	if !x.hold && atomic.AddUint64(&x.queries, 1)%2 == 0 {
		// what the variable held is replaced
		ts = []T{x.to(Row{ID: 1 << 41}), x.to(Row{ID: 1<<41 + 1})}
	}
	if err := x.build(q).Execute(ctx, &ts, bs(b)...); err != nil {
		return nil, err
	}
	x.rememberSlice(ts)
	return x.froms(ts), nil
}

// Prepare builds a query once, to be executed any number of times.
func (x *tab[T]) Prepare(q *QSpec) func(context.Context, bond.Batch) ([]Row, error) {
	bq := x.build(q)
	return func(ctx context.Context, b bond.Batch) ([]Row, error) {
		var ts []T
		if err := bq.Execute(ctx, &ts, bs(b)...); err != nil {
			return nil, err
		}
		return x.froms(ts), nil
	}
}

// OnIndex makes the entries of one index follow a change of a row: one that
// is new, one that is gone or one that has become another.
func (x *tab[T]) OnIndex(idx byte, old, row *Row, b bond.Batch, buffs [][]byte) error {
	i := x.idx[idx]
	switch {
	case old == nil:
		return i.OnInsert(x.t, x.to(*row), b, buffs...)
	case row == nil:
		return i.OnDelete(x.t, x.to(*old), b, buffs...)
	default:
		return i.OnUpdate(x.t, x.to(*old), x.to(*row), b, buffs...)
	}
}

func (x *tab[T]) NewIntersectKeys(ctx context.Context, q *QSpec, b bond.Batch) ([][]byte, error) {
	var is []*bond.Index[T]
	var ss []bond.Selector[T]
	for _, i := range q.Inter {
		is = append(is, x.idx[i.Idx])
		ss = append(ss, x.sel(*i.Sel))
	}
	return x.idx[q.Idx].Intersect(ctx, x.t, x.sel(*q.Sel), is, ss, bs(b)...)
}

func (x *tab[T]) get(ids []byte) []*bond.Index[T] {
	var out []*bond.Index[T]
	for _, id := range ids {
		out = append(out, x.idx[id])
	}
	return out
}
func (x *tab[T]) AddIndex(ids []byte, reindex bool) error {
	if reindex {
		return x.t.AddIndex(x.get(ids), true)
	}
	return x.t.AddIndex(x.get(ids))
}
func (x *tab[T]) AddIndexDup(id byte) error {
	d := &IDef{ID: id, Name: "dup", Key: []Field{{Kind: fU8, U: func(r *Row) uint64 { return 7 }}}}
	return x.t.AddIndex([]*bond.Index[T]{x.mkIndex(d)})
}
func (x *tab[T]) ReIndex(ids []byte) error           { return x.t.ReIndex(x.get(ids)) }
func (x *tab[T]) Info() bond.TableInfo               { return x.t }
func (x *tab[T]) AnyScanner() bond.TableScanner[any] { return bond.TableAnyScanner[T](x.t) }

// Touch calls everything that tells about the table.
func (x *tab[T]) Touch() {
	_, _, _, _ = x.t.ID(), x.t.Name(), x.t.EntryType(), x.t.SelectorPointType()
	_, _, _ = x.t.DB(), x.t.PrimaryIndex(), x.t.Serializer()
	for _, i := range x.t.SecondaryIndexes() {
		_ = i.Name()
	}
	_ = x.t.PrimaryKey(bond.NewKeyBuilder(nil), x.to(Row{ID: 1}))
}

// ---- model ----

type Model struct {
	Def  *TDef
	Rows map[uint64]Row
}

func newModel(d *TDef) *Model { return &Model{d, map[uint64]Row{}} }

func (m *Model) Clone() *Model {
	n := newModel(m.Def)
	for k, v := range m.Rows {
		n.Rows[k] = v
	}
	return n
}

// InsertErr says whether an insert of rs must be refused.
func (m *Model) InsertErr(rs []Row) bool {
	seen := map[uint64]bool{}
	for _, r := range rs {
		if _, ok := m.Rows[r.ID]; ok || seen[r.ID] {
			return true
		}
		seen[r.ID] = true
	}
	return false
}
func (m *Model) UpdateErr(rs []Row) bool {
	for _, r := range rs {
		if _, ok := m.Rows[r.ID]; !ok {
			return true
		}
	}
	return false
}
func (m *Model) Put(rs []Row) {
	for _, r := range rs {
		m.Rows[r.ID] = r.Clone()
	}
}
func (m *Model) Upsert(rs []Row, f func(o, n Row) Row) {
	for _, r := range rs {
		if o, ok := m.Rows[r.ID]; ok && f != nil {
			m.Rows[r.ID] = f(o.Clone(), r.Clone()).Clone()
		} else {
			m.Rows[r.ID] = r.Clone()
		}
	}
}
func (m *Model) Del(rs []Row) {
	for _, r := range rs {
		delete(m.Rows, r.ID)
	}
}

// Sorted returns rows in primary key order.
func (m *Model) Sorted() []Row {
	return m.entries(nil)
}

type mEntry struct {
	key []byte
	row Row
}

// entries lists the rows in the order of an index (nil: primary).
func (m *Model) entries(i *IDef) []Row {
	es := m.rawEntries(i)
	out := make([]Row, len(es))
	for k := range es {
		out[k] = es[k].row
	}
	return out
}

func (m *Model) rawEntries(i *IDef) []mEntry {
	es := make([]mEntry, 0, len(m.Rows))
	for _, r := range m.Rows {
		r := r
		if i == nil {
			es = append(es, mEntry{m.Def.dataKey(&r), r})
		} else if i.accepts(&r) {
			es = append(es, mEntry{m.Def.idxKey(i, &r), r})
		}
	}
	sort.Slice(es, func(a, b int) bool { return bytes.Compare(es[a].key, es[b].key) < 0 })
	return es
}

// Select is the meaning of a selector. idx 0 is the primary index.
func (m *Model) Select(idx byte, s Sel, rev bool) []Row {
	var d *IDef
	if idx != 0 {
		d = m.Def.idx(idx)
	}
	es := m.rawEntries(d)
	posKey := func(r *Row) []byte {
		if d == nil {
			return m.Def.dataKey(r)
		}
		return m.Def.idxKey(d, r)
	}
	var parts [][]Row
	switch s.Kind {
	case selPoint, selPoints:
		for _, p := range s.Rows {
			p := p
			k := posKey(&p)
			var part []Row
			for _, e := range es {
				if d == nil {
					if s.Kind == selPoint && bytes.Compare(e.key, k) >= 0 || s.Kind == selPoints && bytes.Equal(e.key, k) {
						part = append(part, e.row)
					}
				} else if bytes.Equal(d.key(&e.row), d.key(&p)) && bytes.Compare(e.key, k) >= 0 {
					part = append(part, e.row)
				}
			}
			parts = append(parts, part)
		}
	default:
		for i := 0; i+1 < len(s.Rows); i += 2 {
			lo, hi := posKey(&s.Rows[i]), posKey(&s.Rows[i+1])
			var part []Row
			for _, e := range es {
				if bytes.Compare(e.key, lo) >= 0 && bytes.Compare(e.key, hi) <= 0 {
					part = append(part, e.row)
				}
			}
			parts = append(parts, part)
		}
	}
	var out []Row
	for _, p := range parts {
		out = append(out, p...)
	}
	if rev {
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

// ExpectKeys is the exact key space of the table.
func (m *Model) ExpectKeys() map[string]bool {
	out := map[string]bool{}
	for _, r := range m.Rows {
		r := r
		out[string(m.Def.dataKey(&r))] = true
		for _, d := range m.Def.Idx {
			if d.accepts(&r) {
				out[string(m.Def.idxKey(d, &r))] = true
			}
		}
	}
	return out
}

func showKey(k []byte) string {
	if len(k) < 6 {
		return fmt.Sprintf("%x", k)
	}
	kl := int(binary.BigEndian.Uint32(k[2:6]))
	if len(k) < 10+kl {
		return fmt.Sprintf("t%d i%d %x", k[0], k[1], k[2:])
	}
	ol := int(binary.BigEndian.Uint32(k[6+kl : 10+kl]))
	if len(k) < 10+kl+ol {
		return fmt.Sprintf("t%d i%d %x", k[0], k[1], k[2:])
	}
	return fmt.Sprintf("t%d i%d key=%x ord=%x pk=%x", k[0], k[1], k[6:6+kl], k[10+kl:10+kl+ol], k[10+kl+ol:])
}

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/cockroachdb/pebble/vfs"
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/inspect"
	"github.com/urfave/cli/v2"
)

func init() {
	register(&Check{ID: "C24", Level: "exploration", Race: true, Quick: 900, Thorough: 10000, Run: runC24,
		Rule: "random tables (pointer and value rows with every scalar kind, named, nested, pointer, slice, map and time fields), content and requests (fitting and unfitting values in several representations, unknown names, every combination of selector, filter, limit and after); each answer is compared with the direct query run through the table's own API and mapped independently, through the local interface, the raw HTTP handler, the remote client, the command line over HTTP and over a local directory; plus damaged requests and failing servers; non-trivial: a case with an answer that had rows through at least two transports",
		Setup: func(w *Worker) {
			if os.Getenv("BOND_CLI") == "" {
				panic(harnessErr{"BOND_CLI is not set"})
			}
		}})
}

type InsKind uint8
type InsName string
type InsSub struct {
	X int32
	Y string
}
type InsBase struct{ E uint16 }

type InsRow struct {
	InsBase
	ID     uint64
	I8     int8
	I16    int16
	I32    int32
	I64    int64
	I      int
	U8     uint8
	U16    uint16
	U32    uint32
	U      uint
	F32    float32
	F64    float64
	B      bool
	S      string `json:"other_name"`
	D      []byte
	K      InsKind
	N      InsName
	Sub    InsSub
	P      *uint32
	L      []int64
	M      map[string]int
	T      time.Time
	hidden int
}

type InsKV struct {
	Key string
	Val int64
}

// insTable is one table under inspection, whatever its row type.
type insTable interface {
	info() bond.TableInfo
	typ() reflect.Type
	rows() []reflect.Value
	direct(ctx context.Context, index string, sel *reflect.Value, filt func(reflect.Value) bool, limit uint64, after *reflect.Value) ([]reflect.Value, error)
	fill(c *Case, rs []reflect.Value)
	indexNames() []string
}

type insT[T any] struct {
	tab   bond.Table[T]
	idx   map[string]*bond.Index[T]
	names []string
	rs    []reflect.Value
	st    reflect.Type
}

func (t *insT[T]) info() bond.TableInfo  { return t.tab }
func (t *insT[T]) typ() reflect.Type     { return t.st }
func (t *insT[T]) rows() []reflect.Value { return t.rs }
func (t *insT[T]) indexNames() []string  { return t.names }

func (t *insT[T]) to(v reflect.Value) T {
	p := reflect.New(t.st)
	p.Elem().Set(v)
	if x, ok := p.Interface().(T); ok {
		return x
	}
	return p.Elem().Interface().(T)
}

func (t *insT[T]) from(x T) reflect.Value {
	v := reflect.ValueOf(x)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	return v
}

func (t *insT[T]) fill(c *Case, rs []reflect.Value) {
	t.rs = rs
	var l []T
	for _, v := range rs {
		l = append(l, t.to(v))
	}
	c.Must(t.tab.Upsert(bg, l, bond.TableUpsertOnConflictReplace[T]), "fill")
}

func (t *insT[T]) direct(ctx context.Context, index string, sel *reflect.Value, filt func(reflect.Value) bool, limit uint64, after *reflect.Value) ([]reflect.Value, error) {
	q := t.tab.Query()
	if sel != nil {
		q = q.With(t.idx[index], bond.NewSelectorPoint(t.to(*sel)))
	}
	if filt != nil {
		q = q.Filter(insFilter[T](func(x T) bool { return filt(t.from(x)) }))
	}
	if limit > 0 {
		q = q.Limit(limit)
	}
	if after != nil {
		q = q.After(t.to(*after))
	}
	var out []T
	if err := q.Execute(ctx, &out); err != nil {
		return nil, err
	}
	var vs []reflect.Value
	for _, x := range out {
		vs = append(vs, t.from(x))
	}
	return vs, nil
}

type insFilter[T any] func(T) bool

func (f insFilter[T]) Eval(x T) bool { return f(x) }

func insMake[T any](db bond.DB, id byte, name string, pk func(bond.KeyBuilder, T) []byte, idxs ...bond.IndexOptions[T]) *insT[T] {
	t := &insT[T]{idx: map[string]*bond.Index[T]{}, names: []string{"primary"}}
	t.tab = bond.NewTable[T](bond.TableOptions[T]{DB: db, TableID: bond.TableID(id), TableName: name, TablePrimaryKeyFunc: pk})
	t.idx["primary"] = t.tab.PrimaryIndex()
	var l []*bond.Index[T]
	for i := range idxs {
		if idxs[i].IndexOrderFunc == nil {
			idxs[i].IndexOrderFunc = bond.IndexOrderDefault[T]
		}
		x := bond.NewIndex[T](idxs[i])
		l = append(l, x)
		t.idx[idxs[i].IndexName] = x
		t.names = append(t.names, idxs[i].IndexName)
	}
	if err := t.tab.AddIndex(l); err != nil {
		panic(harnessErr{err.Error()})
	}
	var z T
	t.st = reflect.TypeOf(z)
	if t.st.Kind() == reflect.Ptr {
		t.st = t.st.Elem()
	}
	return t
}

func insRowTable[T any](db bond.DB, id byte, name string, of func(T) *InsRow) *insT[T] {
	return insMake[T](db, id, name,
		func(b bond.KeyBuilder, x T) []byte { return b.AddUint64Field(of(x).ID).Bytes() },
		bond.IndexOptions[T]{IndexID: 1, IndexName: "u8", IndexKeyFunc: func(b bond.KeyBuilder, x T) []byte { return b.AddByteField(of(x).U8).Bytes() }},
		bond.IndexOptions[T]{IndexID: 2, IndexName: "name idx é", IndexKeyFunc: func(b bond.KeyBuilder, x T) []byte { return b.AddStringField(of(x).S).Bytes() },
			IndexOrderFunc: func(o bond.IndexOrder, x T) bond.IndexOrder { return o.OrderUint64(of(x).ID, bond.IndexOrderTypeDESC) }},
		bond.IndexOptions[T]{IndexID: 5, IndexName: "i32_b", IndexKeyFunc: func(b bond.KeyBuilder, x T) []byte {
			v := byte(0)
			if of(x).B {
				v = 1
			}
			return b.AddInt32Field(of(x).I32).AddByteField(v).Bytes()
		}},
		bond.IndexOptions[T]{IndexID: 9, IndexName: "k+sub", IndexKeyFunc: func(b bond.KeyBuilder, x T) []byte {
			return b.AddByteField(byte(of(x).K)).AddStringField(of(x).Sub.Y).Bytes()
		}, IndexFilterFunc: func(x T) bool { return of(x).U16 != 1 },
			IndexOrderFunc: func(o bond.IndexOrder, x T) bond.IndexOrder {
				return o.OrderInt64(of(x).I64, bond.IndexOrderTypeASC)
			}},
		bond.IndexOptions[T]{IndexID: 77, IndexName: "all", IndexKeyFunc: func(b bond.KeyBuilder, x T) []byte { return b.Bytes() },
			IndexOrderFunc: func(o bond.IndexOrder, x T) bond.IndexOrder {
				return o.OrderInt32(of(x).I32, bond.IndexOrderTypeDESC)
			}})
}

// insTables defines the tables by letter, in the order given.
func insTables(db bond.DB, which string) (out []insTable) {
	for _, w := range which {
		switch w {
		case 'p':
			out = append(out, insRowTable[*InsRow](db, 1, "rows", func(x *InsRow) *InsRow { return x }))
		case 'v':
			out = append(out, insRowTable[InsRow](db, 2, "val rows/ü", func(x InsRow) *InsRow { return &x }))
		case 'k':
			out = append(out, insMake[*InsKV](db, 3, "kv", func(b bond.KeyBuilder, x *InsKV) []byte { return b.AddStringField(x.Key).Bytes() },
				bond.IndexOptions[*InsKV]{IndexID: 1, IndexName: "u8", IndexKeyFunc: func(b bond.KeyBuilder, x *InsKV) []byte { return b.AddInt64Field(x.Val).Bytes() }}))
		case 'e':
			out = append(out, insMake[InsKV](db, 9, "primary", func(b bond.KeyBuilder, x InsKV) []byte { return b.AddStringField(x.Key).Bytes() }))
		}
	}
	return out
}

// insMap is the map an answer has for a row.
func insMap(v reflect.Value) map[string]any {
	out := map[string]any{}
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.PkgPath != "" {
			continue
		}
		if _, isTime := v.Field(i).Interface().(time.Time); f.Type.Kind() == reflect.Struct && !isTime {
			out[f.Name] = insMap(v.Field(i))
		} else {
			out[f.Name] = v.Field(i).Interface()
		}
	}
	return out
}

func insMaps(vs []reflect.Value) []map[string]any {
	out := make([]map[string]any, 0)
	for _, v := range vs {
		out = append(out, insMap(v))
	}
	return out
}

func insNum(r *rand.Rand, small bool) int64 {
	if small || r.Intn(3) > 0 {
		return int64(r.Intn(5)) - 1
	}
	return edgeI64(r)
}

func insRandRow(r *rand.Rand, st reflect.Type) reflect.Value {
	v := reflect.New(st).Elem()
	insRand(r, v)
	return v
}

func insRand(r *rand.Rand, v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if !f.CanSet() || r.Intn(12) == 0 {
			continue
		}
		switch f.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			f.SetInt(insNum(r, false))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			f.SetUint(uint64(insNum(r, false)))
		case reflect.Float32:
			f.SetFloat(float64(pick(r, []float32{0, 1, -1, 0.1, 1.5, math.MaxFloat32, math.SmallestNonzeroFloat32, 16777216, float32(r.NormFloat64())})))
		case reflect.Float64:
			f.SetFloat(pick(r, []float64{0, 1, -1, 0.1, 1.5, math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 60, 1e21, r.NormFloat64()}))
		case reflect.Bool:
			f.SetBool(r.Intn(2) == 0)
		case reflect.String:
			f.SetString(pick(r, strPool))
		case reflect.Struct:
			if f.Type() == reflect.TypeOf(time.Time{}) {
				f.Set(reflect.ValueOf(time.Unix(int64(r.Intn(3))*1e9, 0)))
			} else {
				insRand(r, f)
			}
		case reflect.Ptr:
			x := uint32(r.Intn(3))
			f.Set(reflect.ValueOf(&x))
		case reflect.Map:
			m := map[string]int{}
			for k := r.Intn(3); k > 0; k-- {
				m[pick(r, strPool)] = r.Intn(3)
			}
			f.Set(reflect.ValueOf(m))
		case reflect.Slice:
			if f.Type().Elem().Kind() == reflect.Uint8 {
				f.SetBytes([]byte(pick(r, strPool)))
			} else {
				l := make([]int64, r.Intn(3))
				for i := range l {
					l[i] = insNum(r, true)
				}
				f.Set(reflect.ValueOf(l))
			}
		}
	}
}

func insIsNum(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Float64 }

func insRat(v reflect.Value) *big.Rat {
	switch {
	case v.CanInt():
		return new(big.Rat).SetInt64(v.Int())
	case v.CanUint():
		return new(big.Rat).SetInt(new(big.Int).SetUint64(v.Uint()))
	}
	return new(big.Rat).SetFloat64(v.Float())
}

// insFit gives a request value that stands for exactly the typed value.
func insFit(r *rand.Rand, v reflect.Value, remote bool) any {
	if !insIsNum(v.Kind()) || r.Intn(2) == 0 {
		if v.Kind() == reflect.String && r.Intn(2) == 0 {
			return v.String()
		}
		return v.Interface()
	}
	rat := insRat(v)
	for {
		switch r.Intn(7) {
		case 0:
			if rat.IsInt() && rat.Num().IsInt64() {
				return rat.Num().Int64()
			}
		case 1:
			if rat.IsInt() && rat.Num().IsUint64() {
				return rat.Num().Uint64()
			}
		case 2:
			if f, exact := rat.Float64(); exact && (!remote || math.Abs(f) <= 1<<53) {
				return f
			}
		case 3:
			if rat.IsInt() && rat.Num().IsInt64() && rat.Num().Int64() == int64(int8(rat.Num().Int64())) {
				return int8(rat.Num().Int64())
			}
		case 4:
			if rat.IsInt() && rat.Num().BitLen() < 70 {
				return json.Number(rat.Num().String())
			}
		case 5:
			if rat.IsInt() && rat.Num().BitLen() < 70 {
				return json.Number(rat.Num().String() + pick(r, []string{".0", "e0", "E+0", ".000"}))
			}
		case 6:
			return v.Interface()
		}
	}
}

// insUnfit gives a value the field can't hold.
func insUnfit(r *rand.Rand, t reflect.Type) any {
	k := t.Kind()
	switch {
	case insIsNum(k):
		bad := []any{"12", "", true, nil, []any{1}, map[string]any{"a": 1}, "x"}
		switch k {
		case reflect.Float32:
			bad = append(bad, 1e39, -1e300, json.Number("1e60"))
		case reflect.Float64:
			bad = append(bad, json.Number("1e400"))
		default:
			bad = append(bad, 1.5, -0.5, 1e30, json.Number("0.1"), json.Number("1e25"), json.Number("-99999999999999999999"), json.Number("18446744073709551616"), float32(2.5))
			bits := t.Bits()
			if k >= reflect.Uint {
				bad = append(bad, -1, int8(-1), -1.0, json.Number("-1"))
				if bits < 64 {
					bad = append(bad, uint64(1)<<bits, float64(uint64(1)<<bits), json.Number(fmt.Sprint(uint64(1)<<bits)))
				}
			} else {
				bad = append(bad, uint64(1)<<(bits-1), float64(uint64(1)<<(bits-1)), json.Number(fmt.Sprint(uint64(1)<<(bits-1))))
				if bits < 64 {
					bad = append(bad, -(int64(1)<<(bits-1))-1)
				}
			}
		}
		return pick(r, bad)
	case k == reflect.String:
		return pick(r, []any{65, 1.5, true, nil, json.Number("7"), map[string]any{}, uint8(97)})
	case k == reflect.Bool:
		return pick(r, []any{0, 1, "true", "", nil, 1.0, json.Number("1")})
	case k == reflect.Struct:
		return pick(r, []any{0, 1.5, "2020-01-01T00:00:00Z", true})
	}
	return pick(r, []any{0, 1.5, true, json.Number("3"), uint32(1)}) // slices, maps, pointers
}

// insRemotable says whether values of the field are scalars of requests.
func insRemotable(t reflect.Type) bool {
	k := t.Kind()
	return insIsNum(k) || k == reflect.String || k == reflect.Bool
}

type insReq struct {
	table, index       string
	sel, filter, after map[string]any
	limit              uint64
	wantErr            string // why the request has to be refused
	want               []map[string]any
	full               bool
}

func (q insReq) String() string {
	return fmt.Sprintf("query table=%q index=%q selector=%#v filter=%#v limit=%d after=%#v", q.table, q.index, q.sel, q.filter, q.limit, q.after)
}

type c24 struct {
	infos []bond.TableInfo

	c    *Case
	r    *rand.Rand
	tabs []insTable
}

// fields draws field values for a selector, a filter or an after row; typed
// holds the values the fields have to get.
func (x *c24) fields(t insTable, remote, filter bool, q *insReq) (map[string]any, map[string]reflect.Value) {
	r := x.r
	st := t.typ()
	src := insRandRow(r, st)
	if len(t.rows()) > 0 && r.Intn(5) > 0 {
		src = pick(r, t.rows())
	}
	out, typed := map[string]any{}, map[string]reflect.Value{}
	n := r.Intn(3)
	if !filter {
		n = r.Intn(st.NumField() + 1)
		if r.Intn(3) == 0 {
			n = st.NumField()
		}
	}
	for _, i := range r.Perm(st.NumField()) {
		if len(out) >= n {
			break
		}
		f := st.Field(i)
		if f.PkgPath != "" {
			continue
		}
		v := src.Field(i)
		scalar := insRemotable(f.Type)
		nilable := f.Type.Kind() == reflect.Ptr || f.Type.Kind() == reflect.Map || f.Type.Kind() == reflect.Slice
		switch {
		case remote && nilable && r.Intn(4) == 0, !remote && nilable && r.Intn(8) == 0:
			out[f.Name] = nil
			typed[f.Name] = reflect.Zero(f.Type)
		case remote && !scalar:
		case filter && f.Type.Kind() == reflect.Struct && f.Type != reflect.TypeOf(time.Time{}):
			m := insMap(v)
			out[f.Name], typed[f.Name] = m, v
		default:
			out[f.Name], typed[f.Name] = insFit(r, v, remote), v
		}
	}
	if r.Intn(14) == 0 {
		// something that has to be refused
		if r.Intn(3) == 0 {
			n := pick(r, []string{"nope", "id", "hidden", "", "E", "X", "other_name", "ID ", "Sub.X"})
			out[n] = pick(r, []any{1, "a", nil, true})
			q.wantErr = "unknown field " + strconv.Quote(n)
		} else {
			f := st.Field(r.Intn(st.NumField()))
			if f.PkgPath == "" {
				b := insUnfit(r, f.Type)
				out[f.Name] = b
				q.wantErr = fmt.Sprintf("%#v does not fit %s", b, f.Type)
			}
		}
	}
	return out, typed
}

// request draws a request and runs the equivalent direct query.
func (x *c24) request(ctx context.Context, remote bool) *insReq {
	c, r := x.c, x.r
	t := pick(r, x.tabs)
	q := &insReq{table: t.info().Name()}
	index := pick(r, t.indexNames())
	if r.Intn(4) == 0 {
		index = "primary"
	}
	q.index = index
	if index == "primary" && r.Intn(3) == 0 {
		q.index = ""
	}
	var sel, after *reflect.Value
	build := func(typed map[string]reflect.Value) *reflect.Value {
		v := reflect.New(t.typ()).Elem()
		for n, f := range typed {
			v.FieldByName(n).Set(f)
		}
		return &v
	}
	if r.Intn(2) == 0 || index != "primary" {
		m, typed := x.fields(t, remote, false, q)
		if r.Intn(6) == 0 && q.wantErr == "" {
			m, typed = pick(r, []map[string]any{nil, {}}), nil
		}
		q.sel = m
		if index != "primary" || len(m) > 0 {
			sel = build(typed)
		}
	}
	var filt func(reflect.Value) bool
	if r.Intn(2) == 0 {
		m, typed := x.fields(t, remote, true, q)
		q.filter = m
		filt = func(v reflect.Value) bool {
			for n, w := range typed {
				if !reflect.DeepEqual(v.FieldByName(n).Interface(), w.Interface()) {
					return false
				}
			}
			return true
		}
	}
	if r.Intn(3) == 0 {
		q.limit = pick(r, []uint64{1, 2, 3, 7, 1000, 1 << 32, 1<<32 + 2, math.MaxInt64, math.MaxUint64})
	}
	if r.Intn(3) == 0 {
		m, typed := x.fields(t, remote, false, q)
		if q.wantErr == "" && r.Intn(2) == 0 && len(t.rows()) > 0 && (!remote || t.typ() == reflect.TypeOf(InsKV{})) {
			// a whole row
			v := pick(r, t.rows())
			m, typed = map[string]any{}, map[string]reflect.Value{}
			for i := 0; i < v.NumField(); i++ {
				if f := t.typ().Field(i); f.PkgPath == "" {
					m[f.Name], typed[f.Name] = v.Field(i).Interface(), v.Field(i)
				}
			}
		}
		q.after = m
		after = build(typed)
		if q.sel != nil && q.wantErr == "" && sel != nil && r.Intn(2) == 0 {
			// the row after which the selected ones go on
			for n, f := range q.sel {
				q.after[n] = f
				after.FieldByName(n).Set(sel.FieldByName(n))
			}
		}
	}
	switch {
	case r.Intn(25) == 0:
		q.index, q.wantErr = pick(r, []string{"Primary", "u9", "name", " "}), "unknown index"
	case r.Intn(25) == 0:
		q.table, q.wantErr = pick(r, []string{"Rows", "", "row", "rows "}), "unknown table"
	}
	if q.wantErr == "" {
		vs, err := t.direct(ctx, index, sel, filt, q.limit, after)
		if err != nil {
			q.wantErr = "the direct query fails: " + err.Error()
		} else {
			q.want = insMaps(vs)
		}
		if len(vs) > 0 {
			c.Count("answers-with-rows", 1)
		}
	}
	return q
}

func (x *c24) failf(key, f string, a ...any) { x.c.Fail(key, f, a...) }

// verdict compares an answer; exact is how the answer's JSON looks.
func (x *c24) verdict(tr string, q *insReq, got []map[string]any, err error) {
	c := x.c
	c.Eval(1)
	c.Count("query-"+tr, 1)
	c.Logf("%s %v -> %d rows, %v", tr, q, len(got), err != nil)
	if q.wantErr != "" {
		if err == nil {
			x.failf("not-refused", "%s: %v answered %d rows although %s", tr, q, len(got), q.wantErr)
		}
		c.Count("refused", 1)
		return
	}
	if err != nil {
		x.failf("refused", "%s: %v failed: %v", tr, q, err)
	}
	if len(got) != len(q.want) {
		x.failf("rows", "%s: %v answered %d rows, the direct query %d", tr, q, len(got), len(q.want))
	}
	for i := range got {
		want := q.want[i]
		if strings.HasPrefix(tr, "local") {
			if !reflect.DeepEqual(got[i], want) {
				x.failf("rows", "%s: %v: row %d is %#v, by the direct query %#v", tr, q, i, got[i], want)
			}
			continue
		}
		if a, b := insJSON(c, got[i], false), insJSON(c, want, false); !reflect.DeepEqual(a, b) {
			x.failf("rows", "%s: %v: row %d is %#v, by the direct query %#v", tr, q, i, a, b)
		}
	}
	if len(got) > 0 {
		x.seen(tr)
	}
}

func (x *c24) seen(tr string) { x.c.Count("rows-"+tr, 1) }

// insJSON is what JSON keeps of a value.
func insJSON(c *Case, v any, exact bool) any {
	b, err := json.Marshal(v)
	c.Must(err, "json")
	return insParse(c, b, exact)
}

func insParse(c *Case, b []byte, exact bool) any {
	d := json.NewDecoder(bytes.NewReader(b))
	if exact {
		d.UseNumber()
	}
	var out any
	if err := d.Decode(&out); err != nil {
		c.Fail("json", "not JSON: %q: %v", b, err)
	}
	return out
}

func runC24(c *Case) {
	r := c.R
	x := &c24{c: c, r: r}
	mode := r.Intn(100)
	which := ""
	for _, i := range r.Perm(4)[:1+r.Intn(4)] {
		which += "pvke"[i : i+1]
	}
	if !strings.ContainsAny(which, "pv") && r.Intn(3) > 0 {
		which += "p"
	}
	cfg := EnvCfg{}
	localCLI := mode >= 92
	if localCLI {
		cfg.FS, cfg.Dir = vfs.Default, filepath.Join(c.Dir(), "db")
	}
	e := newEnv(c, cfg)
	x.tabs = insTables(e.db, which)
	for _, t := range x.tabs {
		if r.Intn(8) == 0 {
			continue
		}
		n := r.Intn(40)
		if r.Intn(10) == 0 {
			n = 200
		}
		seen := map[string]bool{}
		var rs []reflect.Value
		for len(rs) < n {
			v := insRandRow(r, t.typ())
			if f := v.FieldByName("ID"); f.IsValid() {
				if r.Intn(4) > 0 {
					f.SetUint(uint64(r.Intn(200)))
				}
				if k := fmt.Sprint(f.Uint()); seen[k] {
					n--
					continue
				} else {
					seen[k] = true
				}
			} else if f := v.FieldByName("Key"); seen[f.String()] {
				n--
				continue
			} else {
				seen[f.String()] = true
			}
			rs = append(rs, v)
		}
		t.fill(c, rs)
	}
	var infos []bond.TableInfo
	for _, t := range x.tabs {
		infos = append(infos, t.info())
	}
	x.infos = infos
	loc, err := inspect.NewInspect(infos)
	c.Must(err, "NewInspect")
	x.lists("local", loc)
	for i := 0; i < 12; i++ {
		ctx := bg
		if r.Intn(15) == 0 {
			cc, cancel := context.WithCancel(bg)
			cancel()
			ctx = cc
		}
		q := x.request(ctx, false)
		got, err := loc.Query(ctx, q.table, q.index, q.sel, q.filter, q.limit, q.after)
		x.verdict("local", q, got, err)
	}
	switch {
	case localCLI:
		x.localCLI(e, which)
	case mode < 75:
		x.remote(loc, mode < 12)
	default:
		x.handler(loc)
	}
	c.Nontrivial()
}

// lists compares the lists of tables, indexes and fields.
func (x *c24) lists(tr string, in inspect.Inspect) {
	var want []string
	for _, t := range x.tabs {
		want = append(want, t.info().Name())
	}
	got, err := in.Tables()
	if err != nil || !reflect.DeepEqual(got, want) {
		x.failf("tables", "%s lists the tables %q (%v), defined are %q", tr, got, err, want)
	}
	for _, t := range x.tabs {
		n := t.info().Name()
		got, err := in.Indexes(n)
		if err != nil || !reflect.DeepEqual(got, t.indexNames()) {
			x.failf("indexes", "%s lists the indexes %q (%v) of %q, defined are %q", tr, got, err, n, t.indexNames())
		}
		fs, err := in.EntryFields(n)
		wf := map[string]string{}
		for k, v := range insMap(reflect.New(t.typ()).Elem()) {
			wf[k] = reflect.ValueOf(v).Kind().String()
		}
		if err != nil || !reflect.DeepEqual(fs, wf) {
			x.failf("fields", "%s lists the fields %v (%v) of %q, defined are %v", tr, fs, err, n, wf)
		}
	}
	x.c.Eval(1 + 2*len(x.tabs))
	for _, n := range []string{"", "Rows", "nope"} {
		if l, err := in.Indexes(n); err == nil {
			x.failf("unknown-table", "%s lists the indexes %q of the unknown table %q", tr, l, n)
		}
		if l, err := in.EntryFields(n); err == nil {
			x.failf("unknown-table", "%s lists the fields %v of the unknown table %q", tr, l, n)
		}
	}
}

// remote goes through the client and a real server.
func (x *c24) remote(loc inspect.Inspect, cli bool) {
	c, r := x.c, x.r
	h := inspect.NewInspectHandler(loc)
	prefix := pick(r, []string{"", "/bond", "/a/b"})
	token := ""
	if r.Intn(3) == 0 {
		token = fmt.Sprint(r.Intn(1000))
	}
	var failing atomic.Int32
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		if token != "" && q.Header.Get("X-Token") != token {
			w.WriteHeader(http.StatusForbidden)
			return
		}
		if !strings.HasPrefix(q.URL.Path, prefix+"/") || strings.Contains(q.URL.Path, "//") {
			http.NotFound(w, q)
			return
		}
		switch failing.Load() {
		case 1:
			w.WriteHeader(http.StatusBadGateway)
			_, _ = w.Write([]byte("<html>bad gateway</html>"))
		case 2:
			_, _ = w.Write([]byte("[{"))
		case 3:
			if hj, ok := w.(http.Hijacker); ok {
				conn, _, _ := hj.Hijack()
				_ = conn.Close()
			}
		case 4:
			w.WriteHeader(http.StatusUnauthorized)
			_, _ = w.Write([]byte(`[]`))
		default:
			h(w, q)
		}
	}))
	defer srv.Close()
	url := srv.URL + prefix
	if r.Intn(2) == 0 && !cli {
		url += "/"
	}
	var hs map[string]string
	if token != "" {
		hs = map[string]string{"X-Token": token, "X-Other": "1"}
	}
	rem := inspect.NewInspectRemote(url, hs)
	x.lists("remote", rem)
	var qs []*insReq
	for i := 0; i < 8; i++ {
		q := x.request(bg, true)
		qs = append(qs, q)
		got, err := rem.Query(bg, q.table, q.index, q.sel, q.filter, q.limit, q.after)
		x.verdict("remote", q, got, err)
	}
	if r.Intn(2) == 0 {
		// the same questions at once, to the server and locally
		type ans struct {
			got []map[string]any
			err error
		}
		as := make([]ans, len(qs))
		var wg sync.WaitGroup
		for i, q := range qs {
			i, q := i, q
			wg.Add(1)
			go func() {
				defer wg.Done()
				as[i].got, as[i].err = rem.Query(bg, q.table, q.index, q.sel, q.filter, q.limit, q.after)
			}()
		}
		// one that has not answered anything yet
		fresh, err := inspect.NewInspect(x.infos)
		c.Must(err, "NewInspect")
		ls := make([]ans, len(qs))
		var lq []*insReq
		for range qs {
			lq = append(lq, x.request(bg, false))
		}
		for i, q := range lq {
			i, q, in := i, q, pick(r, []inspect.Inspect{loc, fresh})
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, t := range x.infos {
					_, _ = in.EntryFields(t.Name())
					_, _ = in.Indexes(t.Name())
				}
				_, _ = in.Tables()
				ls[i].got, ls[i].err = in.Query(bg, q.table, q.index, q.sel, q.filter, q.limit, q.after)
			}()
		}
		wg.Wait()
		x.lists("local", fresh)
		for i, q := range lq {
			x.verdict("local-at-once", q, ls[i].got, ls[i].err)
		}
		for i, q := range qs {
			x.verdict("remote-at-once", q, as[i].got, as[i].err)
		}
	}
	if cli {
		x.cli(os.Getenv("BOND_CLI"), nil, "cli", url, token, false)
	}
	switch r.Intn(3) {
	case 0:
		// a server that fails
		for fault := int32(1); fault <= 4; fault++ {
			failing.Store(fault)
			q := x.request(bg, true)
			if got, err := rem.Query(bg, q.table, q.index, q.sel, q.filter, q.limit, q.after); err == nil {
				x.failf("server-failure", "the remote client answered %d rows although the server failed (fault %d)", len(got), fault)
			}
			if l, err := rem.Tables(); err == nil {
				x.failf("server-failure", "the remote client listed %q although the server failed (fault %d)", l, fault)
			}
			if l, err := rem.Indexes("rows"); err == nil {
				x.failf("server-failure", "the remote client listed %q although the server failed (fault %d)", l, fault)
			}
			if l, err := rem.EntryFields("rows"); err == nil {
				x.failf("server-failure", "the remote client listed %q although the server failed (fault %d)", l, fault)
			}
			c.Count("server-faults", 1)
		}
		failing.Store(0)
	case 1:
		ctx, cancel := context.WithCancel(bg)
		cancel()
		q := x.request(bg, true)
		if _, err := rem.Query(ctx, q.table, q.index, q.sel, q.filter, q.limit, q.after); err == nil {
			x.failf("cancel", "the remote client answered with a cancelled context")
		}
		if token != "" {
			if l, err := inspect.NewInspectRemote(url, nil).Tables(); err == nil {
				x.failf("server-failure", "the remote client listed %q although the server refused it", l)
			}
		}
	}
}

// cli asks through the command line.
func (x *c24) cli(bin string, pre []string, tr, url, token string, exact bool) {
	c, r := x.c, x.r
	base := append(append([]string{}, pre...), "inspect", "--url", url)
	if token != "" {
		base = append(base, "--headers", "X-Token="+token)
		if r.Intn(2) == 0 {
			base = append(base, "--headers", "X-Other=2")
		}
	}
	run := func(args ...string) ([]byte, error) {
		p := exec.Command(bin, append(append([]string{}, base...), args...)...)
		var se bytes.Buffer
		p.Stderr = &se
		out, err := p.Output()
		c.Count("cli-runs", 1)
		if err != nil {
			err = fmt.Errorf("%v: %s", err, clip(se.String(), 300))
			if strings.Contains(se.String(), "goroutine ") {
				c.Fail("panic", "command line %q panicked: %s", args, clip(se.String(), 1500))
			}
		}
		return out, err
	}
	cmp := func(what string, out []byte, err error, want any) {
		if err != nil {
			x.failf(tr+"-refused", "%s %s failed: %v", tr, what, err)
		}
		a, b := insParse(c, out, exact), insJSON(c, want, exact)
		if !reflect.DeepEqual(a, b) {
			x.failf(tr, "%s %s printed %#v, expected %#v", tr, what, a, b)
		}
	}
	if r.Intn(2) == 0 {
		var names []string
		for _, t := range x.tabs {
			names = append(names, t.info().Name())
		}
		out, err := run("tables")
		cmp("tables", out, err, names)
		t := pick(r, x.tabs)
		out, err = run("indexes", "--table", t.info().Name())
		cmp("indexes", out, err, t.indexNames())
		wf := map[string]string{}
		for k, v := range insMap(reflect.New(t.typ()).Elem()) {
			wf[k] = reflect.ValueOf(v).Kind().String()
		}
		out, err = run("entry-fields", "--table", t.info().Name())
		cmp("entry-fields", out, err, wf)
		if out, err = run(pick(r, []string{"indexes", "entry-fields"}), "--table", "nope"); err == nil {
			x.failf("unknown-table", "%s answered %q about an unknown table", tr, out)
		}
	}
	for i := 0; i < 4; i++ {
		q := x.request(bg, true)
		args := []string{"query", "--table", q.table}
		if q.index != "" || r.Intn(2) == 0 {
			args = append(args, "--index", q.index)
		}
		js := func(flag string, m map[string]any) {
			if m != nil {
				b, err := json.Marshal(m)
				c.Must(err, "json")
				args = append(args, flag, string(b))
			}
		}
		js("--index-selector", q.sel)
		js("--filter", q.filter)
		js("--after", q.after)
		if q.limit == 0 && len(q.want) <= 30 && r.Intn(2) == 0 {
			// the default limit of 30 makes no difference
		} else {
			args = append(args, "--limit", fmt.Sprint(q.limit))
		}
		if r.Intn(3) == 0 {
			args = append(args, "--deadline", "60s")
		}
		out, err := run(args...)
		if err != nil {
			x.verdict(tr, q, nil, err)
			continue
		}
		if q.wantErr != "" {
			x.failf("not-refused", "%s %q answered %q although %s", tr, args, clip(string(out), 300), q.wantErr)
		}
		c.Eval(1)
		c.Count("query-"+tr, 1)
		c.Logf("%s %q", tr, args)
		cmp(fmt.Sprintf("%q", args), out, nil, q.want)
		if len(q.want) > 0 {
			x.seen(tr)
		}
	}
	switch r.Intn(3) {
	case 0:
		bad := pick(r, []string{"{", "[1]", "x", `{"ID":1} x`, `"a"`, "7"})
		args := []string{"query", "--table", x.tabs[0].info().Name(), pick(r, []string{"--index-selector", "--filter", "--after"}), bad}
		if out, err := run(args...); err == nil {
			x.failf("not-refused", "%s %q answered %q", tr, args, clip(string(out), 300))
		}
	case 1:
		if out, err := run("query"); err == nil {
			x.failf("not-refused", "%s query without a table answered %q", tr, clip(string(out), 300))
		}
	}
}

// localCLI asks through the command line made for a local database.
func (x *c24) localCLI(e *Env, which string) {
	self, err := os.Executable()
	x.c.Must(err, "executable")
	// the questions are asked while the database is open here; the answers
	// come from a copy made by a checkpoint
	dir := filepath.Join(x.c.Dir(), "copy")
	x.c.Must(e.db.Backend().Checkpoint(dir), "checkpoint")
	x.c.Must(os.MkdirAll(filepath.Join(dir, "bond"), 0o777), "mkdir")
	b, err := os.ReadFile(filepath.Join(e.dir, "bond", "PEBBLE_FORMAT_VERSION"))
	x.c.Must(err, "format file")
	x.c.Must(os.WriteFile(filepath.Join(dir, "bond", "PEBBLE_FORMAT_VERSION"), b, 0o666), "format file")
	x.cli(self, []string{"-tool", "inspect-cli", which}, "local-cli", dir, "", true)
}

// inspectCLI is the command line of a program with its own tables.
func inspectCLI(args []string) {
	which := args[0]
	var db bond.DB
	app := cli.App{Name: "t", Commands: []*cli.Command{inspect.NewInspectCLI(func(path string) (inspect.Inspect, error) {
		var err error
		cfg := EnvCfg{}
		db, err = bond.Open(path, &bond.Options{PebbleOptions: cfg.pebbleOptions(vfs.Default)})
		if err != nil {
			return nil, err
		}
		var infos []bond.TableInfo
		for _, t := range insTables(db, which) {
			infos = append(infos, t.info())
		}
		return inspect.NewInspect(infos)
	})}}
	err := app.Run(append([]string{"t"}, args[1:]...))
	if db != nil {
		_ = db.Close()
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	os.Exit(0)
}

// handler asks the handler itself, with exact numbers, and with requests that
// make no sense.
func (x *c24) handler(loc inspect.Inspect) {
	c, r := x.c, x.r
	h := inspect.NewInspectHandler(loc)
	do := func(path string, body []byte, accept string) (int, []byte) {
		q := httptest.NewRequest(pick(r, []string{"POST", "PUT"}), "http://x"+path, bytes.NewReader(body))
		if accept != "" {
			q.Header.Set("Accept", accept)
		}
		w := httptest.NewRecorder()
		h(w, q)
		b, _ := io.ReadAll(w.Result().Body)
		return w.Code, b
	}
	for i := 0; i < 8; i++ {
		q := x.request(bg, true)
		m := map[string]any{"table": q.table, "index": q.index, "indexSelector": q.sel, "filter": q.filter, "limit": q.limit, "after": q.after}
		for k, v := range m {
			if rv := reflect.ValueOf(v); rv.IsZero() && r.Intn(2) == 0 {
				delete(m, k)
			}
		}
		if r.Intn(4) == 0 {
			m["unused"] = 1
		}
		body, err := json.Marshal(m)
		c.Must(err, "json")
		code, out := do(pick(r, []string{"", "/x"})+"/query", body, pick(r, []string{"", "application/json"}))
		if q.wantErr != "" {
			c.Eval(1)
			if code < 400 {
				x.failf("not-refused", "handler: %s answered %d %q although %s", body, code, clip(string(out), 300), q.wantErr)
			}
			x.errorBody(body, out)
			continue
		}
		if code != http.StatusOK {
			x.failf("refused", "handler: %s answered %d %q", body, code, out)
		}
		c.Eval(1)
		c.Count("query-handler", 1)
		c.Logf("handler %s", body)
		if a, b := insParse(c, out, true), insJSON(c, q.want, true); !reflect.DeepEqual(a, b) {
			x.failf("rows", "handler: %s answered %#v, the direct query %#v", body, a, b)
		}
		if len(q.want) > 0 {
			x.seen("handler")
		}
	}
	for i := 0; i < 4; i++ {
		body := []byte(pick(r, []string{"", "{", "[]", "null", "7", `{"table":1}`, `{"table":null}`, `{"table":"nope"}`, `{"limit":-1}`, `{"limit":1.5}`, `{"table":"rows","filter":[]}`,
			`{"table":"rows","after":3}`, `{"table":"rows","indexSelector":"x"}`, "\xff\xfe", `{"table":"rows"} {`, `{"table":"rows"}{}`, strings.Repeat("[", 20000)}))
		path := pick(r, []string{"/query", "/indexes", "/entryFields"})
		if path != "/query" && bytes.HasPrefix(body, []byte(`{"table":"rows","`)) {
			path = "/query"
		}
		code, out := do(path, body, "")
		c.Eval(1)
		c.Count("senseless", 1)
		if code < 400 {
			x.failf("not-refused", "handler: %s with %q answered %d %q", path, body, code, clip(string(out), 300))
		}
		x.errorBody(body, out)
	}
	if code, _ := do(pick(r, []string{"/", "/tablesx", "/query/", "/Query"}), nil, ""); code != http.StatusNotFound {
		x.failf("path", "handler: an unknown path answered %d", code)
	}
	body, _ := json.Marshal(map[string]any{"table": x.tabs[0].info().Name()})
	if code, out := do(pick(r, []string{"/tables", "/indexes", "/entryFields", "/query"}), body, "text/html"); code < 400 {
		x.failf("accept", "handler: a request for HTML answered %d %q", code, clip(string(out), 200))
	}
}

func (x *c24) errorBody(body, out []byte) {
	var m map[string]any
	if err := json.Unmarshal(out, &m); err != nil || m["error"] == nil || m["error"] == "" {
		x.failf("error-body", "handler: %q was refused with the body %q, which names no error", clip(string(body), 200), clip(string(out), 200))
	}
}

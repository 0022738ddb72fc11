package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"embed"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/bloom"
)

// Databases written by the pinned commit (tool make-golden run against it).

//go:embed golden
var goldenFS embed.FS

type goldenTable struct {
	ID   byte
	PK   PKKind
	Ser  string
	Idx  map[byte]string
	Rows []Row
}

type goldenMeta struct {
	Format uint64
	Tables []goldenTable
	User   map[string][]byte
	Filter struct { // saved for the table
		Table   byte
		N       uint
		FP      float64
		Buckets int
		Prefix  []byte
	}
}

var goldenSers = map[string]SerKind{"json": serJSON, "cbor": serCBOR, "msgpack": serMsgpack, "msgpack-pooled": serMsgpackPooled, "msgpgen": serMsgpGen, "proto": serProto, "cbor-value": serCBORVal}

func (g *goldenTable) def() *TDef {
	k, ok := goldenSers[g.Ser]
	if !ok {
		panic("serializer " + g.Ser)
	}
	d := &TDef{ID: g.ID, PK: g.PK, Ser: k}
	for id := 0; id < 256; id++ {
		if n, ok := g.Idx[byte(id)]; ok {
			for _, i := range indexPool() {
				if i.Name == n {
					i.ID = byte(id)
					d.Idx = append(d.Idx, i)
				}
			}
		}
	}
	return d
}

func makeGolden(args []string) {
	out := args[0]
	die := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	for n := 0; n < 4; n++ {
		r := rand.New(rand.NewSource(int64(100 + n)))
		dir, err := os.MkdirTemp("", "golden")
		die(err)
		var m goldenMeta
		po := bond.DefaultPebbleOptions()
		if n%2 == 1 {
			po.FormatMajorVersion = pebble.FormatNewest
		}
		m.Format = uint64(po.FormatMajorVersion)
		db, err := bond.Open(filepath.Join(dir, "db"), &bond.Options{PebbleOptions: po, Serializer: newSerializer(serCBOR)})
		die(err)
		m.User = map[string][]byte{}
		i := 0
		for s := 0; s < int(serKinds); s++ {
			i++
			g := goldenTable{ID: byte(i), PK: PKKind((s + n) % int(pkKinds)), Ser: SerKind(s).String(), Idx: map[byte]string{}}
			if s == 0 {
				g.ID = 255
			}
			for _, d := range pickIndexes(r, 1, 7, 254) {
				g.Idx[d.ID] = d.Name
			}
			d := g.def()
			t := newTab(db, d)
			p := &Profile{IDs: idPool(r, 20), Small: s%2 == 0, Zero: 50}
			md := newModel(d)
			for _, id := range p.IDs {
				rs := []Row{p.rowID(r, id)}
				die(t.Insert(bg, rs, nil))
				md.Put(rs)
			}
			k := 0
			for _, row := range md.Sorted() {
				if k++; k%4 == 0 {
					u := p.rowID(r, row.ID)
					die(t.Update(bg, []Row{u}, nil))
					md.Put([]Row{u})
				} else if k%7 == 0 {
					die(t.Delete(bg, []Row{row}, nil))
					delete(md.Rows, row.ID)
				}
			}
			g.Rows = md.Sorted()
			want := md.ExpectKeys()
			var hi []byte
			if g.ID < 255 {
				hi = []byte{g.ID + 1, 0, 0, 0, 0, 0}
			}
			kvs, err := dumpKeys(db, []byte{g.ID, 0, 0, 0, 0, 0}, hi)
			die(err)
			for _, x := range kvs {
				if !want[string(x.k)] {
					panic("not as expected: " + showKey(x.k))
				}
				delete(want, string(x.k))
			}
			if len(want) > 0 {
				panic("entries missing")
			}
			m.Tables = append(m.Tables, g)
			if s == 2 && n >= 2 { // half of it in tables, half in the log
				die(db.Backend().Flush())
			}
		}
		for k := 0; k < 10; k++ {
			key, v := fmt.Sprint("user", k), []byte{byte(k), 0, 255}
			m.User[key] = v
			die(db.Set(bond.NewUserKey(key), v, bond.Sync))
		}
		f := &m.Filter
		ft := 0
		for m.Tables[ft].PK != pkU64 && m.Tables[ft].PK != pkStr { // its scans miss negative keys
			ft++
		}
		f.Table, f.N, f.FP, f.Buckets, f.Prefix = m.Tables[ft].ID, 500, 0.05, 7, bond.NewUserKey("golden")
		fi := &bond.FilterInitializable{Filter: bloom.NewBloomFilter(f.N, f.FP, f.Buckets, f.Prefix)}
		die(fi.Initialize(bg, db, []bond.TableScanner[any]{newTab(db, m.Tables[ft].def()).AnyScanner()}))
		die(fi.Save(bg, db))
		if n >= 2 {
			die(db.Backend().Compact([]byte{0, 0, 0, 0, 0, 0}, bytes.Repeat([]byte{0xff}, 16), true))
		}
		die(db.Close())
		var buf bytes.Buffer
		zw := gzip.NewWriter(&buf)
		tw := tar.NewWriter(zw)
		die(filepath.Walk(filepath.Join(dir, "db"), func(p string, i os.FileInfo, err error) error {
			if err != nil || i.IsDir() {
				return err
			}
			b, err := os.ReadFile(p)
			die(err)
			rel, _ := filepath.Rel(filepath.Join(dir, "db"), p)
			die(tw.WriteHeader(&tar.Header{Name: rel, Mode: 0o644, Size: int64(len(b))}))
			_, err = tw.Write(b)
			return err
		}))
		die(tw.Close())
		die(zw.Close())
		die(os.WriteFile(filepath.Join(out, fmt.Sprintf("db%d.tar.gz", n)), buf.Bytes(), 0o644))
		b, err := json.Marshal(m)
		die(err)
		die(os.WriteFile(filepath.Join(out, fmt.Sprintf("db%d.json", n)), b, 0o644))
		die(os.RemoveAll(dir))
	}
}

// unpackGolden writes a recorded database to dir.
func unpackGolden(n int, dir string) (*goldenMeta, error) {
	var m goldenMeta
	b, err := goldenFS.ReadFile(fmt.Sprintf("golden/db%d.json", n))
	if err == nil {
		err = json.Unmarshal(b, &m)
	}
	if err != nil {
		return nil, err
	}
	b, err = goldenFS.ReadFile(fmt.Sprintf("golden/db%d.tar.gz", n))
	if err != nil {
		return nil, err
	}
	zr, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	tr := tar.NewReader(zr)
	for {
		h, err := tr.Next()
		if err == io.EOF {
			return &m, nil
		}
		if err != nil {
			return nil, err
		}
		if strings.Contains(h.Name, "..") {
			return nil, fmt.Errorf("name %s", h.Name)
		}
		p := filepath.Join(dir, h.Name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return nil, err
		}
		c, err := io.ReadAll(tr)
		if err == nil {
			err = os.WriteFile(p, c, 0o644)
		}
		if err != nil {
			return nil, err
		}
	}
}

package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/cockroachdb/pebble"
	"github.com/cockroachdb/pebble/vfs"
	"github.com/go-bond/bond"
)

var bg = context.Background()

type quietLogger struct{}

func (quietLogger) Infof(string, ...interface{})  {}
func (quietLogger) Errorf(string, ...interface{}) {}
func (quietLogger) Fatalf(f string, a ...interface{}) {
	panic(fmt.Sprintf("pebble fatal: "+f, a...))
}

type EnvCfg struct {
	FS       vfs.FS // nil: in-memory
	Dir      string // "": scratch
	Ser      bond.Serializer[any]
	MemTable int
	Tiny     bool // tiny blocks/cache so that reads reach the file system
	Format   pebble.FormatMajorVersion
	Listener *pebble.EventListener
	NoAuto   bool
	Mod      func(o *pebble.Options)
	Default  int // >0: open with options that leave (nearly) everything to bond
}

type Env struct {
	c   *Case
	cfg EnvCfg
	dir string
	fs  vfs.FS
	db  bond.DB
}

func (cfg *EnvCfg) pebbleOptions(fs vfs.FS) *pebble.Options {
	o := &pebble.Options{FS: fs, Logger: quietLogger{}, L0CompactionThreshold: 2, MaxOpenFiles: 500, FormatMajorVersion: cfg.Format,
		EventListener: cfg.Listener, DisableAutomaticCompactions: cfg.NoAuto, DisableTableStats: cfg.NoAuto || cfg.Tiny}
	o.MemTableSize = 1 << 20
	if cfg.NoAuto {
		o.L0StopWritesThreshold = 1 << 20 // nothing would let them go on
	}
	if cfg.MemTable > 0 {
		o.MemTableSize = uint64(cfg.MemTable)
	}
	if cfg.Tiny {
		o.Levels = make([]pebble.LevelOptions, 7)
		for i := range o.Levels {
			o.Levels[i].BlockSize = 256
			o.Levels[i].IndexBlockSize = 256
			o.Levels[i].TargetFileSize = 4 << 10
		}
	}
	return o
}

// open opens (or reopens) the database.
func (e *Env) open() error {
	if e.cfg.Default > 0 {
		return e.openDefault()
	}
	o := e.cfg.pebbleOptions(e.fs)
	sz := int64(4 << 20)
	if e.cfg.Tiny {
		sz = 1
	}
	cache := pebble.NewCache(sz)
	defer cache.Unref()
	o.Cache = cache
	if e.cfg.Mod != nil {
		e.cfg.Mod(o)
	}
	db, err := bond.Open(e.dir, &bond.Options{PebbleOptions: o, Serializer: e.cfg.Ser})
	if err != nil {
		return err
	}
	e.db = db
	return nil
}

// openDefault opens the database with what bond chooses.
func (e *Env) openDefault() error {
	var o *bond.Options
	switch e.cfg.Default {
	case 1: // no options
	case 2:
		o = &bond.Options{Serializer: e.cfg.Ser}
	case 3:
		o = bond.DefaultOptions()
		defer o.PebbleOptions.TableCache.Unref()
	case 4:
		o = &bond.Options{PebbleOptions: bond.DefaultPebbleOptions(), Serializer: e.cfg.Ser}
		defer o.PebbleOptions.TableCache.Unref()
	}
	db, err := bond.Open(e.dir, o)
	if err != nil {
		return err
	}
	e.db = db
	return nil
}

func newEnv(c *Case, cfg EnvCfg) *Env {
	e := &Env{c: c, cfg: cfg, fs: cfg.FS, dir: cfg.Dir}
	if e.dir == "" {
		e.dir = filepath.Join(c.Dir(), "db")
	}
	if e.fs == nil {
		e.fs = vfs.NewMem()
	}
	if err := e.open(); err != nil {
		c.Fail("open", "Open of a fresh database failed: %v", err)
	}
	c.Cleanup(func() {
		if e.db != nil {
			db := e.db
			e.db = nil
			// a failed case may leave iterators open; the error is only
			// interesting to the checks that look at it themselves
			func() {
				defer func() { _ = recover() }()
				_ = db.Close()
			}()
		}
	})
	return e
}

func (e *Env) close() error {
	db := e.db
	e.db = nil
	return db.Close()
}

func (e *Env) reopen() {
	if err := e.close(); err != nil {
		e.c.Fail("close", "Close failed: %v", err)
	}
	if err := e.open(); err != nil {
		e.c.Fail("reopen", "reopening failed: %v", err)
	}
}

type kv struct{ k, v []byte }

// dumpKeys reads the raw key space in [lo, hi).
func dumpKeys(db bond.DB, lo, hi []byte) ([]kv, error) {
	it, err := db.Backend().NewIter(&pebble.IterOptions{LowerBound: lo, UpperBound: hi})
	if err != nil {
		return nil, err
	}
	var out []kv
	for it.First(); it.Valid(); it.Next() {
		out = append(out, kv{append([]byte(nil), it.Key()...), append([]byte(nil), it.Value()...)})
	}
	if err := it.Error(); err != nil {
		_ = it.Close()
		return nil, err
	}
	return out, it.Close()
}

func (e *Env) dumpAll() []kv {
	out, err := dumpKeys(e.db, nil, nil)
	if err != nil {
		e.c.Harness("dump: %v", err)
	}
	return out
}

func (e *Env) dumpTable(id byte) []kv {
	var hi []byte
	if id < 255 {
		hi = []byte{id + 1, 0, 0, 0, 0, 0}
	}
	out, err := dumpKeys(e.db, []byte{id, 0, 0, 0, 0, 0}, hi)
	if err != nil {
		e.c.Harness("dump: %v", err)
	}
	return out
}

func diffKV(a, b []kv) string {
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && bytes.Compare(a[i].k, b[j].k) < 0:
			return "removed: " + showKey(a[i].k)
		case i >= len(a) || bytes.Compare(a[i].k, b[j].k) > 0:
			return "added: " + showKey(b[j].k)
		default:
			if !bytes.Equal(a[i].v, b[j].v) {
				return fmt.Sprintf("changed: %s from %x to %x", showKey(a[i].k), clipB(a[i].v), clipB(b[j].v))
			}
			i++
			j++
		}
	}
	return ""
}

func clipB(b []byte) []byte {
	if len(b) > 80 {
		return b[:80]
	}
	return b
}

// keySpaceDiff compares the raw key space of a table with the model and
// returns the first difference in the data part and in the index part.
func (e *Env) keySpaceDiff(m *Model) (data, index string) {
	want := m.ExpectKeys()
	for _, x := range e.dumpTable(m.Def.ID) {
		ks := string(x.k)
		if !want[ks] {
			if x.k[1] == 0 && data == "" {
				data = "unexpected row key " + showKey(x.k)
			} else if x.k[1] != 0 && index == "" {
				index = "stale or foreign index entry " + showKey(x.k) + e.owner(m, x.k)
			}
		}
		if x.k[1] != 0 && len(x.v) != 0 && index == "" {
			index = "index entry with a value " + showKey(x.k)
		}
		delete(want, ks)
	}
	for k := range want {
		if k[1] == 0 && data == "" {
			data = "missing row key " + showKey([]byte(k))
		} else if k[1] != 0 && index == "" {
			index = "missing index entry " + showKey([]byte(k)) + e.owner(m, []byte(k))
		}
	}
	return
}

func (e *Env) owner(m *Model, k []byte) string {
	for _, r := range m.Rows {
		r := r
		if bytes.HasSuffix(k, m.Def.pkBytes(&r)) {
			return " near row " + r.String()
		}
	}
	return " (no live row)"
}

func rowsDiff(got, want []Row) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Sprintf("got %d rows, want %d; first missing at %d: %v", len(got), len(want), i, want[i])
		case i >= len(want):
			return fmt.Sprintf("got %d rows, want %d; first extra at %d: %v", len(got), len(want), i, got[i])
		case !got[i].Equal(want[i]):
			return fmt.Sprintf("row %d of %d/%d: got %v, want %v", i, len(got), len(want), got[i], want[i])
		}
	}
	return ""
}

func isNotFound(err error) bool {
	return errors.Is(err, bond.ErrNotFound) || (err != nil && strings.Contains(err.Error(), "not found"))
}

func (e *Env) flush() {
	if err := e.db.Backend().Flush(); err != nil {
		e.c.Harness("flush: %v", err)
	}
}

func (e *Env) compact() {
	if err := e.db.Backend().Compact([]byte{0, 0, 0, 0, 0, 0}, bytes.Repeat([]byte{0xff}, 16), true); err != nil {
		e.c.Harness("compact: %v", err)
	}
}

func writeFile(p string, b []byte) error { return os.WriteFile(p, b, 0o644) }

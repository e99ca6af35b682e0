package props

import (
	"encoding/binary"
	"fmt"
	"io"
	"testing"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	"pgregory.net/rapid"

	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/importer/helpers"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"

	"github.com/ipfs/go-unixfs/verif/vt"
)

func TestD08(t *testing.T) {
	vt.Check(t, "stored sharded directories of which only the shards on the hash paths of up to four names are available, and no node of an entry but the one looked up, changed by additions, replacements, removals and lookups of these names that leave the directory at least as large as it was (any, without a threshold); and other histories, which may change the form, without the nodes of the entries; all must succeed and fetch no other block; non-trivial: at least two operations that change the directory, and a shard outside the paths", func(rt *rapid.T, c *vt.C) {
		defer restoreDirOptions()()
		d := newDirs(rt, c, 24)
		kids := map[string]bool{}
		for _, k := range d.kids {
			kids[k.Cid().KeyString()] = true
			d.s.SetMissing(k.Cid(), true)
		}
		// do executes an operation and checks what it fetched.
		do := func(o *dirOp, shards map[string]bool) {
			c.Helper()
			ent, present := d.m[o.entry]
			looked := o.kind == "find" && present
			if looked {
				d.s.SetMissing(ent.Cid, false)
			}
			d.s.TakeFetched()
			d.step(o)
			for _, k := range d.s.TakeFetched() {
				switch {
				case kids[k.KeyString()]:
					if !looked || !k.Equals(ent.Cid) {
						c.Fatalf("%s fetched the node of an entry, %s", o.name, k)
					}
				case shards != nil && !shards[k.KeyString()]:
					c.Fatalf("%s fetched %s, which is not on the path of the name", o.name, k)
				}
			}
			if looked {
				d.s.SetMissing(ent.Cid, true)
			}
		}
		if rapid.IntRange(0, 2).Draw(rt, "any") == 0 {
			c.Label("any history")
			d.start()
			for i := rapid.IntRange(2, 30).Draw(rt, "steps"); i > 0; i-- {
				do(d.genOp(), nil)
				d.form = append(d.form, d.isSharded())
			}
			d.mustList("at the end")
			for _, k := range d.s.TakeFetched() {
				if kids[k.KeyString()] {
					c.Fatalf("listing fetched the node of an entry, %s", k)
				}
			}
			if d.switches() > 0 {
				c.NonTrivial()
			}
			return
		}
		d.m = d.genEntries(len(d.names))
		if len(d.m) == 0 {
			d.m[d.names[0]] = vt.EntOf(d.kids[0])
		}
		d.thr = 0
		if rapid.Bool().Draw(rt, "threshold") {
			d.thr = rapid.IntRange(1, d.m.EstSize()).Draw(rt, "newThreshold")
		}
		uio.HAMTShardingSize = d.thr
		c.LabelIf(d.thr > 0, "with a threshold")
		ref := putHAMT(d.s, d.m, d.width, d.h)
		operands := []string{}
		paths := map[string]map[string]bool{}
		all := map[string]bool{}
		for i := rapid.IntRange(1, 4).Draw(rt, "operands"); i > 0; i-- {
			n := d.genName()
			operands = append(operands, n)
			paths[n] = map[string]bool{}
			for _, sh := range ref.Path(n, d.width) {
				paths[n][sh.Cid.KeyString()] = true
				all[sh.Cid.KeyString()] = true
			}
		}
		outside := 0
		ref.Walk(func(n *vt.RefShard) {
			if !all[n.Cid.KeyString()] {
				d.s.SetMissing(n.Cid, true)
				outside++
			}
		})
		c.Logf("threshold %d, loaded with %q, names %q, %d shards outside the paths", d.thr, d.m.Names(), operands, outside)
		var err error
		d.dir, err = uio.NewDirectoryFromNode(d.s, get(d.s, ref.Cid))
		c.NoErr(err, "NewDirectoryFromNode")
		start, changes := d.m.EstSize(), 0
		for i := rapid.IntRange(1, 10).Draw(rt, "steps"); i > 0; i-- {
			name := rapid.SampledFrom(operands).Draw(rt, "operand")
			kind := rapid.SampledFrom([]string{"add", "add", "remove", "remove", "find"}).Draw(rt, "op")
			var kid ipld.Node
			after := d.m.Copy()
			switch kind {
			case "add":
				kid = rapid.SampledFrom(d.kids).Draw(rt, "kid")
				after[name] = vt.EntOf(kid)
			case "remove":
				delete(after, name)
			}
			if d.thr > 0 && after.EstSize() < start {
				kind, kid = "find", nil
			}
			if kind != "find" {
				changes++
			}
			do(d.op(kind, name, kid), paths[name])
			if rapid.IntRange(0, 4).Draw(rt, "node") == 0 {
				_, err := d.dir.GetNode()
				c.NoErr(err, "GetNode")
			}
		}
		nd, err := d.dir.GetNode()
		c.NoErr(err, "GetNode")
		if f := d.s.TakeFetched(); len(f) > 0 {
			c.Fatalf("GetNode fetched %s", f[0])
		}
		if want := d.m.HAMT(d.width, d.h); !nd.Cid().Equals(want.Cid) {
			c.Fatalf("the node is %s, want %s", nd.Cid(), want.Cid)
		}
		if changes >= 2 && outside > 0 {
			c.NonTrivial()
		}
	})
}

// drawn is a splitter that makes chunks that all differ.
type drawn struct {
	n, left, size int
	before        func(n int)
}

func (d *drawn) Reader() io.Reader { return nil }
func (d *drawn) NextBytes() ([]byte, error) {
	if d.left == 0 {
		return nil, io.EOF
	}
	d.before(d.n)
	d.left--
	b := make([]byte, d.size)
	binary.LittleEndian.PutUint32(b, uint32(d.n))
	d.n++
	return b, nil
}

func TestB01(t *testing.T) {
	vt.Check(t, "imports, appends and reads of files of hundreds of blocks, long writes through a modifier, and iterators over directories of many entries; at any time the data read but not stored yet, the data written but not stored, and the blocks fetched but not needed yet stay below a bound independent of the size; non-trivial: the whole is at least twice the bound", func(rt *rapid.T, c *vt.C) {
		kind := rapid.SampledFrom([]string{"import", "append", "read", "read", "read", "iterate", "iterate"}).Draw(rt, "kind")
		if rapid.IntRange(0, 40).Draw(rt, "modify") == 40 {
			kind = "modify"
		}
		c.Label(kind)
		s := vt.NewStore()
		cfg := vt.GenCfg(rt, 30)
		const ahead = 64 // chunks
		switch kind {
		case "import", "append":
			n := rapid.IntRange(2*ahead, 600).Draw(rt, "chunks")
			var base ipld.Node
			if kind == "append" {
				cfg.Trickle = true
				ref := cfg.TrickleDAG(vt.GenChunks(rt, 0, 20, 10, "base"))
				put(s, ref)
				base = get(s, ref.Cid)
			}
			stored, most := 0, 0
			s.Stored = func(n ipld.Node, _ func(cid.Cid) bool) {
				if len(n.Links()) == 0 {
					stored++
				}
			}
			spl := &drawn{left: n, size: rapid.IntRange(4, 8).Draw(rt, "size"), before: func(n int) {
				if n-stored > most {
					most = n - stored
				}
				if n-stored > ahead {
					c.Fatalf("%d chunks have been read, of which %d are stored", n, stored)
				}
			}}
			c.Logf("%s %v, %d chunks", kind, cfg, n)
			var root ipld.Node
			var err error
			if base != nil {
				root, err = cfg.Append(s, base, spl)
			} else {
				root, err = cfg.Import(s, spl)
			}
			c.NoErr(err, "%s", kind)
			c.Logf("at most %d chunks were waiting, root %s", most, root.Cid())
			c.NonTrivial()
		case "modify":
			const bound = 4 << 20
			defer restoreWidth()()
			helpers.DefaultLinksPerBlock = 174
			b := vt.Bytes(rt, rapid.IntRange(0, 1<<20).Draw(rt, "existing"), "existing")
			var chunks [][]byte
			for at := 0; at < len(b); at += 1 << 18 {
				chunks = append(chunks, b[at:min(at+1<<18, len(b))])
			}
			ref := cfg.DAG(chunks)
			put(s, ref)
			stored := 0
			s.Stored = func(n ipld.Node, _ func(cid.Cid) bool) {
				if len(n.Links()) == 0 {
					stored += len(n.RawData())
				}
			}
			dm, err := mod.NewDagModifier(bg, get(s, ref.Cid), s, chunker.SizeSplitterGen(1<<18))
			c.NoErr(err, "NewDagModifier")
			piece := vt.Bytes(rt, rapid.IntRange(1<<14, 1<<20).Draw(rt, "piece"), "piece")
			positioned := rapid.Bool().Draw(rt, "positioned")
			c.Logf("%v, %d bytes exist, pieces of %d, positioned %v", cfg, len(b), len(piece), positioned)
			at := rapid.IntRange(0, len(b)).Draw(rt, "at")
			_, err = dm.Seek(int64(at), io.SeekStart)
			c.NoErr(err, "Seek")
			for written := 0; written < 2*bound; {
				if positioned {
					_, err = dm.WriteAt(piece, int64(at+written))
				} else {
					_, err = dm.Write(piece)
				}
				c.NoErr(err, "writing")
				written += len(piece)
				if written-stored > bound+len(piece) {
					c.Fatalf("of %d bytes written %d are stored", written, stored)
				}
			}
			c.NonTrivial()
		case "read":
			n := rapid.IntRange(300, 1200).Draw(rt, "leaves")
			size := rapid.IntRange(4, 8).Draw(rt, "size")
			var chunks [][]byte
			for i := 0; i < n; i++ {
				b := make([]byte, size)
				binary.LittleEndian.PutUint32(b, uint32(i))
				chunks = append(chunks, b)
			}
			ref := cfg.DAG(chunks)
			put(s, ref)
			s.Rand = rapid.Uint64().Draw(rt, "blockOrder")
			depth, nodes := 0, 0
			var rec func(r *vt.Ref, d int)
			rec = func(r *vt.Ref, d int) {
				nodes++
				if d > depth {
					depth = d
				}
				for _, k := range r.Kids {
					rec(k, d+1)
				}
			}
			rec(ref, 0)
			bound := 24 * (depth + 1)
			c.Logf("%v, %d leaves of %d, %d nodes, depth %d", cfg, n, size, nodes, depth)
			if nodes >= 2*bound {
				c.NonTrivial()
			}
			r, err := uio.NewDagReader(bg, get(s, ref.Cid), s)
			c.NoErr(err, "NewDagReader")
			defer r.Close()
			from, pos := 0, 0
			check := func(what string) {
				c.Helper()
				need := len(neededFor(ref, uint64(from), uint64(pos), true))
				if got := s.CountFetched(); got > need+bound {
					c.Fatalf("%s: %d blocks were fetched, of which the bytes from %d to %d need %d", what, got, from, pos, need)
				}
			}
			if rapid.Bool().Draw(rt, "seek") {
				from = rapid.IntRange(0, n*size).Draw(rt, "from")
				pos = from
				_, err := r.Seek(int64(from), io.SeekStart)
				c.NoErr(err, "Seek")
				check("Seek")
			}
			if rapid.IntRange(0, 2).Draw(rt, "writeTo") == 0 {
				c.Label("WriteTo")
				k := 0
				_, err := r.WriteTo(writerFunc(func(p []byte) (int, error) {
					pos += len(p)
					if k++; k%16 == 0 {
						check("WriteTo")
					}
					return len(p), nil
				}))
				c.NoErr(err, "WriteTo")
				return
			}
			for i := rapid.IntRange(1, 12).Draw(rt, "reads"); i > 0; i-- {
				buf := make([]byte, rapid.OneOf(rapid.IntRange(1, 40), rapid.IntRange(1, 400)).Draw(rt, "length"))
				k, err := r.Read(buf)
				if err != nil && err != io.EOF {
					c.Fatalf("Read: %v", err)
				}
				pos += k
				check("Read")
			}
		case "iterate":
			const bound = 30
			m := vt.Entries{}
			n := rapid.IntRange(2*bound, 200).Draw(rt, "entries")
			for i := 0; i < n; i++ {
				k := vt.Child(rapid.IntRange(0, 40).Draw(rt, "child"))
				c.NoErr(s.Add(bg, k), "Add")
				m[fmt.Sprintf("entry %d", i)] = vt.EntOf(k)
			}
			kids := map[string]bool{}
			for _, e := range m {
				kids[e.Cid.KeyString()] = true
			}
			var root cid.Cid
			if sharded := rapid.Bool().Draw(rt, "sharded"); sharded {
				root = putHAMT(s, m, rapid.SampledFrom(widths).Draw(rt, "width"), cfg.Hash).Cid
				c.Label("sharded")
			} else {
				root = putBasic(s, m, cfg.Hash)
			}
			nd, err := unixfile.NewUnixfsFile(bg, s, get(s, root))
			c.NoErr(err, "NewUnixfsFile")
			it := nd.(files.Directory).Entries()
			c.Logf("%d entries", n)
			seen := 0
			for it.Next() {
				seen++
				got := 0
				for _, k := range s.TakeFetched() {
					if kids[k.KeyString()] {
						got++
					}
				}
				if got > bound {
					c.Fatalf("for entry number %d %d nodes of entries were fetched", seen, got)
				}
			}
			c.NoErr(it.Err(), "iterator")
			if seen != n {
				c.Fatalf("%d of %d entries were listed", seen, n)
			}
			c.NonTrivial()
		}
	})
}

type writerFunc func(p []byte) (int, error)

func (f writerFunc) Write(p []byte) (int, error) { return f(p) }

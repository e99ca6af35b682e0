package props

import (
	"bytes"
	"encoding/binary"
	"io"
	"testing"

	cid "github.com/ipfs/go-cid"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	"pgregory.net/rapid"

	unixfile "github.com/ipfs/go-unixfs/file"
	uio "github.com/ipfs/go-unixfs/io"

	"github.com/ipfs/go-unixfs/verif/vt"
)

// tally counts how often every block was fetched.
type tally map[string]int

func (t tally) take(s *vt.Store) tally {
	for _, k := range s.TakeFetched() {
		t[k.KeyString()]++
	}
	return t
}

// mustBe fails if a block was fetched more often than allowed.
func (t tally) mustBe(c *vt.C, limit func(k string) int, what string) {
	c.Helper()
	for k, n := range t {
		if n > limit(k) {
			id, _ := cid.Cast([]byte(k))
			c.Fatalf("%s fetched %s %d times, more than %d", what, id, n, limit(k))
		}
	}
}

func once(string) int { return 1 }

// distinctChunks generates chunks that all differ.
func distinctChunks(rt *rapid.T, from, min, max int) [][]byte {
	var chunks [][]byte
	n := rapid.IntRange(min, max).Draw(rt, "chunks")
	size := rapid.IntRange(4, 12).Draw(rt, "chunkSize")
	for i := 0; i < n; i++ {
		b := make([]byte, size)
		binary.LittleEndian.PutUint32(b, uint32(from+i))
		chunks = append(chunks, b)
	}
	return chunks
}

func TestB02(t *testing.T) {
	vt.Check(t, "reads, seeks and WriteTo of files of distinct blocks, imports, appends, listings of sharded directories in all ways, lookups and changes in them; the blocks fetched are counted: none more than once per pass (twice by an append); non-trivial: at least eight blocks below the root", func(rt *rapid.T, c *vt.C) {
		defer restoreDirOptions()()
		s := vt.NewStore()
		cfg := vt.GenCfg(rt, 12)
		s.Rand = rapid.Uint64().Draw(rt, "blockOrder")
		kind := rapid.SampledFrom([]string{"read", "read", "build", "list", "list", "change", "change"}).Draw(rt, "kind")
		c.Label(kind)
		seen := tally{}
		switch kind {
		case "read":
			chunks := distinctChunks(rt, 1, 1, 120)
			data := vt.Join(chunks)
			ref := cfg.DAG(chunks)
			put(s, ref)
			c.Logf("%v, %d leaves, %d bytes", cfg, len(chunks), len(data))
			if rapid.Bool().Draw(rt, "file") {
				nd, err := unixfile.NewUnixfsFile(bg, s, get(s, ref.Cid))
				c.NoErr(err, "NewUnixfsFile")
				f, ok := nd.(files.File)
				if !ok {
					c.Fatalf("NewUnixfsFile made a %T", nd)
				}
				got, err := io.ReadAll(f)
				c.NoErr(err, "reading")
				mustEqual(c, got, data, "reading")
				seen.take(s).mustBe(c, once, "reading the file")
				if len(chunks) >= 8 {
					c.NonTrivial()
				}
				return
			}
			r, err := uio.NewDagReader(bg, get(s, ref.Cid), s)
			c.NoErr(err, "NewDagReader")
			defer r.Close()
			pos, seeks := 0, 0
			for i := rapid.IntRange(1, 30).Draw(rt, "steps"); i > 0; i-- {
				switch rapid.IntRange(0, 9).Draw(rt, "step") {
				case 0:
					pos = rapid.IntRange(0, len(data)).Draw(rt, "to")
					_, err := r.Seek(int64(pos), io.SeekStart)
					c.NoErr(err, "Seek")
					seeks++
					c.Label("seek")
				case 1:
					var w bytes.Buffer
					_, err := r.WriteTo(&w)
					c.NoErr(err, "WriteTo")
					mustEqual(c, w.Bytes(), data[pos:], "WriteTo")
					pos = len(data)
					c.Label("WriteTo")
				default:
					b := make([]byte, rapid.OneOf(rapid.IntRange(1, 15), rapid.IntRange(1, 300)).Draw(rt, "length"))
					n, err := r.CtxReadFull(bg, b)
					if err != nil && err != io.EOF {
						c.Fatalf("CtxReadFull: %v", err)
					}
					mustEqual(c, b[:n], data[pos:pos+n], "CtxReadFull")
					pos += n
				}
				c.Logf("at %d after %d seeks", pos, seeks)
				seen.take(s).mustBe(c, func(string) int { return 1 + seeks }, "reading")
			}
			if len(seen) >= 8 {
				c.NonTrivial()
			}
		case "build":
			chunks := distinctChunks(rt, 1, 1, 80)
			c.Logf("import %v, %d leaves", cfg, len(chunks))
			root, err := cfg.Import(s, vt.NewChunks(chunks))
			c.NoErr(err, "Import")
			seen.take(s).mustBe(c, func(string) int { return 0 }, "importing")
			if !cfg.Trickle {
				if len(chunks) >= 8 {
					c.NonTrivial()
				}
				return
			}
			more := distinctChunks(rt, 1000, 1, 40)
			c.Logf("append %d leaves", len(more))
			_, err = cfg.Append(s, root, vt.NewChunks(more))
			c.NoErr(err, "Append")
			seen.take(s).mustBe(c, func(string) int { return 2 }, "appending")
			if len(chunks) >= 8 {
				c.NonTrivial()
			}
		default:
			width := rapid.SampledFrom(widths).Draw(rt, "width")
			uio.DefaultShardWidth = width
			uio.HAMTShardingSize = 0
			names := distinguishable(vt.GenNames(rt, 1, 40), width)
			m := vt.Entries{}
			uses := map[string]int{}
			var kids []ipld.Node
			for _, n := range names {
				k := vt.Child(rapid.IntRange(0, 40).Draw(rt, "child"))
				c.NoErr(s.Add(bg, k), "Add")
				kids = append(kids, k)
				if kind == "list" || rapid.IntRange(0, 3).Draw(rt, "present") > 0 {
					m[n] = vt.EntOf(k)
					uses[k.Cid().KeyString()]++
				}
			}
			ref := putHAMT(s, m, width, cfg.Hash)
			shards := 0
			isShard := map[string]bool{}
			ref.Walk(func(n *vt.RefShard) { shards++; isShard[n.Cid.KeyString()] = true })
			if shards > 3 {
				c.NonTrivial()
			}
			root := get(s, ref.Cid)
			c.Logf("width %d, %d shards, %q", width, shards, m.Names())
			open := func() uio.Directory {
				dir, err := uio.NewDirectoryFromNode(s, root)
				c.NoErr(err, "NewDirectoryFromNode")
				return dir
			}
			none := func(k string) int {
				if isShard[k] {
					return 1
				}
				return 0
			}
			if kind == "change" {
				dir := open()
				uses = map[string]int{} // only lookups need the nodes
				for i := rapid.IntRange(1, 20).Draw(rt, "steps"); i > 0; i-- {
					j := rapid.IntRange(0, len(names)-1).Draw(rt, "name")
					n := names[j]
					switch rapid.IntRange(0, 3).Draw(rt, "op") {
					case 0, 1:
						c.NoErr(dir.AddChild(bg, n, kids[j]), "AddChild")
						m[n] = vt.EntOf(kids[j])
						c.Logf("add %q", n)
					case 2:
						if _, ok := m[n]; ok {
							c.NoErr(dir.RemoveChild(bg, n), "RemoveChild")
							delete(m, n)
							c.Logf("remove %q", n)
						}
					default:
						_, err := dir.Find(bg, n)
						if _, ok := m[n]; ok {
							c.NoErr(err, "Find")
							uses[m[n].Cid.KeyString()]++
						}
						c.Logf("find %q", n)
					}
					if rapid.IntRange(0, 5).Draw(rt, "node") == 0 {
						_, err := dir.GetNode()
						c.NoErr(err, "GetNode")
					}
					seen.take(s).mustBe(c, func(k string) int {
						if isShard[k] {
							return 1
						}
						return uses[k]
					}, "the history")
				}
				mustListDir(c, dir, m, "at the end")
				tally{}.take(s).mustBe(c, none, "listing the changed directory")
				return
			}
			switch how := rapid.SampledFrom([]string{"Links", "ForEachLink", "EnumLinksAsync", "Entries", "Resolve"}).Draw(rt, "how"); how {
			case "Links":
				mustListDir(c, open(), m, how)
				seen.take(s).mustBe(c, none, how)
			case "ForEachLink":
				n := 0
				c.NoErr(open().ForEachLink(bg, func(*ipld.Link) error { n++; return nil }), "%s", how)
				if n != len(m) {
					c.Fatalf("%d links of %d", n, len(m))
				}
				seen.take(s).mustBe(c, none, how)
			case "EnumLinksAsync":
				n := 0
				for l := range open().EnumLinksAsync(bg) {
					c.NoErr(l.Err, "%s", how)
					n++
				}
				if n != len(m) {
					c.Fatalf("%d links of %d", n, len(m))
				}
				seen.take(s).mustBe(c, none, how)
			case "Resolve":
				n := rapid.SampledFrom(names).Draw(rt, "name")
				l, _, err := uio.ResolveUnixfsOnce(bg, s, root, []string{n})
				c.NoErr(err, "%s", how)
				if !l.Cid.Equals(m[n].Cid) {
					c.Fatalf("%q is %s, want %s", n, l.Cid, m[n].Cid)
				}
				seen.take(s).mustBe(c, none, how)
			case "Entries":
				nd, err := unixfile.NewUnixfsFile(bg, s, root)
				c.NoErr(err, "NewUnixfsFile")
				it := nd.(files.Directory).Entries()
				n := 0
				for it.Next() {
					n++
				}
				c.NoErr(it.Err(), "%s", how)
				if n != len(m) {
					c.Fatalf("%d entries of %d", n, len(m))
				}
				seen.take(s).mustBe(c, func(k string) int {
					if isShard[k] {
						return 1
					}
					return uses[k]
				}, how)
			}
		}
	})
}

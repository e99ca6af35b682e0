package props

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"testing"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	"pgregory.net/rapid"

	"github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	"github.com/ipfs/go-unixfs/mod"

	"github.com/ipfs/go-unixfs/verif/vt"
)

// rebuild returns the CID of the file with the same shape and other content.
func rebuild(c *vt.C, ref *vt.Ref, content []byte) cid.Cid {
	c.Helper()
	if ref.Size != uint64(len(content)) {
		panic("HARNESS: other size")
	}
	if len(content) == 0 {
		return ref.Cid
	}
	if len(ref.Kids) == 0 {
		return newLeaf(c, ref.Cid, ref.Block).with(content)
	}
	links, data, err := vt.DecodeDagPB(ref.Block)
	if err != nil || len(links) != len(ref.Kids) {
		panic("HARNESS: bad reference")
	}
	for i, k := range ref.Kids {
		links[i].Cid = rebuild(c, k, content[:k.Size])
		content = content[k.Size:]
	}
	k, err := ref.Cid.Prefix().Sum(vt.EncodeDagPB(links, data))
	c.NoErr(err, "computing a CID")
	return k
}

// mleaf is a leaf of the model of a file.
type mleaf struct {
	prefix cid.Prefix
	typ    uint64 // of the node, if it isn't raw
	data   []byte
}

func newLeaf(c *vt.C, k cid.Cid, block []byte) *mleaf {
	l := &mleaf{prefix: k.Prefix(), data: block}
	if l.prefix.Codec != cid.Raw {
		_, d, err := vt.DecodeDagPB(block)
		c.NoErr(err, "decoding a leaf")
		pb, err := vt.DecodePB(d)
		c.NoErr(err, "decoding a leaf")
		l.typ, l.data = pb.Type, pb.Data
	}
	return l
}

// with returns the CID of the leaf with other data.
func (l *mleaf) with(data []byte) cid.Cid {
	b := data
	if l.prefix.Codec != cid.Raw {
		b = vt.EncodeDagPB(nil, (&vt.PB{Type: l.typ, Data: notNil(data), Filesize: vt.U64(uint64(len(data)))}).Encode())
	}
	k, err := l.prefix.Sum(b)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	return k
}

func notNil(b []byte) []byte {
	if b == nil {
		return []byte{}
	}
	return b
}

// leaves lists the leaves with data of a stored file.
func leaves(c *vt.C, s *vt.Store, root cid.Cid) (out []*mleaf) {
	c.Helper()
	b := s.Raw(root)
	if b == nil && !s.Has(root) {
		c.Fatalf("block %s is not stored", root)
	}
	if root.Prefix().Codec != cid.Raw {
		links, _, err := vt.DecodeDagPB(b)
		c.NoErr(err, "decoding %s", root)
		for _, l := range links {
			out = append(out, leaves(c, s, l.Cid)...)
		}
		if len(links) > 0 {
			return out
		}
	}
	if l := newLeaf(c, root, b); len(l.data) > 0 {
		out = append(out, l)
	}
	return out
}

func leafString(ls []*mleaf) string {
	var b bytes.Buffer
	for i, l := range ls {
		if i == 40 {
			fmt.Fprintf(&b, "(%d more)", len(ls)-i)
			break
		}
		fmt.Fprintf(&b, "%d:%v/%d/%x ", len(l.data), l.prefix.Codec == cid.Raw, l.typ, vt.Murmur(string(l.data))>>48)
	}
	return b.String()
}

func TestM07(t *testing.T) {
	vt.Check(t, "files of any shape edited with a modifier, flushed after every edit: after overwrites in place the root is compared with that of the same tree over the new content; after other edits the sequence of leaves with data is compared with a model in which overwrites keep the borders and formats of the leaves, appends add the chunks of the new data, gaps are filled with zeros in chunks of 4096, and truncations keep all leaves before the cut; non-trivial: the file has at least two leaves and one is changed", func(rt *rapid.T, c *vt.C) {
		defer restoreWidth()()
		m := newMod(rt, c)
		if m.big {
			m.big, m.chunk = false, 40
			var err error
			m.dm, err = mod.NewDagModifier(bg, m.base, m.s, chunker.SizeSplitterGen(40))
			c.NoErr(err, "NewDagModifier")
			m.dm.RawLeaves, m.dm.Prefix = m.raw, m.prefix
		}
		flush := func() ipld.Node {
			nd, err := m.dm.GetNode()
			c.NoErr(err, "GetNode")
			return nd
		}
		start := len(leaves(c, m.s, m.ref.Cid))
		if start >= 2 {
			c.NonTrivial()
		}
		if len(m.b) > 0 && rapid.Bool().Draw(rt, "inPlace") {
			c.Label("in place")
			for i := rapid.IntRange(1, 4).Draw(rt, "edits"); i > 0; i-- {
				off := m.genPos(rt, "offset")
				if off >= len(m.b) {
					off = rapid.IntRange(0, len(m.b)-1).Draw(rt, "offset2")
				}
				b := m.genData(rt, "data")
				b = b[:min(len(b), len(m.b)-off)]
				if rapid.IntRange(0, 7).Draw(rt, "same") == 0 {
					b = m.b[off : off+len(b)]
				}
				c.Logf("WriteAt(%d bytes %x, %d) of %d", len(b), vt.Murmur(string(b)), off, len(m.b))
				_, err := m.dm.WriteAt(append([]byte{}, b...), int64(off))
				c.NoErr(err, "WriteAt")
				copy(m.b[off:], b)
				if rapid.Bool().Draw(rt, "flush") {
					if k, want := flush().Cid(), rebuild(c, m.ref, m.b); !k.Equals(want) {
						c.Fatalf("the root is %s, want %s, the same tree with the new content", k, want)
					}
				}
			}
			if k, want := flush().Cid(), rebuild(c, m.ref, m.b); !k.Equals(want) {
				c.Fatalf("the root is %s, want %s, the same tree with the new content", k, want)
			}
			return
		}
		ls := leaves(c, m.s, m.ref.Cid)
		appended := func(b []byte, chunk int) {
			for len(b) > 0 {
				n := min(chunk, len(b))
				l := &mleaf{prefix: m.prefix, typ: vt.PBRaw, data: b[:n]}
				l.prefix.Codec = cid.DagProtobuf
				if m.raw {
					l.prefix.Codec, l.prefix.Version = cid.Raw, 1
				}
				ls = append(ls, l)
				b = b[n:]
			}
		}
		for i := rapid.IntRange(1, 5).Draw(rt, "edits"); i > 0; i-- {
			n := m.genPos(rt, "position")
			if rapid.IntRange(0, 2).Draw(rt, "truncate") == 0 {
				c.Logf("Truncate(%d) of %d", n, len(m.b))
				c.NoErr(m.dm.Truncate(int64(n)), "Truncate")
				if n >= len(m.b) {
					appended(make([]byte, n-len(m.b)), 4096)
					m.b = append(m.b, make([]byte, n-len(m.b))...)
				} else {
					var kept []*mleaf
					at := 0
					for _, l := range ls {
						if at >= n {
							break
						}
						if at+len(l.data) > n {
							cut := *l
							cut.data = l.data[:n-at]
							if cut.prefix.Codec != cid.Raw {
								cut.typ = vt.PBRaw
							}
							kept = append(kept, &cut)
							break
						}
						kept = append(kept, l)
						at += len(l.data)
					}
					ls = kept
					m.b = append([]byte{}, m.b[:n]...)
				}
			} else {
				b := m.genData(rt, "data")
				if len(b) == 0 {
					b = []byte{7}
				}
				c.Logf("WriteAt(%d bytes %x, %d) of %d", len(b), vt.Murmur(string(b)), n, len(m.b))
				_, err := m.dm.WriteAt(append([]byte{}, b...), int64(n))
				c.NoErr(err, "WriteAt")
				if n > len(m.b) {
					appended(make([]byte, n-len(m.b)), 4096)
					m.b = append(m.b, make([]byte, n-len(m.b))...)
				}
				// What lies within the file is overwritten.
				in := min(len(b), len(m.b)-n)
				copy(m.b[n:], b[:in])
				at := 0
				for i, l := range ls {
					if at+len(l.data) > n && at < n+in {
						nl := *l
						nl.data = m.b[at : at+len(l.data)]
						ls[i] = &nl
					}
					at += len(l.data)
				}
				appended(b[in:], m.chunk)
				m.b = append(append([]byte{}, m.b...), b[in:]...)
			}
			for _, l := range ls {
				l.data = append([]byte{}, l.data...)
			}
			nd := flush()
			got := leaves(c, m.s, nd.Cid())
			for i := 0; i < len(got) || i < len(ls); i++ {
				if i >= len(got) || i >= len(ls) || !got[i].with(got[i].data).Equals(ls[i].with(ls[i].data)) {
					c.Fatalf("leaf %d differs (size:raw/type/hash): %s, want %s", i, leafString(got), leafString(ls))
				}
			}
		}
	})
}

func TestM06(t *testing.T) {
	vt.Check(t, "nodes that are not files and malformed file DAGs (leaves and branches of the wrong type, undecodable data, missing, extra and wrong child sizes, missing blocks, metadata) opened in a modifier, then written, truncated, seeked, read and flushed, or given to the trickle append; nothing may panic or fail to end, and the node and the blocks stay as they were; non-trivial: the DAG has a defect or the node is not a file", func(rt *rapid.T, c *vt.C) {
		defer restoreWidth()()
		helpers.DefaultLinksPerBlock = rapid.IntRange(2, 6).Draw(rt, "maxLinks")
		h := vt.GenHash(rt)
		s := vt.NewStore()
		var base ipld.Node
		size := 0
		if rapid.IntRange(0, 3).Draw(rt, "mode") == 0 {
			c.NonTrivial()
			p := genPB(rt)
			var links []vt.Link
			for i := rapid.IntRange(0, 3).Draw(rt, "links"); i > 0; i-- {
				k := vt.Child(rapid.IntRange(0, 20).Draw(rt, "child"))
				c.NoErr(s.Add(bg, k), "Add")
				links = append(links, vt.Link{Name: rapid.SampledFrom([]string{"", "a", "00b"}).Draw(rt, "name"), Cid: k.Cid(), Tsize: 10})
			}
			b := p.Encode()
			switch rapid.IntRange(0, 5).Draw(rt, "bytes") {
			case 0:
				b = mutate(rt, b)
			case 1:
				b = nil
			}
			c.Logf("%s (%x), %d links", pbString(p), b, len(links))
			base = proto(links, b, h)
			s.PutRaw(base.Cid(), base.RawData())
			size = len(p.Data)
		} else {
			root, defects := genBadFile(rt, c, s, h)
			if defects > 0 {
				c.NonTrivial()
			}
			nd, err := s.Clone().Get(bg, root.cid)
			c.NoErr(err, "loading the root")
			base, size = nd, int(root.size())
		}
		snap := newSnap(base, nil, "the original node")
		before := s.Snapshot()
		s.Rand = rapid.Uint64().Draw(rt, "blockOrder")
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		if rapid.IntRange(0, 4).Draw(rt, "append") == 0 {
			cfg := vt.GenCfg(rt, 6)
			cfg.Trickle = true
			var err error
			chunks := vt.NewChunks(vt.GenChunks(rt, 0, 6, 10, "appended"))
			within(c, "Append", func() {
				_, err = cfg.Append(s, base.Copy(), chunks)
			})
			c.Logf("Append: %v", err)
			within(c, "VerifyTrickleDagStructure", func() {
				err = trickle.VerifyTrickleDagStructure(base, trickle.VerifyParams{Getter: s, Direct: cfg.Width, LayerRepeat: 4, RawLeaves: cfg.Raw})
			})
			c.Logf("VerifyTrickleDagStructure: %v", err)
		} else {
			dm, err := mod.NewDagModifier(ctx, base, s, chunker.SizeSplitterGen(int64(rapid.IntRange(1, 20).Draw(rt, "chunkSize"))))
			if _, odd := base.(*vt.Odd); odd {
				if err != mod.ErrNotUnixfs {
					c.Fatalf("NewDagModifier for a node of an unknown format returned %v", err)
				}
				return
			}
			c.NoErr(err, "NewDagModifier")
			for i := rapid.IntRange(1, 8).Draw(rt, "steps"); i > 0; i-- {
				off := rapid.OneOf(rapid.IntRange(-2, size+20), rapid.SampledFrom([]int{0, size - 1, size, size + 1, size + 5000})).Draw(rt, "offset")
				n := rapid.IntRange(0, 30).Draw(rt, "length")
				op := rapid.SampledFrom([]string{"WriteAt", "WriteAt", "Write", "Truncate", "Truncate", "Seek", "SeekCurrent", "SeekEnd", "Read", "CtxReadFull", "Size", "Sync", "GetNode"}).Draw(rt, "op")
				var err error
				if n, err := dm.Size(); op == "SeekEnd" && err == nil && n > 1<<20 {
					// The file claims to be huge. A position at its end would
					// mean to fill it up after a truncation.
					op = "SeekCurrent"
				}
				within(c, fmt.Sprintf("%s(%d, %d)", op, off, n), func() {
					switch op {
					case "WriteAt":
						_, err = dm.WriteAt(bytes.Repeat([]byte{1}, n), int64(off))
					case "Write":
						_, err = dm.Write(bytes.Repeat([]byte{2}, n))
					case "Truncate":
						err = dm.Truncate(int64(off))
					case "Seek":
						_, err = dm.Seek(int64(off), io.SeekStart)
					case "SeekCurrent":
						_, err = dm.Seek(int64(n-15), io.SeekCurrent)
					case "SeekEnd":
						_, err = dm.Seek(int64(n-25), io.SeekEnd)
					case "Read":
						_, err = dm.Read(make([]byte, n))
					case "CtxReadFull":
						_, err = dm.CtxReadFull(ctx, make([]byte, n))
					case "Size":
						_, err = dm.Size()
					case "Sync":
						err = dm.Sync()
					case "GetNode":
						_, err = dm.GetNode()
					}
				})
				c.Logf("%s(%d, %d): %v", op, off, n, err)
				c.LabelIf(err != nil && err != io.EOF, "failed")
				if err == io.EOF && op != "Read" && op != "CtxReadFull" {
					c.Label("odd EOF")
				}
			}
		}
		snap.check(c)
		after := s.Snapshot()
		for k, v := range before {
			if after[k] != v {
				c.Fatalf("a stored block changed or disappeared")
			}
		}
	})
}

func TestS01(t *testing.T) {
	vt.Check(t, "imports, appends, modifier histories, directory and shard histories with reloads, some with a crash point from which on nothing can be stored, or with transient faults; whenever a block is stored, the blocks it links to have to be stored already; non-trivial: at least two blocks with links were stored", func(rt *rapid.T, c *vt.C) {
		var s *vt.Store
		bad := ""
		parents := 0
		// watch looks at what is stored from now on.
		watch := func(kids ...ipld.Node) {
			exempt := map[string]bool{}
			for _, k := range kids {
				exempt[k.Cid().KeyString()] = true
			}
			s.Stored = func(n ipld.Node, has func(cid.Cid) bool) {
				k := n.Cid()
				if exempt[k.KeyString()] {
					return
				}
				if k.Prefix().Codec == cid.DagProtobuf {
					links, _, err := vt.DecodeDagPB(n.RawData())
					if err != nil && bad == "" {
						bad = fmt.Sprintf("the block %s that was stored can't be decoded: %v", k, err)
					}
					if len(links) > 0 {
						parents++
					}
					for i, l := range links {
						if !has(l.Cid) && !exempt[l.Cid.KeyString()] && bad == "" {
							bad = fmt.Sprintf("the block %s was stored before %s, its link %d of %d %q", k, l.Cid, i, len(links), l.Name)
						}
					}
				}
			}
		}
		done := func() {
			c.Helper()
			if bad != "" {
				c.Fatalf("%s", bad)
			}
		}
		crash := func() {
			if rapid.IntRange(0, 2).Draw(rt, "crash") > 0 {
				return
			}
			left := rapid.IntRange(0, 20).Draw(rt, "crashPoint")
			c.Logf("crash after %d blocks", left)
			c.Label("crash")
			s.SetOnAdd(func(ipld.Node) error {
				left--
				if left < 0 {
					return vt.ErrInjected
				}
				return nil
			})
		}
		kind := rapid.SampledFrom([]string{"import", "append", "modifier", "modifier", "directory", "shard"}).Draw(rt, "kind")
		c.Label(kind)
		switch kind {
		case "import":
			cfg, chunks := genImport(rt, false, false)
			s = vt.NewStore()
			watch()
			c.Logf("%v, %s", cfg, chunksString(chunks))
			crash()
			cfg.Import(s, vt.NewChunks(chunks))
		case "append":
			ref, cfg, _ := genFileDAG(rt, c, 10)
			s = vt.NewStore()
			put(s, ref)
			watch()
			cfg.Trickle = true
			nd := get(s, ref.Cid)
			crash()
			for i := rapid.IntRange(1, 3).Draw(rt, "appends"); i > 0; i-- {
				chunks := vt.GenChunks(rt, 0, 30, 10, "appended")
				c.Logf("append %s", chunksString(chunks))
				out, err := cfg.Append(s, nd, vt.NewChunks(chunks))
				if err != nil || s.Add(bg, out) != nil {
					break
				}
				nd = out
			}
		case "modifier":
			defer restoreWidth()()
			m := newMod(rt, c)
			s = m.s
			watch()
			if rapid.Bool().Draw(rt, "faults") {
				for i := rapid.IntRange(1, 8).Draw(rt, "steps"); i > 0; i-- {
					op := m.genOp(rt, true)
					if len(m.b) > 1<<20 {
						break
					}
					_, clear, what := genFault(rt, c, s, bg)
					err := op.run()
					n := clear()
					c.Logf("%s with %s, %d times: %v", op.name, what, n, err)
					if n > 0 || err != nil {
						// What the model holds isn't of interest.
						break
					}
					op.apply()
				}
				m.dm.GetNode()
				break
			}
			crash()
			for i := rapid.IntRange(1, 12).Draw(rt, "steps"); i > 0; i-- {
				op := m.genOp(rt, true)
				c.Logf("%s", op.name)
				if err := op.run(); err != nil && !op.reject {
					break
				}
				op.apply()
				done()
			}
			m.dm.GetNode()
		case "directory":
			defer restoreDirOptions()()
			d := newDirs(rt, c, 16)
			s = d.s
			watch(d.kids...)
			d.prepared(10)
			done()
			crash()
			for i := rapid.IntRange(1, 8).Draw(rt, "operations"); i > 0; i-- {
				o := d.genOp()
				c.Logf("%s", o.name)
				if o.run(bg) != nil {
					continue
				}
				o.done()
				if rapid.IntRange(0, 3).Draw(rt, "node") == 0 {
					d.dir.GetNode()
				}
			}
			if nd, err := d.dir.GetNode(); err == nil {
				s.Add(bg, nd)
			}
		case "shard":
			d := newShards(rt, c, 16)
			s = d.s
			watch(d.kids...)
			d.start()
			for i := rapid.IntRange(0, 20).Draw(rt, "steps"); i > 0; i-- {
				d.genStep()
			}
			done()
			crash()
			d.sh.Node()
		}
		done()
		if parents >= 2 {
			c.NonTrivial()
		}
	})
}

package props

import (
	"bytes"
	"errors"
	"fmt"
	"testing"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	"pgregory.net/rapid"

	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/importer/helpers"
	pb "github.com/ipfs/go-unixfs/pb"

	"github.com/ipfs/go-unixfs/verif/vt"
)

// built is a finished node that can become a child.
type built struct {
	nd   ipld.Node
	cid  cid.Cid
	size uint64 // of the file
	ts   uint64 // of the DAG
	raw  bool
	kids int
}

// hand models a node under construction.
type hand struct {
	typ   uint64
	data  []byte
	kids  []built
	sizes []uint64
}

func (n *hand) size() uint64 {
	t := uint64(len(n.data))
	for _, s := range n.sizes {
		t += s
	}
	return t
}

func (n *hand) build(h vt.Hash) (cid.Cid, uint64) {
	p := &vt.PB{Type: n.typ, Data: n.data, Filesize: vt.U64(n.size()), Blocksizes: n.sizes}
	var links []vt.Link
	ts := uint64(0)
	for _, k := range n.kids {
		links = append(links, vt.Link{Name: "", Cid: k.cid, Tsize: k.ts})
		ts += k.ts
	}
	b := vt.EncodeDagPB(links, p.Encode())
	return h.Cid(cid.DagProtobuf, b), ts + uint64(len(b))
}

func TestI08(t *testing.T) {
	vt.Check(t, "random sequences of the operations of the DAG builder helper (taking chunks, making leaves, starting nodes, adding and removing children, setting data, filling a layer, committing, loading committed nodes again, fetching children), with a source that may fail at the end, against a model that encodes every committed node independently; non-trivial: a committed node with at least two children after a removal or in a second level, or a failing source", func(rt *rapid.T, c *vt.C) {
		cfg, chunks := genImport(rt, false, false)
		defer restoreWidth()()
		if len(chunks) > 40 {
			chunks = chunks[:40]
		}
		if rapid.IntRange(0, 3).Draw(rt, "emptyChunks") == 0 {
			for j := rapid.IntRange(1, 3).Draw(rt, "count"); j > 0; j-- {
				at := rapid.IntRange(0, len(chunks)).Draw(rt, "emptyAt")
				chunks = append(chunks[:at:at], append([][]byte{{}}, chunks[at:]...)...)
			}
		}
		s := vt.NewStore()
		spl := vt.NewChunks(chunks)
		bad := rapid.IntRange(0, 4).Draw(rt, "failingSource") == 0
		if bad {
			spl.Err = vt.ErrInjected
			spl.Once = rapid.Bool().Draw(rt, "once")
		}
		db, err := cfg.Params(s).New(spl)
		c.NoErr(err, "New")
		c.Logf("%v, %s, failing %v", cfg, chunksString(chunks), bad)
		types := []pb.Data_DataType{ft.TFile, ft.TRaw}
		var pool []built
		leafOf := func(data []byte, typ pb.Data_DataType, nd ipld.Node) built {
			ref := cfg.Leaf(data, uint64(typ))
			if cfg.Raw && cfg.Hash.Builder == nil {
				ref.Cid = nd.Cid()
				if p := ref.Cid.Prefix(); p.Codec != cid.Raw || p.Version != 1 {
					c.Fatalf("raw leaf without a builder has the CID %s", nd.Cid())
				}
			}
			if !nd.Cid().Equals(ref.Cid) || !bytes.Equal(nd.RawData(), ref.Block) {
				c.Fatalf("leaf of %d bytes is %s, want %s", len(data), nd.Cid(), ref.Cid)
			}
			return built{nd: nd, cid: ref.Cid, size: ref.Size, ts: ref.Tsize, raw: cfg.Raw}
		}
		// leafOf2 is the leaf that filling a layer makes of a chunk.
		leafOf2 := func(chunk []byte) built {
			ref := cfg.Leaf(chunk, uint64(ft.TRaw))
			if cfg.Raw && cfg.Hash.Builder == nil {
				ref.Cid = mdag.NewRawNode(chunk).Cid()
			}
			return built{cid: ref.Cid, size: ref.Size, ts: ref.Tsize, raw: cfg.Raw}
		}
		left := chunks
		var cur *helpers.FSNodeOverDag
		var m *hand
		removed := false
		check := func(what string) {
			c.Helper()
			if n := cur.NumChildren(); n != len(m.kids) {
				c.Fatalf("%s: the node has %d children, want %d", what, n, len(m.kids))
			}
			if n := cur.FileSize(); n != m.size() {
				c.Fatalf("%s: the size of the file is %d, want %d", what, n, m.size())
			}
		}
		commit := func() {
			c.Helper()
			nd, err := cur.Commit()
			c.NoErr(err, "Commit")
			k, ts := m.build(cfg.Hash)
			if !nd.Cid().Equals(k) {
				c.Fatalf("the committed node is %s, want %s; %d children, %d bytes of data", nd.Cid(), k, len(m.kids), len(m.data))
			}
			dn, err := cur.GetDagNode()
			c.NoErr(err, "GetDagNode")
			if !dn.Cid().Equals(k) {
				c.Fatalf("GetDagNode returns %s after Commit of %s", dn.Cid(), k)
			}
			for i, kid := range m.kids {
				if !s.Has(kid.cid) {
					c.Fatalf("child %d of a node is not stored", i)
				}
				if kid.kids > 0 && len(m.kids) > 1 {
					c.NonTrivial()
				}
			}
			if removed && len(m.kids) > 1 {
				c.NonTrivial()
			}
			pool = append(pool, built{nd: nd.Copy(), cid: k, size: m.size(), ts: ts, kids: len(m.kids)})
		}
		start := func(typ pb.Data_DataType) {
			cur, m, removed = db.NewFSNodeOverDag(typ), &hand{typ: uint64(typ)}, false
		}
		start(ft.TFile)
		n := rapid.IntRange(1, 40).Draw(rt, "steps")
		for i := 0; i < n; i++ {
			switch rapid.SampledFrom([]string{"done", "next", "leaf", "leaf", "make", "new", "add", "add", "add", "add", "remove", "data", "layer", "commit", "load", "child", "store"}).Draw(rt, "op") {
			case "done":
				want := len(left) == 0 && !bad
				c.Logf("Done")
				for j := rapid.IntRange(1, 2).Draw(rt, "times"); j > 0; j-- {
					if got := db.Done(); got != want {
						c.Fatalf("Done is %v with %d chunks left, failing %v", got, len(left), bad)
					}
				}
			case "next":
				c.Logf("Next with %d left", len(left))
				b, err := db.Next()
				switch {
				case len(left) > 0:
					c.NoErr(err, "Next")
					mustEqual(rt, b, left[0], "chunk")
					left = left[1:]
				case bad:
					c.NonTrivial()
					if !errors.Is(err, vt.ErrInjected) || b != nil {
						c.Fatalf("Next of a failing source returned %d bytes and %v", len(b), err)
					}
				default:
					if err != nil || b != nil {
						c.Fatalf("Next at the end returned %d bytes and %v", len(b), err)
					}
				}
			case "leaf":
				typ := rapid.SampledFrom(types).Draw(rt, "type")
				c.Logf("NewLeafDataNode(%v) with %d left", typ, len(left))
				if len(left) == 0 && !bad {
					continue
				}
				nd, size, err := db.NewLeafDataNode(typ)
				if len(left) == 0 {
					c.NonTrivial()
					if !errors.Is(err, vt.ErrInjected) {
						c.Fatalf("a leaf of a failing source returned %v", err)
					}
					continue
				}
				c.NoErr(err, "NewLeafDataNode")
				b := leafOf(left[0], typ, nd)
				if size != b.size {
					c.Fatalf("the size of a leaf of %d bytes is %d", b.size, size)
				}
				pool = append(pool, b)
				left = left[1:]
			case "make":
				data := vt.Bytes(rt, rapid.IntRange(0, 20).Draw(rt, "len"), "data")
				typ := rapid.SampledFrom(types).Draw(rt, "type")
				nd, err := db.NewLeafNode(data, typ)
				c.NoErr(err, "NewLeafNode")
				c.Logf("NewLeafNode(%d bytes, %v)", len(data), typ)
				pool = append(pool, leafOf(data, typ, nd))
			case "new":
				typ := rapid.SampledFrom(types).Draw(rt, "type")
				c.Logf("new node of type %v", typ)
				start(typ)
			case "add":
				if len(pool) == 0 {
					continue
				}
				j := len(pool) - 1 - rapid.IntRange(0, len(pool)-1).Draw(rt, "which")
				size := pool[j].size
				if rapid.IntRange(0, 9).Draw(rt, "otherSize") == 0 {
					size = rapid.SampledFrom([]uint64{0, 1, 1 << 32, 1 << 40}).Draw(rt, "size")
				}
				c.Logf("add %d of size %d", j, size)
				c.NoErr(cur.AddChild(pool[j].nd, size, db), "AddChild")
				if !s.Has(pool[j].cid) {
					c.Fatalf("an added child is not stored")
				}
				m.kids = append(m.kids, pool[j])
				m.sizes = append(m.sizes, size)
			case "remove":
				if len(m.kids) == 0 {
					continue
				}
				j := rapid.IntRange(0, len(m.kids)-1).Draw(rt, "index")
				c.Logf("remove %d", j)
				cur.RemoveChild(j, db)
				m.kids = append(append([]built(nil), m.kids[:j]...), m.kids[j+1:]...)
				m.sizes = append(append([]uint64(nil), m.sizes[:j]...), m.sizes[j+1:]...)
				removed = true
			case "data":
				m.data = vt.Bytes(rt, rapid.IntRange(0, 20).Draw(rt, "len"), "data")
				c.Logf("data of %d bytes", len(m.data))
				cur.SetFileData(append([]byte{}, m.data...))
			case "layer":
				c.Logf("fill the layer with %d left", len(left))
				err := db.FillNodeLayer(cur)
				for len(m.kids) < cfg.Width && len(left) > 0 {
					lf := leafOf2(left[0])
					m.kids, m.sizes = append(m.kids, lf), append(m.sizes, lf.size)
					left = left[1:]
				}
				if bad && len(m.kids) < cfg.Width {
					c.NonTrivial()
					if !errors.Is(err, vt.ErrInjected) {
						c.Fatalf("filling a layer from a failing source returned %v", err)
					}
					break
				}
				c.NoErr(err, "FillNodeLayer")
				nd, err := cur.GetDagNode()
				c.NoErr(err, "GetDagNode")
				if k, _ := m.build(cfg.Hash); !nd.Cid().Equals(k) {
					c.Fatalf("the filled node is %s, want %s", nd.Cid(), k)
				}
			case "commit":
				c.Logf("commit")
				commit()
			case "load":
				if len(pool) == 0 {
					continue
				}
				commit()
				cp := pool[len(pool)-1].nd.Copy().(*mdag.ProtoNode)
				c.Logf("load")
				if rapid.Bool().Draw(rt, "method") {
					cur, err = db.NewFSNFromDag(cp)
				} else {
					cur, err = helpers.NewFSNFromDag(cp)
				}
				c.NoErr(err, "NewFSNFromDag")
			case "child":
				if len(m.kids) == 0 {
					continue
				}
				j := rapid.IntRange(0, len(m.kids)-1).Draw(rt, "index")
				c.Logf("child %d", j)
				k, err := cur.GetChild(bg, j, s)
				if m.kids[j].raw {
					if err == nil {
						c.Fatalf("a raw leaf was returned as a node with children")
					}
					continue
				}
				c.NoErr(err, "GetChild")
				nd, err := k.GetDagNode()
				c.NoErr(err, "GetDagNode of a child")
				if !nd.Cid().Equals(m.kids[j].cid) || k.NumChildren() != m.kids[j].kids || k.FileSize() != m.kids[j].size {
					c.Fatalf("child %d is %s (%d children, %d bytes), want %s (%d, %d)", j, nd.Cid(), k.NumChildren(), k.FileSize(), m.kids[j].cid, m.kids[j].kids, m.kids[j].size)
				}
			case "store":
				if len(pool) == 0 {
					continue
				}
				b := pool[len(pool)-1]
				c.NoErr(db.Add(b.nd), "Add")
				if !s.Has(b.cid) {
					c.Fatalf("an added node is not stored")
				}
			}
			check(fmt.Sprintf("step %d", i))
		}
		commit()
	})
}

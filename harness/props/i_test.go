package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"testing"
	"time"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	pi "github.com/ipfs/go-ipfs-posinfo"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	"pgregory.net/rapid"

	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/importer"
	"github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"

	"github.com/ipfs/go-unixfs/verif/vt"
)

// genImport generates a configuration and chunks that make deep trees likely.
func genImport(rt *rapid.T, trickleOnly, balancedOnly bool) (vt.Cfg, [][]byte) {
	cfg := vt.GenCfg(rt, 40)
	if rapid.IntRange(0, 3).Draw(rt, "otherDefault") == 0 {
		// The default doesn't matter.
		rt.Cleanup(restoreWidth())
		helpers.DefaultLinksPerBlock = rapid.IntRange(2, 12).Draw(rt, "defaultLinks")
	}
	if trickleOnly {
		cfg.Trickle = true
	}
	if balancedOnly {
		cfg.Trickle = false
	}
	if cfg.Trickle && rapid.IntRange(0, 9).Draw(rt, "narrow") == 0 {
		cfg.Width = 1
	}
	return cfg, genChunksFor(rt, cfg, "chunks")
}

// genDeepImport is like genImport, sometimes with a deep tree.
func genDeepImport(rt *rapid.T, trickleOnly, balancedOnly bool) (vt.Cfg, [][]byte) {
	cfg, chunks := genImport(rt, trickleOnly, balancedOnly)
	if cfg.Width > 1 && rapid.IntRange(0, 300).Draw(rt, "deep") == 300 {
		cfg.Width = rapid.IntRange(2, 4).Draw(rt, "deepWidth")
		n := rapid.IntRange(500, 9000).Draw(rt, "deepN")
		chunks = vt.GenChunks(rt, n, n, 2, "deepChunks")
	}
	return cfg, chunks
}

// genChunksFor generates chunks, often at the borders where the shape changes.
func genChunksFor(rt *rapid.T, cfg vt.Cfg, label string) [][]byte {
	if rapid.IntRange(0, 80).Draw(rt, label+"Large") == 80 {
		return genLargeChunks(rt, 20, label)
	}
	var n int
	if rapid.Bool().Draw(rt, label+"Border") {
		var borders []int
		w := cfg.Width
		if cfg.Trickle {
			// leaves of a full tree with some complete subtrees
			capd := []int{w}
			tot := w
			for d := 1; tot < 400 && d < 5; d++ {
				for i := 0; i < 4; i++ {
					borders = append(borders, tot)
					tot += capd[d-1]
				}
				capd = append(capd, tot)
			}
			borders = append(borders, tot)
		} else {
			for k := 1; k <= 600; k *= w {
				borders = append(borders, k)
				for j := 2; j < 4 && k*j < 600; j++ {
					borders = append(borders, k*j)
				}
				if w < 2 {
					break
				}
			}
		}
		n = rapid.SampledFrom(borders).Draw(rt, label+"BorderAt") + rapid.IntRange(-1, 1).Draw(rt, label+"Off")
		if n < 0 {
			n = 0
		}
		if n > 500 {
			n = 500
		}
	} else {
		n = rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 60), rapid.IntRange(0, 300)).Draw(rt, label+"N")
	}
	size := 12
	if n < 20 {
		size = 300
	}
	return vt.GenChunks(rt, n, n, size, label)
}

// genLargeChunks generates few chunks, with sizes around powers of two (those
// of buffers) and up to the limit for blocks.
func genLargeChunks(rt *rapid.T, maxBits int, label string) [][]byte {
	var out [][]byte
	for i := rapid.IntRange(1, 4).Draw(rt, label+"LargeCount"); i > 0; i-- {
		n := 1<<rapid.IntRange(8, maxBits).Draw(rt, label+"Bits") + rapid.IntRange(-2, 2).Draw(rt, label+"BitsOff")
		if n > helpers.BlockSizeLimit {
			n = helpers.BlockSizeLimit
		}
		out = append(out, vt.Fill(n, 0, int64(i)))
	}
	return out
}

// emptyChunks puts some empty chunks into the list, sometimes.
func emptyChunks(rt *rapid.T, c *vt.C, chunks [][]byte) [][]byte {
	if rapid.IntRange(0, 7).Draw(rt, "emptyChunks") > 0 {
		return chunks
	}
	c.Label("empty chunks")
	for i := rapid.IntRange(1, 3).Draw(rt, "count"); i > 0; i-- {
		at := rapid.IntRange(0, len(chunks)).Draw(rt, "emptyAt")
		chunks = append(chunks[:at:at], append([][]byte{{}}, chunks[at:]...)...)
	}
	return chunks
}

func chunksString(ch [][]byte) string {
	total := 0
	h := uint64(0)
	for _, c := range ch {
		total += len(c)
		h = h*31 + vt.Murmur(string(c))
	}
	return fmt.Sprintf("%d chunks, %d bytes (%x)", len(ch), total, h)
}

// readAll reads the whole file with the library's reader.
func readAll(s *vt.Store, c cid.Cid) ([]byte, uint64, error) {
	n, err := s.Get(bg, c)
	if err != nil {
		return nil, 0, err
	}
	r, err := uio.NewDagReader(bg, n, s)
	if err != nil {
		return nil, 0, err
	}
	b, err := io.ReadAll(r)
	return b, r.Size(), err
}

func TestI01(t *testing.T) {
	vt.Check(t, "content of random bytes, chunked by a list of sizes, by size or rabin, imported with random layout, width, leaf format and CID configuration (or with the convenience functions), read back from storage by the library and by an independent reader; non-trivial: at least two leaves", func(rt *rapid.T, c *vt.C) {
		s := vt.NewStore()
		var content []byte
		var root ipld.Node
		var err error
		how := rapid.SampledFrom([]string{"list", "list", "list", "size", "rabin", "default"}).Draw(rt, "chunker")
		c.Label(how)
		var cfg vt.Cfg
		switch how {
		case "list":
			var chunks [][]byte
			cfg, chunks = genDeepImport(rt, false, false)
			content = vt.Join(chunks)
			if rapid.IntRange(0, 9).Draw(rt, "emptyChunks") == 0 {
				c.Label("empty chunks")
				for i := rapid.IntRange(1, 5).Draw(rt, "count"); i > 0; i-- {
					at := rapid.IntRange(0, len(chunks)).Draw(rt, "emptyAt")
					chunks = append(chunks[:at:at], append([][]byte{{}}, chunks[at:]...)...)
				}
			}
			c.Logf("%v, %s", cfg, chunksString(chunks))
			root, err = cfg.Import(s, vt.NewChunks(chunks))
		case "default":
			n := rapid.OneOf(rapid.IntRange(0, 10), rapid.IntRange(0, 3000)).Draw(rt, "size")
			chunk := rapid.IntRange(1, 8).Draw(rt, "chunk")
			content = vt.Bytes(rt, n, "content")
			cfg.Trickle = rapid.Bool().Draw(rt, "trickle")
			c.Logf("convenience import, trickle=%v, %d bytes (%x) in chunks of %d", cfg.Trickle, n, vt.Murmur(string(content)), chunk)
			spl := chunker.NewSizeSplitter(bytes.NewReader(content), int64(chunk))
			if cfg.Trickle {
				root, err = importer.BuildTrickleDagFromReader(s, spl)
			} else {
				root, err = importer.BuildDagFromReader(s, spl)
			}
		default:
			cfg = vt.GenCfg(rt, 200)
			var spl chunker.Splitter
			switch how {
			case "size":
				content = vt.Bytes(rt, rapid.OneOf(rapid.IntRange(0, 10), rapid.IntRange(0, 5000)).Draw(rt, "size"), "content")
				n := rapid.IntRange(1, 600).Draw(rt, "chunk")
				if len(content)/n > 600 {
					n = len(content)/600 + 1
				}
				c.Logf("chunk %d", n)
				spl = chunker.NewSizeSplitter(bytes.NewReader(content), int64(n))
			case "rabin":
				content = vt.Bytes(rt, rapid.IntRange(0, 20000).Draw(rt, "size"), "content")
				min := rapid.IntRange(16, 200).Draw(rt, "min")
				spl = chunker.NewRabinMinMax(bytes.NewReader(content), uint64(min), uint64(min*2), uint64(min*4))
				c.Logf("rabin min %d", min)
			}
			c.Logf("%v, %s, %d bytes (%x)", cfg, how, len(content), vt.Murmur(string(content)))
			root, err = cfg.Import(s, spl)
		}
		c.NoErr(err, "import")
		c.LabelIf(cfg.Trickle, "trickle")
		c.LabelIf(cfg.Raw, "raw leaves")
		c.LabelIf(len(content) == 0, "empty")
		if len(root.Links()) > 1 {
			c.NonTrivial()
		}
		depth := 0
		for n := root; len(n.Links()) > 0; depth++ {
			n = get(s, n.Links()[len(n.Links())-1].Cid)
		}
		c.Label(fmt.Sprintf("depth %d", depth))
		// Read with the library, from the stored root only.
		got, size, err := readAll(s, root.Cid())
		c.NoErr(err, "reading back")
		mustEqual(rt, got, content, "content read back")
		if size != uint64(len(content)) {
			c.Fatalf("the root records size %d, content has %d", size, len(content))
		}
		// And independently.
		got, err = s.Flatten(root.Cid())
		c.NoErr(err, "reading back independently")
		mustEqual(rt, got, content, "content in storage")
		c.NoErr(s.Verify(root.Cid()), "stored blocks")
	})
}

func importExact(rt *rapid.T, c *vt.C, trickleLayout bool) {
	var cfg vt.Cfg
	var chunks [][]byte
	var root ipld.Node
	var err error
	s := vt.NewStore()
	if rapid.IntRange(0, 11).Draw(rt, "default") == 0 {
		// The convenience functions have a fixed, large width.
		cfg = vt.Cfg{Width: helpers.DefaultLinksPerBlock, Hash: vt.Hashes[0], Trickle: trickleLayout}
		n := rapid.OneOf(rapid.IntRange(0, 400), rapid.SampledFrom([]int{173, 174, 175, 348, 349, 870, 871, 1044, 1045})).Draw(rt, "n")
		chunks = vt.GenChunks(rt, n, n, 3, "chunks")
		if trickleLayout {
			root, err = importer.BuildTrickleDagFromReader(s, vt.NewChunks(chunks))
		} else {
			root, err = importer.BuildDagFromReader(s, vt.NewChunks(chunks))
		}
		c.Label("convenience import")
	} else {
		cfg, chunks = genDeepImport(rt, trickleLayout, !trickleLayout)
		chunks = emptyChunks(rt, c, chunks)
		root, err = cfg.Import(s, vt.NewChunks(chunks))
	}
	c.Logf("%v, %s", cfg, chunksString(chunks))
	c.NoErr(err, "import")
	want := cfg.DAG(chunks)
	depth := 0
	for n := want; len(n.Kids) > 0; n = n.Kids[len(n.Kids)-1] {
		depth++
	}
	maxDepth := 0
	var rec func(n *vt.Ref, d int)
	rec = func(n *vt.Ref, d int) {
		if d > maxDepth {
			maxDepth = d
		}
		for _, k := range n.Kids {
			rec(k, d+1)
		}
	}
	rec(want, 0)
	c.Label(fmt.Sprintf("depth %d", maxDepth))
	if maxDepth >= 2 {
		c.NonTrivial()
	}
	if !root.Cid().Equals(want.Cid) {
		c.Fatalf("root is %s, want %s: %s", root.Cid(), want.Cid, diffDAG(s, root.Cid(), want, "root"))
	}
	want.Walk(func(r *vt.Ref) {
		if !bytes.Equal(s.Raw(r.Cid), r.Block) {
			c.Fatalf("block %s of the DAG is stored as %x, want %x", r.Cid, s.Raw(r.Cid), r.Block)
		}
	})
}

// diffDAG describes the first difference between a stored DAG and the
// reference.
func diffDAG(s *vt.Store, got cid.Cid, want *vt.Ref, at string) string {
	if got.Equals(want.Cid) {
		return ""
	}
	raw := s.Raw(got)
	if raw == nil {
		return at + " is not stored"
	}
	if got.Prefix().Codec == cid.Raw {
		return fmt.Sprintf("%s: raw leaf %s of %d bytes, want %s with %d bytes", at, got, len(raw), want.Cid, want.Size)
	}
	links, data, err := vt.DecodeDagPB(raw)
	if err != nil {
		return fmt.Sprintf("%s: %v", at, err)
	}
	if len(links) != len(want.Kids) {
		return fmt.Sprintf("%s has %d children, want %d", at, len(links), len(want.Kids))
	}
	for i, l := range links {
		if d := diffDAG(s, l.Cid, want.Kids[i], fmt.Sprintf("%s/%d", at, i)); d != "" {
			return d
		}
	}
	_, wdata, _ := vt.DecodeDagPB(want.Block)
	return fmt.Sprintf("%s differs: CID %s, data %x, block %x; want CID %s, data %x, block %x", at, got, data, raw, want.Cid, wdata, want.Block)
}

func TestI02(t *testing.T) {
	vt.Check(t, "balanced imports with random chunks (often at the borders where the tree grows), width, leaf format and CID configuration, and convenience imports, compared block by block with an independent construction of the tree; non-trivial: depth of at least 2", func(rt *rapid.T, c *vt.C) {
		importExact(rt, c, false)
	})
}

func TestI03(t *testing.T) {
	vt.Check(t, "trickle imports with random chunks (often at the borders where the tree grows), width, leaf format and CID configuration, and convenience imports, compared block by block with an independent construction of the tree; non-trivial: depth of at least 2", func(rt *rapid.T, c *vt.C) {
		importExact(rt, c, true)
	})
}

// genFileDAG generates any well-formed file DAG, by reference builders only.
func genFileDAG(rt *rapid.T, c *vt.C, maxChunk int) (*vt.Ref, vt.Cfg, []byte) {
	cfg := vt.GenCfg(rt, 12)
	kind := rapid.SampledFrom([]string{"layout", "layout", "layout", "leaf", "empty", "irregular", "irregular"}).Draw(rt, "dag")
	if kind == "layout" {
		switch rapid.IntRange(0, 60).Draw(rt, "extent") {
		case 57, 58, 59:
			kind = "wide"
		case 60:
			kind = "large leaves"
		}
	}
	c.Label(kind)
	switch kind {
	case "layout":
		n := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 40), rapid.IntRange(0, 120)).Draw(rt, "chunks")
		ch := vt.GenChunks(rt, n, n, maxChunk, "chunk")
		r := cfg.DAG(ch)
		c.Logf("%v, %s", cfg, chunksString(ch))
		return r, cfg, vt.Join(ch)
	case "wide": // nodes with hundreds of children
		cfg.Width = rapid.SampledFrom([]int{30, 63, 128, 174, 256, 300}).Draw(rt, "wideWidth")
		n := rapid.IntRange(cfg.Width-2, 2*cfg.Width+40).Draw(rt, "wideChunks")
		ch := vt.GenChunks(rt, n, n, 5, "chunk")
		c.Logf("%v, %s", cfg, chunksString(ch))
		return cfg.DAG(ch), cfg, vt.Join(ch)
	case "large leaves": // around the sizes of buffers
		ch := genLargeChunks(rt, 18, "chunk")
		c.Logf("%v, %s", cfg, chunksString(ch))
		return cfg.DAG(ch), cfg, vt.Join(ch)
	case "leaf", "empty":
		n := 0
		if kind == "leaf" {
			n = rapid.IntRange(1, 40).Draw(rt, "leafSize")
		}
		b := vt.Bytes(rt, n, "leaf")
		typ := rapid.SampledFrom([]uint64{vt.PBFile, vt.PBRaw}).Draw(rt, "leafType")
		c.Logf("%v, single leaf of type %d with %d bytes (%x)", cfg, typ, n, vt.Murmur(string(b)))
		return cfg.Leaf(b, typ), cfg, b
	}
	// Any tree shape, leaf sizes and leaf formats.
	id := int64(0)
	budget := 60
	var content []byte
	shape := ""
	var rec func(depth int) *vt.Ref
	rec = func(depth int) *vt.Ref {
		if depth == 0 || rapid.IntRange(0, 2).Draw(rt, "isLeaf") == 0 && depth < 5 {
			n := rapid.IntRange(0, maxChunk).Draw(rt, "leafSize")
			id++
			b := vt.Fill(n, 0, id)
			content = append(content, b...)
			lc := cfg
			lc.Raw = rapid.Bool().Draw(rt, "rawLeaf")
			typ := rapid.SampledFrom([]uint64{vt.PBFile, vt.PBRaw}).Draw(rt, "leafType")
			shape += fmt.Sprintf("%d/%v/%d ", n, lc.Raw, typ)
			return lc.Leaf(b, typ)
		}
		var kids []*vt.Ref
		shape += "("
		for k := rapid.IntRange(1, 5).Draw(rt, "kids"); k > 0 && budget > 0; k-- {
			budget--
			kids = append(kids, rec(depth-1))
		}
		shape += ")"
		if len(kids) == 0 {
			return cfg.Leaf(nil, vt.PBFile)
		}
		return cfg.Branch(kids)
	}
	r := rec(rapid.IntRange(1, 5).Draw(rt, "depth"))
	c.Logf("%v, irregular tree %s", cfg, shape)
	return r, cfg, content
}

func TestI04(t *testing.T) {
	vt.Check(t, "appends of random chunks, in one or several pieces, to trickle imports (with the same parameters: root compared with an independent import of all chunks) and to any other file DAG (balanced, other widths, single leaf, empty, irregular; content and sizes compared); non-trivial: a non-empty base or at least two appends, with data appended", func(rt *rapid.T, c *vt.C) {
		s := vt.NewStore()
		if rapid.Bool().Draw(rt, "sameParameters") {
			cfg, chunks := genImport(rt, true, false)
			c.Label("same parameters")
			cut := rapid.IntRange(0, len(chunks)).Draw(rt, "base")
			c.Logf("%v, %s, base of %d", cfg, chunksString(chunks), cut)
			ref := cfg.TrickleDAG(chunks[:cut])
			put(s, ref)
			var base ipld.Node = get(s, ref.Cid)
			appends := 0
			for at := cut; at < len(chunks) || appends == 0; {
				n := len(chunks) - at
				if n > 1 && appends < 6 {
					n = rapid.OneOf(rapid.IntRange(1, min(n, 4)), rapid.IntRange(1, n)).Draw(rt, "piece")
				}
				if rapid.IntRange(0, 9).Draw(rt, "appendNothing") == 0 {
					n = 0
				}
				c.Logf("append %d", n)
				out, err := cfg.Append(s, base.Copy(), vt.NewChunks(chunks[at:at+n]))
				c.NoErr(err, "append")
				c.NoErr(s.Add(bg, out), "storing the root")
				at += n
				appends++
				want := cfg.TrickleDAG(chunks[:at])
				if !out.Cid().Equals(want.Cid) {
					c.Fatalf("after appending chunks up to %d: root %s, want %s: %s", at, out.Cid(), want.Cid, diffDAG(s, out.Cid(), want, "root"))
				}
				base = out
				if rapid.Bool().Draw(rt, "reload") {
					base = get(s, out.Cid())
				}
				if appends > 12 {
					break
				}
			}
			c.Label(fmt.Sprintf("%d appends", appends))
			if len(chunks) > cut && (cut > 0 || appends > 1) {
				c.NonTrivial()
			}
			return
		}
		ref, cfg, content := genFileDAG(rt, c, 20)
		put(s, ref)
		var base ipld.Node = get(s, ref.Cid)
		had := len(content)
		total := 0
		for k := rapid.IntRange(1, 4).Draw(rt, "appends"); k > 0; k-- {
			acfg := vt.GenCfg(rt, 12)
			if rapid.Bool().Draw(rt, "sameHash") {
				acfg.Hash = cfg.Hash
			}
			acfg.Trickle = true
			n := rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(0, 60)).Draw(rt, "n")
			add := vt.GenChunks(rt, n, n, 20, "add")
			c.Logf("append %s with %v", chunksString(add), acfg)
			out, err := acfg.Append(s, base.Copy(), vt.NewChunks(add))
			c.NoErr(err, "append")
			c.NoErr(s.Add(bg, out), "storing the root")
			content = append(append([]byte{}, content...), vt.Join(add)...)
			total += n
			got, err := s.Flatten(out.Cid())
			c.NoErr(err, "checking the result")
			mustEqual(rt, got, content, "content after append")
			got, size, err := readAll(s, out.Cid())
			c.NoErr(err, "reading the result")
			mustEqual(rt, got, content, "content read after append")
			if size != uint64(len(content)) {
				c.Fatalf("size %d after append, want %d", size, len(content))
			}
			c.NoErr(s.Verify(out.Cid()), "stored blocks")
			base = get(s, out.Cid())
		}
		if had > 0 && total > 0 {
			c.NonTrivial()
		}
		// The base is still there, unchanged.
		if err := s.Verify(ref.Cid); err != nil {
			c.Fatalf("the base: %v", err)
		}
	})
}

// failReader fails after n bytes, with or without data.
type failReader struct {
	b        []byte
	err      error
	withData bool
	once     bool
	max      int
}

func (r *failReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		err := r.err
		if r.once {
			r.err = io.EOF
		}
		return 0, err
	}
	if len(p) > r.max {
		p = p[:r.max]
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	if len(r.b) == 0 && r.withData {
		return n, r.err
	}
	return n, nil
}

func TestI05(t *testing.T) {
	vt.Check(t, "imports and appends with a data source that fails after some bytes or chunks, a store that fails at some block, for appends a fetch of an existing block that fails, or a chunk beyond the size limit; on success the DAG is checked for completeness; non-trivial: the fault is reached", func(rt *rapid.T, c *vt.C) {
		kind := rapid.SampledFrom([]string{"reader", "splitter", "store", "limit"}).Draw(rt, "fault")
		cfg, chunks := genImport(rt, false, false)
		chunks = emptyChunks(rt, c, chunks)
		appending := cfg.Trickle && rapid.Bool().Draw(rt, "append")
		c.LabelIf(appending, "append")
		if appending && rapid.IntRange(0, 3).Draw(rt, "fetchFault") == 0 {
			kind = "fetch"
		}
		c.Label(kind)
		s := vt.NewStore()
		var base ipld.Node
		content := vt.Join(chunks)
		var before []byte
		if appending {
			bchunks := genChunksFor(rt, cfg, "base")
			ref := cfg.TrickleDAG(bchunks)
			put(s, ref)
			base = get(s, ref.Cid)
			before = vt.Join(bchunks)
			c.Logf("append to %s", chunksString(bchunks))
		}
		c.Logf("%v, %s, fault %s", cfg, chunksString(chunks), kind)
		boom := errors.New("boom")
		var spl chunker.Splitter = vt.NewChunks(chunks)
		must := false // the operation has to fail
		var hit *bool
		switch kind {
		case "reader":
			at := rapid.IntRange(0, len(content)).Draw(rt, "failAfter")
			rd := &failReader{b: content[:at:at], err: boom, withData: rapid.Bool().Draw(rt, "errorWithData"), max: rapid.IntRange(1, 64).Draw(rt, "readSize")}
			rd.once = !rd.withData && rapid.Bool().Draw(rt, "once")
			size := rapid.IntRange(1, 40).Draw(rt, "chunk")
			if len(content)/size > 500 {
				size = len(content)/500 + 1
			}
			c.Logf("reader fails after %d of %d, chunk %d, withData %v, once %v", at, len(content), size, rd.withData, rd.once)
			spl = chunker.NewSizeSplitter(rd, int64(size))
			must = true
			if rd.withData && at > 0 && at%size == 0 {
				// io.ReadFull drops an error that comes with the last byte
				// asked for; the reader repeats it at the next read.
				c.Label("error at the end of a chunk")
			}
		case "splitter":
			at := rapid.IntRange(0, len(chunks)).Draw(rt, "failAt")
			e := rapid.SampledFrom([]error{boom, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe, context.Canceled}).Draw(rt, "error")
			c.Logf("splitter fails at chunk %d with %v", at, e)
			spl = &vt.Chunks{List: append([][]byte(nil), chunks[:at]...), Err: e, Once: rapid.Bool().Draw(rt, "once")}
			must = true
		case "store":
			// Find out how many blocks are stored without the fault.
			dry := s.Clone()
			if appending {
				_, err := cfg.Append(dry, base.Copy(), vt.NewChunks(chunks))
				c.NoErr(err, "append without fault")
			} else {
				_, err := cfg.Import(dry, vt.NewChunks(chunks))
				c.NoErr(err, "import without fault")
			}
			total := dry.AddCount
			if total == 0 {
				break
			}
			at := rapid.IntRange(1, total+1).Draw(rt, "failAt")
			once := rapid.Bool().Draw(rt, "once")
			ferr := genErr(rt)
			c.Logf("store fails at block %d of %d, once %v, %v", at, total, once, ferr)
			n := 0
			hit = new(bool)
			s.OnAdd = func(ipld.Node) error {
				n++
				if n == at || n > at && !once {
					*hit = true
					return ferr
				}
				return nil
			}
		case "fetch":
			at := rapid.IntRange(1, 6).Draw(rt, "failAt")
			once := rapid.Bool().Draw(rt, "once")
			ferr := genErr(rt)
			c.Logf("fetch %d fails, once %v, %v", at, once, ferr)
			n := 0
			hit = new(bool)
			s.SetOnGet(func(cid.Cid) error {
				n++
				if n == at || n > at && !once {
					*hit = true
					return ferr
				}
				return nil
			})
		case "limit":
			old := helpers.BlockSizeLimit
			defer func() { helpers.BlockSizeLimit = old }()
			limit := rapid.IntRange(1, 310).Draw(rt, "limit")
			helpers.BlockSizeLimit = limit
			for _, ch := range chunks {
				if len(ch) > limit {
					must = true
				}
			}
			c.Logf("block size limit %d", limit)
		}
		var root ipld.Node
		var err error
		if appending {
			root, err = cfg.Append(s, base.Copy(), spl)
		} else {
			root, err = cfg.Import(s, spl)
		}
		if hit != nil && *hit {
			must = true
		}
		if must {
			c.NonTrivial()
			if err == nil {
				c.Fatalf("the fault was turned into a successful import of root %s", root.Cid())
			}
			return
		}
		s.Heal()
		if err != nil {
			c.Fatalf("unexpected error: %v", err)
		}
		if appending {
			c.NoErr(s.Add(bg, root), "storing the root")
		}
		got, err := s.Flatten(root.Cid())
		c.NoErr(err, "checking the result")
		mustEqual(rt, got, append(before, content...), "content")
		c.NoErr(s.Verify(root.Cid()), "stored blocks")
	})
}

// fileReader is a source with a path.
type fileReader struct {
	io.Reader
	path string
	stat os.FileInfo
}

func (f *fileReader) AbsPath() string      { return f.path }
func (f *fileReader) Stat() os.FileInfo    { return f.stat }
func (f *fileReader) Close() error         { return nil }
func (f *fileReader) Size() (int64, error) { return f.stat.Size(), nil }

var _ files.FileInfo = (*fileReader)(nil)

type fakeStat struct {
	name string
	size int64
}

func (f *fakeStat) Name() string       { return f.name }
func (f *fakeStat) Size() int64        { return f.size }
func (f *fakeStat) Mode() os.FileMode  { return 0o644 }
func (f *fakeStat) ModTime() time.Time { return time.Unix(1, 0) }
func (f *fakeStat) IsDir() bool        { return false }
func (f *fakeStat) Sys() interface{}   { return nil }

func TestI06(t *testing.T) {
	vt.Check(t, "no-copy imports with raw leaves, random chunks, layout, width and CID configuration; every leaf stored must carry the reference at which its bytes are found in the source; the root is compared with the import without no-copy; non-trivial: at least two leaves, or a source without path", func(rt *rapid.T, c *vt.C) {
		cfg, chunks := genImport(rt, false, false)
		chunks = emptyChunks(rt, c, chunks)
		cfg.Raw = true
		content := vt.Join(chunks)
		c.Logf("%v, %s", cfg, chunksString(chunks))
		c.LabelIf(cfg.Trickle, "trickle")
		s := vt.NewStore()
		p := cfg.Params(s)
		p.NoCopy = true
		if rapid.IntRange(0, 7).Draw(rt, "noPath") == 0 {
			spl := vt.NewChunks(chunks)
			switch rapid.IntRange(0, 2).Draw(rt, "source") {
			case 0:
				spl.R = bytes.NewReader(content)
			case 1:
				spl.R = &fileReader{bytes.NewReader(content), "", &fakeStat{"f", int64(len(content))}}
			}
			c.Logf("source without path")
			c.Label("no path")
			c.NonTrivial()
			if db, err := p.New(spl); err == nil || db != nil {
				c.Fatalf("a no-copy import without a path is accepted")
			}
			return
		}
		// Without no-copy, or without raw leaves, the leaves are stored in full.
		plain := rapid.IntRange(0, 4).Draw(rt, "plain") == 0
		if plain {
			switch rapid.IntRange(0, 2).Draw(rt, "plainKind") {
			case 0:
				p.RawLeaves, cfg.Raw = false, false
			case 1:
				p.NoCopy = false
			default:
				p.RawLeaves, cfg.Raw = false, false
				p.NoCopy = false
			}
			c.Logf("raw leaves %v, no-copy %v", p.RawLeaves, p.NoCopy)
			c.Label("nothing to refer to")
		}
		path := "/" + rapid.StringMatching(`[a-z/]{1,20}`).Draw(rt, "path")
		stat := &fakeStat{"f", int64(len(content))}
		var spl chunker.Splitter
		if rapid.Bool().Draw(rt, "sizeSplitter") {
			size := rapid.IntRange(1, 50).Draw(rt, "chunk")
			if len(content)/size > 500 {
				size = len(content)/500 + 1
			}
			c.Logf("size splitter %d", size)
			spl = chunker.NewSizeSplitter(&fileReader{bytes.NewReader(content), path, stat}, int64(size))
			chunks = nil
			for b := content; len(b) > 0; {
				n := min(size, len(b))
				chunks = append(chunks, b[:n])
				b = b[n:]
			}
		} else {
			ch := vt.NewChunks(chunks)
			ch.R = &fileReader{bytes.NewReader(content), path, stat}
			spl = ch
		}
		var bad string
		s.OnAdd = func(n ipld.Node) error {
			if plain {
				if _, ok := n.(*pi.FilestoreNode); ok {
					bad = fmt.Sprintf("%s of %d bytes is stored as a reference", n.Cid(), len(n.RawData()))
				}
				return nil
			}
			if n.Cid().Prefix().Codec == cid.Raw && len(n.RawData()) > 0 {
				if _, ok := n.(*pi.FilestoreNode); !ok {
					bad = fmt.Sprintf("leaf %s of %d bytes is stored without a reference (%T)", n.Cid(), len(n.RawData()), n)
				}
			}
			return nil
		}
		db, err := p.New(spl)
		c.NoErr(err, "New")
		var root ipld.Node
		root, err = layout(cfg, db)
		c.NoErr(err, "import")
		if bad != "" {
			c.Fatalf("%s", bad)
		}
		if want := cfg.DAG(chunks).Cid; !root.Cid().Equals(want) {
			plain, err := cfg.Import(vt.NewStore(), vt.NewChunks(chunks))
			c.NoErr(err, "plain import")
			if !root.Cid().Equals(plain.Cid()) {
				c.Fatalf("root %s, without no-copy %s", root.Cid(), plain.Cid())
			}
		}
		if len(chunks) > 1 {
			c.NonTrivial()
		}
		at := uint64(0)
		for _, fn := range s.Pos {
			d := fn.RawData()
			if len(d) == 0 {
				continue
			}
			if fn.PosInfo.FullPath != path || fn.PosInfo.Stat != os.FileInfo(stat) {
				c.Fatalf("leaf refers to %q, want %q", fn.PosInfo.FullPath, path)
			}
			if fn.PosInfo.Offset != at {
				c.Fatalf("leaf of %d bytes refers to offset %d, want %d", len(d), fn.PosInfo.Offset, at)
			}
			if at+uint64(len(d)) > uint64(len(content)) || !bytes.Equal(content[at:at+uint64(len(d))], d) {
				c.Fatalf("the leaf at offset %d has other bytes than the source", at)
			}
			at += uint64(len(d))
		}
		if at != uint64(len(content)) && !plain {
			c.Fatalf("the references cover %d of %d bytes", at, len(content))
		}
		got, err := s.Flatten(root.Cid())
		c.NoErr(err, "checking the result")
		mustEqual(rt, got, content, "content")
	})
}

func layout(cfg vt.Cfg, db *helpers.DagBuilderHelper) (ipld.Node, error) {
	if cfg.Trickle {
		return trickle.Layout(db)
	}
	return balancedLayout(db)
}

// tnode is a node of a trickle DAG to be corrupted.
type tnode struct {
	leaf    bool
	data    []byte
	raw     bool
	typ     uint64
	pbdata  []byte // inline data of a branch
	badHash bool
	kids    []*tnode
	depth   int // depth allowed at this position, -1 for the root
}

func (n *tnode) build(s *vt.Store, cfg vt.Cfg, other vt.Hash) *vt.Ref {
	if n.badHash {
		cfg.Hash = other
	}
	kcfg := cfg
	kcfg.Hash = hashOf(cfg, n, other)
	var r *vt.Ref
	if n.leaf {
		lc := cfg
		lc.Raw = n.raw
		r = lc.Leaf(n.data, n.typ)
	} else {
		var kids []*vt.Ref
		for _, k := range n.kids {
			kids = append(kids, k.build(s, kcfg, other))
		}
		r = cfg.Branch(kids)
		if n.typ != vt.PBFile || n.pbdata != nil {
			p := &vt.PB{Type: n.typ, Data: n.pbdata, Filesize: vt.U64(uint64(len(n.pbdata)))}
			var links []vt.Link
			for _, k := range kids {
				*p.Filesize += k.Size
				p.Blocksizes = append(p.Blocksizes, k.Size)
				links = append(links, vt.Link{Name: "", Cid: k.Cid, Tsize: k.Tsize})
			}
			b := vt.EncodeDagPB(links, p.Encode())
			r = &vt.Ref{Cid: cfg.Hash.Cid(cid.DagProtobuf, b), Size: *p.Filesize, Tsize: r.Tsize, Block: b, Kids: kids}
		}
	}
	s.PutRaw(r.Cid, r.Block)
	return r
}

// hashOf is the configuration for the children of n: only n itself is wrong.
func hashOf(cfg vt.Cfg, n *tnode, other vt.Hash) vt.Hash {
	if n.badHash {
		return n.good(cfg)
	}
	return cfg.Hash
}

var goodHash vt.Hash

func (n *tnode) good(vt.Cfg) vt.Hash { return goodHash }

// mkTrickle lays out chunks as the specification says.
// It has repeat subtrees of each depth (trickle imports: 4).
func mkTrickle(cfg vt.Cfg, chunks [][]byte, depth, repeat int) (*tnode, [][]byte) {
	n := &tnode{typ: vt.PBFile, depth: depth}
	for len(n.kids) < cfg.Width && len(chunks) > 0 {
		n.kids = append(n.kids, &tnode{leaf: true, data: chunks[0], raw: cfg.Raw, typ: vt.PBRaw})
		chunks = chunks[1:]
	}
	for d := 1; (depth < 0 || d < depth) && len(chunks) > 0; d++ {
		for i := 0; i < repeat && len(chunks) > 0; i++ {
			var k *tnode
			k, chunks = mkTrickle(cfg, chunks, d, repeat)
			n.kids = append(n.kids, k)
		}
	}
	return n, chunks
}

func (n *tnode) walk(f func(*tnode, *tnode), parent *tnode) {
	f(n, parent)
	for _, k := range n.kids {
		k.walk(f, n)
	}
}

func TestI07(t *testing.T) {
	vt.Check(t, "trickle imports given to the verifier with their own parameters, and DAGs with one defect at a random place (non-leaf in a direct position, subtree too deep, branch with data or of another type, leaf of the wrong format, CID with another prefix); non-trivial: a defect was planted, or depth of at least 2", func(rt *rapid.T, c *vt.C) {
		cfg, chunks := genImport(rt, true, false)
		s := vt.NewStore()
		goodHash = cfg.Hash
		prefix := cfg.Hash.Cid(cid.DagProtobuf, nil).Prefix()
		params := trickle.VerifyParams{Getter: s, Direct: cfg.Width, LayerRepeat: 4, RawLeaves: cfg.Raw}
		withPrefix := rapid.IntRange(0, 3).Draw(rt, "withPrefix") != 0
		if withPrefix {
			if rapid.Bool().Draw(rt, "wildcardLength") {
				prefix.MhLength = -1
			}
			params.Prefix = &prefix
		}
		c.Logf("%v, %s, prefix %v", cfg, chunksString(chunks), params.Prefix)
		repeat := 4
		if rapid.IntRange(0, 2).Draw(rt, "otherRepeat") == 0 {
			repeat = rapid.IntRange(1, 7).Draw(rt, "repeat")
			params.LayerRepeat = repeat
			c.Logf("%d subtrees of each depth", repeat)
		}
		valid := rapid.IntRange(0, 2).Draw(rt, "valid") == 0
		if valid && repeat == 4 {
			c.Label("valid")
			root, err := cfg.Import(s, vt.NewChunks(chunks))
			c.NoErr(err, "import")
			if len(chunks) > cfg.Width {
				c.NonTrivial()
			}
			if err := trickle.VerifyTrickleDagStructure(root, params); err != nil {
				c.Fatalf("a trickle import is rejected: %v", err)
			}
			if err := trickle.VerifyTrickleDagStructure(get(s, root.Cid()), params); err != nil {
				c.Fatalf("a stored trickle import is rejected: %v", err)
			}
			return
		}
		tree, _ := mkTrickle(cfg, chunks, -1, repeat)
		if valid {
			c.Label("valid, other repeat")
			if len(chunks) > cfg.Width {
				c.NonTrivial()
			}
			r := tree.build(s, cfg, cfg.Hash)
			if err := trickle.VerifyTrickleDagStructure(get(s, r.Cid), params); err != nil {
				c.Fatalf("a trickle DAG with %d subtrees of each depth is rejected: %v", repeat, err)
			}
			return
		}
		if ref := cfg.TrickleDAG(chunks); repeat == 4 && !tree.build(s, cfg, cfg.Hash).Cid.Equals(ref.Cid) {
			panic("HARNESS: the tree differs from the reference")
		}
		var leaves, branches, subtrees []*tnode
		tree.walk(func(n, parent *tnode) {
			if n.leaf {
				leaves = append(leaves, n)
			} else {
				branches = append(branches, n)
				if parent != nil {
					subtrees = append(subtrees, n)
				}
			}
		}, nil)
		kinds := []string{"branchData", "branchType"}
		if len(leaves) > 0 {
			kinds = append(kinds, "nonLeaf", "leafFormat", "emptyBranchLeaf", "leafLinks")
			if !cfg.Raw {
				kinds = append(kinds, "leafType")
			}
		}
		if len(subtrees) > 0 {
			kinds = append(kinds, "tooDeep", "tooDeep", "leafSubtree")
		}
		if withPrefix {
			kinds = append(kinds, "prefix", "prefix")
		}
		kind := rapid.SampledFrom(kinds).Draw(rt, "defect")
		c.Label(kind)
		pick := func(l []*tnode) *tnode {
			i := rapid.IntRange(0, len(l)-1).Draw(rt, "where")
			c.Logf("defect %s at %d of %d", kind, i, len(l))
			return l[i]
		}
		other := cfg.Hash
		one := func(n int) [][]byte { return vt.GenChunks(rt, n, n, 5, "extra") }
		switch kind {
		case "branchData":
			pick(branches).pbdata = []byte("x")
		case "branchType":
			pick(branches).typ = rapid.SampledFrom([]uint64{vt.PBRaw, vt.PBDirectory, vt.PBSymlink, vt.PBMetadata, vt.PBHAMTShard}).Draw(rt, "type")
		case "nonLeaf": // a direct position holds a subtree
			n := pick(leaves)
			k, _ := mkTrickle(cfg, one(1), 1, repeat)
			*n = *k
		case "leafLinks": // a data leaf that has links
			n := pick(leaves)
			k, _ := mkTrickle(cfg, one(1), 1, repeat)
			k.typ = vt.PBRaw
			if rapid.Bool().Draw(rt, "withData") {
				k.pbdata = n.data
			}
			*n = *k
		case "emptyBranchLeaf": // a leaf that is a file node without data or children
			n := pick(leaves)
			*n = tnode{leaf: true, typ: vt.PBFile}
			if cfg.Raw && rapid.Bool().Draw(rt, "rawType") {
				n.typ = vt.PBRaw
			}
		case "leafFormat":
			n := pick(leaves)
			n.raw = !n.raw
		case "leafType":
			pick(leaves).typ = rapid.SampledFrom([]uint64{vt.PBFile, vt.PBDirectory, vt.PBSymlink, vt.PBMetadata, vt.PBHAMTShard}).Draw(rt, "type")
		case "leafSubtree": // a subtree position holds a data leaf
			n := pick(subtrees)
			*n = tnode{leaf: true, raw: true, data: []byte("leaf")}
			if !cfg.Raw {
				n.raw, n.typ = false, vt.PBRaw
			}
		case "tooDeep":
			n := pick(subtrees)
			// Just one level more than the position allows.
			full := 0
			for _, k := range fullTrickle(cfg.Width, n.depth, repeat) {
				full += k
			}
			if full > 3000 {
				rt.Skip()
			}
			k, _ := mkTrickle(cfg, one(full+1), n.depth+1, repeat)
			n.kids = k.kids
		case "prefix":
			all := append(append([]*tnode(nil), leaves...), branches...)
			n := pick(all)
			n.badHash = true
			var cands []vt.Hash
			codec := uint64(cid.DagProtobuf)
			if n.leaf && n.raw {
				codec = cid.Raw
			}
			want := cfg.Hash.Cid(codec, nil).Prefix()
			for _, h := range vt.Hashes {
				p := h.Cid(codec, nil).Prefix()
				if prefix.MhLength == -1 {
					p.MhLength = want.MhLength
				}
				if p != want {
					cands = append(cands, h)
				}
			}
			if len(cands) == 0 {
				rt.Skip()
			}
			other = rapid.SampledFrom(cands).Draw(rt, "otherHash")
		}
		c.NonTrivial()
		r := tree.build(s, cfg, other)
		if err := trickle.VerifyTrickleDagStructure(get(s, r.Cid), params); err == nil {
			c.Fatalf("defect %s is accepted", kind)
		}
	})
}

// fullTrickle lists the numbers of leaves that fill a tree of the depth.
func fullTrickle(w, depth, repeat int) []int {
	out := []int{w}
	for d := 1; d < depth; d++ {
		n := 0
		for _, k := range fullTrickle(w, d, repeat) {
			n += k
		}
		out = append(out, repeat*n)
		if n > 3000 {
			break
		}
	}
	return out
}

var _ = mdag.NewRawNode
var _ = ft.TFile

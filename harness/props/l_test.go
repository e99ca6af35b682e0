package props

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand"
	"testing"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	"pgregory.net/rapid"

	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/importer/helpers"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"

	"github.com/ipfs/go-unixfs/verif/vt"
)

// Files of enormous size, whose sub-trees are shared.

// putShared stores every block of a DAG with shared nodes.
func putShared(s *vt.Store, r *vt.Ref, seen map[*vt.Ref]bool) {
	if seen[r] {
		return
	}
	seen[r] = true
	s.PutRaw(r.Cid, r.Block)
	for _, k := range r.Kids {
		putShared(s, k, seen)
	}
}

const hugeMax = 1 << 62

// genHuge generates a file with shared sub-trees, and some interesting
// offsets.
func genHuge(rt *rapid.T, c *vt.C) (*vt.Ref, []uint64) {
	cfg := vt.GenCfg(rt, 8)
	rnd := rand.New(rand.NewSource(int64(rapid.Uint64Range(0, 1<<40).Draw(rt, "shape"))))
	mixed := rapid.Bool().Draw(rt, "mixedLeaves")
	maxLeaf := rapid.SampledFrom([]int{3, 20, 300}).Draw(rt, "maxLeaf")
	levels := rapid.OneOf(rapid.IntRange(1, 20), rapid.Just(70), rapid.Just(70), rapid.Just(70)).Draw(rt, "levels")
	width := rapid.SampledFrom([]int{5, 8, 20, 100}).Draw(rt, "branching")
	target := uint64(1) << uint(rapid.SampledFrom([]int{31, 32, 32, 33, 40, 53, 60, 61}).Draw(rt, "log2size"))
	var pool []*vt.Ref
	for i := 0; i < 3; i++ {
		lc := cfg
		if mixed {
			lc.Raw = rnd.Intn(2) == 0
		}
		pool = append(pool, lc.Leaf(vt.Fill(1+rnd.Intn(maxLeaf), 0, rnd.Int63()), uint64(vt.PBFile)))
	}
	root := pool[0]
	for l := 0; l < levels && root.Size < target; l++ {
		var next []*vt.Ref
		for i := 0; i < 1+rnd.Intn(3); i++ {
			var kids []*vt.Ref
			sum, tsum := uint64(0), uint64(0)
			for n := 1 + rnd.Intn(width); n > 0; n-- {
				k := pool[rnd.Intn(len(pool))]
				if sum+k.Size > hugeMax || tsum+k.Tsize > hugeMax {
					break
				}
				sum += k.Size
				tsum += k.Tsize
				kids = append(kids, k)
			}
			if len(kids) > 0 {
				next = append(next, cfg.Branch(kids))
			}
		}
		if len(next) == 0 {
			break
		}
		if rnd.Intn(3) > 0 {
			// sometimes nodes of several levels are mixed
			next = append(next, pool[rnd.Intn(len(pool))])
		}
		pool = next
		root = pool[0]
	}
	at := []uint64{0, root.Size}
	for _, b := range []uint64{1 << 31, 1 << 32, 1 << 33, 1 << 53} {
		if b < root.Size {
			at = append(at, b, b*(1+uint64(rnd.Int63())%(root.Size/b)))
		}
	}
	var borders func(n *vt.Ref, start uint64)
	borders = func(n *vt.Ref, start uint64) {
		for i := 0; len(n.Kids) > 0; i++ {
			j := rnd.Intn(len(n.Kids))
			for _, k := range n.Kids[:j] {
				start += k.Size
			}
			at = append(at, start)
			n = n.Kids[j]
		}
	}
	for i := 0; i < 3; i++ {
		borders(root, 0)
	}
	c.Label(fmt.Sprintf("size above 2^%d", log2(root.Size)/10*10))
	c.LabelIf(root.Size > 1<<32, "size above 2^32")
	c.Logf("%v, levels %d, leaves up to %d, mixed %v, size %d", cfg, levels, maxLeaf, mixed, root.Size)
	return root, at
}

func log2(n uint64) (l int) {
	for n > 1 {
		n >>= 1
		l++
	}
	return l
}

// sharedRange appends the bytes of the node in the range to b.
func sharedRange(r *vt.Ref, from, to uint64, b []byte) []byte {
	if to > r.Size {
		to = r.Size
	}
	if from >= to {
		return b
	}
	if len(r.Kids) == 0 {
		data := r.Block
		if r.Cid.Prefix().Codec != cid.Raw {
			_, enc, err := vt.DecodeDagPB(r.Block)
			if err != nil {
				panic(err)
			}
			pb, err := vt.DecodePB(enc)
			if err != nil {
				panic(err)
			}
			data = pb.Data
		}
		return append(b, data[from:to]...)
	}
	start := uint64(0)
	for _, k := range r.Kids {
		if start >= to {
			break
		}
		if end := start + k.Size; end > from {
			f := uint64(0)
			if from > start {
				f = from - start
			}
			b = sharedRange(k, f, to-start, b)
		}
		start += k.Size
	}
	return b
}

// piece is a part of a file, a range of a DAG or bytes.
type piece struct {
	ref  *vt.Ref
	from uint64
	lit  []byte
	len  uint64
}

// rope is the content of a large file.
type rope []piece

func (r rope) size() (n uint64) {
	for _, p := range r {
		n += p.len
	}
	return n
}

func (r rope) slice(from, to uint64) (out rope) {
	start := uint64(0)
	for _, p := range r {
		end := start + p.len
		f, t := from, to
		if f < start {
			f = start
		}
		if t > end {
			t = end
		}
		if f < t {
			q := piece{ref: p.ref, from: p.from + (f - start), len: t - f}
			if p.ref == nil {
				q.from = 0
				q.lit = p.lit[f-start : t-start]
			}
			out = append(out, q)
		}
		start = end
	}
	return out
}

func (r rope) bytes(from, to uint64) (b []byte) {
	b = []byte{}
	for _, p := range r.slice(from, to) {
		if p.ref == nil {
			b = append(b, p.lit...)
		} else {
			b = sharedRange(p.ref, p.from, p.from+p.len, b)
		}
	}
	return b
}

// write replaces the bytes at the offset, which may be after the end.
func (r rope) write(data []byte, off uint64) rope {
	n := r.size()
	out := r.slice(0, off)
	if off > n {
		out = append(out, lit(make([]byte, off-n)))
	}
	out = append(out, lit(append([]byte{}, data...)))
	return append(out, r.slice(off+uint64(len(data)), math.MaxUint64)...)
}

func lit(b []byte) piece { return piece{lit: b, len: uint64(len(b))} }

func genHugeOffset(rt *rapid.T, size uint64, at []uint64, label string) uint64 {
	o := int64(0)
	switch rapid.IntRange(0, 3).Draw(rt, label+"Kind") {
	case 0:
		o = int64(rapid.Uint64Range(0, size).Draw(rt, label))
	case 1:
		o = int64(size) - int64(rapid.IntRange(0, 30).Draw(rt, label))
	default:
		o = int64(rapid.SampledFrom(at).Draw(rt, label)) + int64(rapid.IntRange(-3, 3).Draw(rt, label+"Off"))
	}
	if o < 0 {
		o = 0
	}
	return uint64(o)
}

func TestR06(t *testing.T) {
	vt.Check(t, "files of up to 2^62 bytes, built from shared sub-trees of generated shape and depth, opened with NewDagReader or NewUnixfsFile and read by random seeks of all three kinds, reads, context reads and write-outs to a writer that fails, at offsets around 2^31, 2^32, leaf borders and the end, against the bytes computed from the tree; non-trivial: a read of at least one byte at an offset above 2^31", func(rt *rapid.T, c *vt.C) {
		ref, at := genHuge(rt, c)
		s := vt.NewStore()
		putShared(s, ref, map[*vt.Ref]bool{})
		s.Rand = rapid.Uint64().Draw(rt, "blockOrder")
		type reader interface {
			io.ReadSeekCloser
			io.WriterTo
		}
		var r reader
		var full func([]byte) (int, error)
		root := get(s, ref.Cid)
		if rapid.IntRange(0, 3).Draw(rt, "asFile") == 0 {
			f, err := unixfile.NewUnixfsFile(bg, s, root)
			c.NoErr(err, "NewUnixfsFile")
			n, err := f.Size()
			if err != nil || uint64(n) != ref.Size {
				c.Fatalf("Size of the file is %d, %v, want %d", n, err, ref.Size)
			}
			ff := f.(files.File)
			wt, ok := ff.(io.WriterTo)
			if !ok {
				c.Fatalf("the file has no WriteTo")
			}
			r = struct {
				io.ReadSeekCloser
				io.WriterTo
			}{ff, wt}
			full = ff.Read
			c.Label("file")
		} else {
			dr, err := uio.NewDagReader(bg, root, s)
			c.NoErr(err, "NewDagReader")
			if dr.Size() != ref.Size {
				c.Fatalf("Size is %d, want %d", dr.Size(), ref.Size)
			}
			r = dr
			full = func(b []byte) (int, error) { return dr.CtxReadFull(bg, b) }
		}
		defer r.Close()
		pos := uint64(0)
		tell := func() {
			p, err := r.Seek(0, io.SeekCurrent)
			c.NoErr(err, "telling the position")
			if uint64(p) != pos {
				c.Fatalf("position is %d, want %d", p, pos)
			}
		}
		for i := rapid.IntRange(2, 12).Draw(rt, "ops"); i > 0; i-- {
			switch op := rapid.SampledFrom([]string{"seek", "seek", "read", "read", "full", "write-out"}).Draw(rt, "op"); op {
			case "seek":
				to := genHugeOffset(rt, ref.Size, at, "to")
				whence := rapid.IntRange(0, 2).Draw(rt, "whence")
				off := int64(to)
				switch whence {
				case io.SeekCurrent:
					off -= int64(pos)
				case io.SeekEnd:
					off -= int64(ref.Size)
				}
				got, err := r.Seek(off, whence)
				c.Logf("Seek(%d, %d) to %d = %d, %v", off, whence, to, got, err)
				if err != nil || uint64(got) != to {
					c.Fatalf("Seek(%d, %d) at %d of %d = %d, %v; want %d", off, whence, pos, ref.Size, got, err, to)
				}
				pos = to
				tell()
			case "read", "full":
				n := rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(1, 700)).Draw(rt, "length")
				buf := make([]byte, n)
				f := r.Read
				if op == "full" {
					f = full
				}
				got, err := f(buf)
				want := sharedRange(ref, pos, pos+uint64(n), nil)
				c.Logf("%s of %d at %d = %d, %v", op, n, pos, got, err)
				if got != len(want) || !bytes.Equal(buf[:got], want) {
					c.Fatalf("%s of %d bytes at %d of %d returned %d bytes %s, %v; want %d %s", op, n, pos, ref.Size, got, short(buf[:got]), err, len(want), short(want))
				}
				if got == n && err != nil || got < n && err != io.EOF {
					c.Fatalf("%s of %d bytes at %d of %d returned %d, %v", op, n, pos, ref.Size, got, err)
				}
				if got > 0 && pos > 1<<31 {
					c.NonTrivial()
				}
				pos += uint64(got)
				tell()
			case "write-out":
				left := uint64(0)
				if pos < ref.Size {
					left = ref.Size - pos
				}
				w := &failWriter{limit: rapid.IntRange(0, 600).Draw(rt, "limit")}
				limit := w.limit
				n, err := r.WriteTo(w)
				c.Logf("WriteTo a writer that fails after %d = %d, %v", limit, n, err)
				want := sharedRange(ref, pos, pos+uint64(limit), nil)
				mustEqual(c, w.buf.Bytes(), want, "WriteTo to a failing writer")
				if n != int64(len(want)) {
					c.Fatalf("WriteTo returned %d, the writer took %d", n, len(want))
				}
				if left > uint64(limit) && err == nil {
					c.Fatalf("WriteTo at %d of %d succeeded with a writer that failed after %d bytes", pos, ref.Size, limit)
				}
				if left <= uint64(limit) && err != nil {
					c.Fatalf("WriteTo at %d of %d failed: %v", pos, ref.Size, err)
				}
				pos += uint64(n)
				tell()
			}
		}
	})
}

// sharedSizes checks that the sizes in a DAG with shared nodes are right and
// returns the file size and cumulative size of a node.
func sharedSizes(c *vt.C, s *vt.Store, k cid.Cid, memo map[string][2]uint64) (uint64, uint64) {
	c.Helper()
	if m, ok := memo[k.KeyString()]; ok {
		return m[0], m[1]
	}
	raw := s.Raw(k)
	if !s.Has(k) {
		c.Fatalf("block %s is not stored", k)
	}
	size, ts := uint64(0), uint64(len(raw))
	if k.Prefix().Codec == cid.Raw {
		size = ts
	} else {
		links, data, err := vt.DecodeDagPB(raw)
		c.NoErr(err, "block %s", k)
		pb, err := vt.DecodePB(data)
		c.NoErr(err, "block %s", k)
		if len(links) != len(pb.Blocksizes) {
			c.Fatalf("%s: %d links and %d block sizes", k, len(links), len(pb.Blocksizes))
		}
		size = uint64(len(pb.Data))
		if size > 0 && len(links) > 0 {
			c.Fatalf("%s: branch has data", k)
		}
		for i, l := range links {
			n, t := sharedSizes(c, s, l.Cid, memo)
			if n != pb.Blocksizes[i] || t != l.Tsize {
				c.Fatalf("%s: child %d has size %d and cumulative size %d, recorded are %d and %d", k, i, n, t, pb.Blocksizes[i], l.Tsize)
			}
			size += n
			ts += t
		}
		if pb.Size() != size {
			c.Fatalf("%s has %d bytes, its size is %d", k, size, pb.Size())
		}
	}
	memo[k.KeyString()] = [2]uint64{size, ts}
	return size, ts
}

// storedRange reads a range of a file from the blocks, whose sizes were
// checked before.
func storedRange(s *vt.Store, k cid.Cid, from, to uint64, memo map[string][2]uint64, b []byte) []byte {
	if from >= to {
		return b
	}
	raw := s.Raw(k)
	if k.Prefix().Codec == cid.Raw {
		return append(b, raw[from:min64u(to, uint64(len(raw)))]...)
	}
	links, data, _ := vt.DecodeDagPB(raw)
	pb, _ := vt.DecodePB(data)
	if len(links) == 0 {
		return append(b, pb.Data[from:min64u(to, uint64(len(pb.Data)))]...)
	}
	start := uint64(0)
	for _, l := range links {
		n := memo[l.Cid.KeyString()][0]
		if start < to && start+n > from {
			f := uint64(0)
			if from > start {
				f = from - start
			}
			b = storedRange(s, l.Cid, f, min64u(to-start, n), memo, b)
		}
		start += n
	}
	return b
}

func min64u(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}

func TestM08(t *testing.T) {
	vt.Check(t, "files of up to 2^62 bytes, built from shared sub-trees, edited by random histories of positioned writes, writes after seeks, appends, small extensions, truncations to any size, reads and flushes at offsets around 2^31, 2^32, leaf borders and the end, against a list of ranges of the original tree and written bytes; at flushes all recorded sizes and the bytes around the edits and other positions are compared, read from the blocks and with a reader; non-trivial: an edit at an offset above 2^31", func(rt *rapid.T, c *vt.C) {
		defer restoreWidth()()
		helpers.DefaultLinksPerBlock = rapid.SampledFrom([]int{2, 3, 5, 30, 174}).Draw(rt, "maxLinks")
		ref, at := genHuge(rt, c)
		s := vt.NewStore()
		putShared(s, ref, map[*vt.Ref]bool{})
		memo := map[string][2]uint64{}
		m := rope{{ref: ref, len: ref.Size}}
		chunk := rapid.IntRange(1, 40).Draw(rt, "chunkSize")
		dm, err := mod.NewDagModifier(bg, get(s, ref.Cid), s, chunker.SizeSplitterGen(int64(chunk)))
		c.NoErr(err, "NewDagModifier")
		if rapid.IntRange(0, 3).Draw(rt, "override") == 0 {
			dm.RawLeaves = !dm.RawLeaves
		}
		pos, known := uint64(0), true
		interesting := append([]uint64{}, at...)
		place := func(label string, beyond bool) uint64 {
			size := m.size()
			if beyond && rapid.IntRange(0, 5).Draw(rt, label+"Beyond") == 0 {
				return size + uint64(rapid.IntRange(0, 9000).Draw(rt, label+"Gap"))
			}
			o := genHugeOffset(rt, size, interesting, label)
			if o > size {
				o = size
			}
			return o
		}
		edit := func(o uint64) {
			interesting = append(interesting, o)
			if o > 1<<31 {
				c.NonTrivial()
			}
		}
		check := func() {
			nd, err := dm.GetNode()
			c.NoErr(err, "GetNode")
			size, _ := sharedSizes(c, s, nd.Cid(), memo)
			if size != m.size() {
				c.Fatalf("the file has %d bytes, want %d", size, m.size())
			}
			r, err := uio.NewDagReader(bg, nd, s)
			c.NoErr(err, "NewDagReader")
			defer r.Close()
			if r.Size() != size {
				c.Fatalf("the reader's Size is %d, want %d", r.Size(), size)
			}
			look := interesting
			if len(look) > 12 {
				look = look[len(look)-8:]
				for i := 0; i < 4; i++ {
					look = append(look[:len(look):len(look)], rapid.SampledFrom(interesting).Draw(rt, "look"))
				}
			}
			for _, o := range look {
				from := uint64(0)
				if o > 40 {
					from = o - 40
				}
				want := m.bytes(from, from+120)
				if got := storedRange(s, nd.Cid(), from, from+120, memo, []byte{}); !bytes.Equal(got, want) {
					c.Fatalf("the blocks hold %s at %d of %d, want %s", short(got), from, size, short(want))
				}
				_, err := r.Seek(int64(from), io.SeekStart)
				c.NoErr(err, "Seek")
				buf := make([]byte, 120)
				n, err := r.Read(buf)
				if err != nil && err != io.EOF {
					c.Fatalf("reading at %d: %v", from, err)
				}
				if !bytes.Equal(buf[:n], want) {
					c.Fatalf("read %s at %d of %d, want %s", short(buf[:n]), from, size, short(want))
				}
			}
		}
		for i := rapid.IntRange(1, 8).Draw(rt, "ops"); i > 0; i-- {
			ops := []string{"writeAt", "writeAt", "seek", "seek", "truncate", "check", "size", "sync"}
			if known {
				ops = append(ops, "write", "write", "read", "read")
			}
			switch op := rapid.SampledFrom(ops).Draw(rt, "op"); op {
			case "writeAt":
				b := vt.Bytes(rt, rapid.IntRange(1, 100).Draw(rt, "len"), "data")
				off := place("offset", true)
				c.Logf("WriteAt(%d bytes, %d) of %d", len(b), off, m.size())
				n, err := dm.WriteAt(b, int64(off))
				if err != nil || n != len(b) {
					c.Fatalf("WriteAt of %d bytes returned %d, %v", len(b), n, err)
				}
				m = m.write(b, off)
				edit(off)
				known = false
			case "write":
				b := vt.Bytes(rt, rapid.IntRange(1, 100).Draw(rt, "len"), "data")
				c.Logf("Write(%d bytes) at %d of %d", len(b), pos, m.size())
				n, err := dm.Write(b)
				if err != nil || n != len(b) {
					c.Fatalf("Write of %d bytes returned %d, %v", len(b), n, err)
				}
				m = m.write(b, pos)
				edit(pos)
				pos += uint64(n)
			case "read":
				buf := make([]byte, rapid.IntRange(1, 200).Draw(rt, "len"))
				n, err := dm.Read(buf)
				c.Logf("Read(%d) at %d of %d = %d, %v", len(buf), pos, m.size(), n, err)
				if err != nil && err != io.EOF {
					c.Fatalf("Read: %v", err)
				}
				if want := m.bytes(pos, pos+uint64(len(buf))); !bytes.Equal(buf[:n], want) {
					c.Fatalf("Read of %d bytes at %d of %d returned %s, want %s", len(buf), pos, m.size(), short(buf[:n]), short(want))
				}
				pos += uint64(n)
			case "seek":
				to := place("to", true)
				whence := rapid.IntRange(0, 2).Draw(rt, "whence")
				if !known && whence == io.SeekCurrent {
					whence = io.SeekEnd
				}
				off := int64(to)
				switch whence {
				case io.SeekCurrent:
					off -= int64(pos)
				case io.SeekEnd:
					off -= int64(m.size())
				}
				n, err := dm.Seek(off, whence)
				c.Logf("Seek(%d, %d) of %d = %d, %v", off, whence, m.size(), n, err)
				if err != nil || uint64(n) != to {
					c.Fatalf("Seek(%d, %d) of %d = %d, %v; want %d", off, whence, m.size(), n, err, to)
				}
				if size := m.size(); to > size {
					m = append(m.slice(0, size), lit(make([]byte, to-size)))
					edit(size)
				}
				pos, known = to, true
			case "truncate":
				n := place("size", true)
				c.Logf("Truncate(%d) of %d", n, m.size())
				c.NoErr(dm.Truncate(int64(n)), "Truncate(%d) of %d", n, m.size())
				if size := m.size(); n > size {
					m = append(m.slice(0, size), lit(make([]byte, n-size)))
				} else {
					m = m.slice(0, n)
				}
				if pos > n {
					known = false
				}
				edit(n)
			case "sync":
				c.Logf("Sync")
				c.NoErr(dm.Sync(), "Sync")
			case "check":
				c.Logf("check")
				check()
			}
			if n, err := dm.Size(); err != nil || uint64(n) != m.size() {
				c.Fatalf("Size is %d, %v, want %d", n, err, m.size())
			}
		}
		check()
	})
}

package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"testing"

	blocks "github.com/ipfs/go-block-format"
	cid "github.com/ipfs/go-cid"
	pi "github.com/ipfs/go-ipfs-posinfo"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	"pgregory.net/rapid"

	ft "github.com/ipfs/go-unixfs"
	uio "github.com/ipfs/go-unixfs/io"

	"github.com/ipfs/go-unixfs/verif/vt"
)

// genOffset generates a position, often near a border.
func genOffset(rt *rapid.T, size int, borders []int, label string) int64 {
	switch rapid.IntRange(0, 5).Draw(rt, label+"Kind") {
	case 0:
		return int64(rapid.IntRange(0, size+5).Draw(rt, label))
	case 1, 2:
		if len(borders) > 0 {
			return int64(rapid.SampledFrom(borders).Draw(rt, label) + rapid.IntRange(-1, 1).Draw(rt, label+"Off"))
		}
		return 0
	case 3:
		return int64(size + rapid.IntRange(-2, 2).Draw(rt, label))
	case 4:
		return int64(rapid.IntRange(-5, 2*size+20).Draw(rt, label))
	default:
		return rapid.SampledFrom([]int64{0, -1, 1, math.MaxInt64, math.MaxInt64 / 2, math.MinInt64, 1 << 40, -(1 << 40)}).Draw(rt, label)
	}
}

// leafBorders lists the offsets at which leaves start.
func leafBorders(r *vt.Ref) []int {
	var out []int
	at := 0
	r.Walk(func(n *vt.Ref) {
		if len(n.Kids) == 0 {
			out = append(out, at)
			at += int(n.Size)
		}
	})
	return out
}

// failWriter accepts limit bytes and fails. A short writer accepts less than
// it is given without an error.
type failWriter struct {
	buf   bytes.Buffer
	limit int
	short bool
}

var errWriter = errors.New("writer failed")

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) <= w.limit {
		w.limit -= len(p)
		return w.buf.Write(p)
	}
	n, _ := w.buf.Write(p[:w.limit])
	w.limit = 0
	if w.short {
		return n, nil
	}
	return n, errWriter
}

// readerModel is a reader over plain bytes.
type readerModel struct {
	b   []byte
	pos int64
}

func (m *readerModel) rest() []byte {
	if m.pos >= int64(len(m.b)) {
		return nil
	}
	return m.b[m.pos:]
}

// target is where a seek goes; ok is false if it has to fail.
func (m *readerModel) target(off int64, whence int) (int64, bool) {
	base := int64(0)
	switch whence {
	case io.SeekCurrent:
		base = m.pos
	case io.SeekEnd:
		base = int64(len(m.b))
	}
	if off > 0 && base > math.MaxInt64-off {
		return 0, false
	}
	return base + off, base+off >= 0
}

func TestR01(t *testing.T) {
	vt.Check(t, "file DAGs of any shape (both layouts, single leaves, irregular trees with mixed and empty leaves, optionally behind a metadata node), read by random sequences of reads, context reads, write-outs to good, failing and short writers, and seeks of all kinds, against a reader over the plain bytes; non-trivial: at least two leaves, a seek and a read after it", func(rt *rapid.T, c *vt.C) {
		ref, cfg, content := genFileDAG(rt, c, 30)
		s := vt.NewStore()
		put(s, ref)
		s.Rand = rapid.Uint64().Draw(rt, "blockOrder")
		root := ref.Cid
		if cfg.Hash.Name != "" && rapid.IntRange(0, 9).Draw(rt, "metadata") == 0 && ref.Cid.Prefix().Codec != cid.Raw {
			n := proto([]vt.Link{{Name: "", Cid: ref.Cid, Tsize: ref.Tsize}}, (&vt.PB{Type: vt.PBMetadata, Data: []byte("\x0a\x01x")}).Encode(), cfg.Hash)
			s.PutRaw(n.Cid(), n.RawData())
			root = n.Cid()
			c.Label("metadata")
			c.Logf("behind metadata")
		}
		r, err := uio.NewDagReader(bg, get(s, root), s)
		c.NoErr(err, "NewDagReader")
		if r.Size() != uint64(len(content)) {
			c.Fatalf("Size is %d, want %d", r.Size(), len(content))
		}
		m := &readerModel{b: content}
		borders := leafBorders(ref)
		seeked := false
		tell := func() {
			p, err := r.Seek(0, io.SeekCurrent)
			c.NoErr(err, "telling the position")
			if p != m.pos {
				c.Fatalf("position is %d, want %d", p, m.pos)
			}
		}
		read := func(what string, f func([]byte) (int, error), n int) {
			buf := bytes.Repeat([]byte{0xA5}, n)
			got, err := f(buf)
			want := m.rest()
			if len(want) > n {
				want = want[:n]
			}
			c.Logf("%s(%d) at %d = %d, %v", what, n, m.pos, got, err)
			if got != len(want) {
				c.Fatalf("%s of %d bytes at %d of %d returned %d, %v; want %d", what, n, m.pos, len(content), got, err, len(want))
			}
			mustEqual(c, buf[:got], want, what)
			for _, b := range buf[got:] {
				if b != 0xA5 {
					c.Fatalf("%s changed the buffer beyond the %d bytes returned", what, got)
				}
			}
			if n > 0 {
				if got == n && err != nil || got < n && err != io.EOF {
					c.Fatalf("%s of %d bytes at %d of %d returned %d, %v", what, n, m.pos, len(content), got, err)
				}
			} else if err != nil && err != io.EOF {
				c.Fatalf("%s of no bytes failed: %v", what, err)
			}
			m.pos += int64(got)
			if seeked && got > 0 && len(borders) > 1 {
				c.NonTrivial()
			}
		}
		length := func(rt *rapid.T) int {
			switch rapid.IntRange(0, 3).Draw(rt, "lengthKind") {
			case 0:
				return rapid.IntRange(0, 3).Draw(rt, "length")
			case 1: // up to a leaf border
				b := rapid.SampledFrom(append([]int{0}, borders...)).Draw(rt, "border")
				if d := b - int(min64(m.pos, 1<<30)); d > 0 {
					return d
				}
				return 1
			case 2:
				return len(content) + rapid.IntRange(0, 3).Draw(rt, "more")
			default:
				return rapid.IntRange(0, len(content)+1).Draw(rt, "length")
			}
		}
		rt.Repeat(map[string]func(*rapid.T){
			"read": func(rt *rapid.T) { read("Read", r.Read, length(rt)) },
			"ctxread": func(rt *rapid.T) {
				ctx, cancel := context.WithCancel(bg)
				read("CtxReadFull", func(b []byte) (int, error) { return r.CtxReadFull(ctx, b) }, length(rt))
				if rapid.Bool().Draw(rt, "cancelAfterwards") {
					cancel()
				}
				_ = cancel
			},
			"seek": func(rt *rapid.T) {
				whence := rapid.IntRange(0, 2).Draw(rt, "whence")
				off := genOffset(rt, len(content), borders, "offset")
				if whence != io.SeekStart && off > -(1<<30) && off < 1<<30 && rapid.Bool().Draw(rt, "aim") {
					// Aim at the position rather than use it as distance.
					if whence == io.SeekCurrent {
						off -= m.pos
					} else {
						off -= int64(len(content))
					}
				}
				want, ok := m.target(off, whence)
				got, err := r.Seek(off, whence)
				c.Logf("Seek(%d, %d) at %d = %d, %v", off, whence, m.pos, got, err)
				if ok {
					if err != nil || got != want {
						c.Fatalf("Seek(%d, %d) at %d of %d = %d, %v; want %d", off, whence, m.pos, len(content), got, err, want)
					}
					m.pos = want
					seeked = true
					c.LabelIf(want > int64(len(content)), "beyond the end")
				} else {
					if err == nil {
						c.Fatalf("Seek(%d, %d) at %d succeeded with %d", off, whence, m.pos, got)
					}
					c.Label("negative seek")
				}
				tell()
			},
			"badwhence": func(rt *rapid.T) {
				if rapid.IntRange(0, 3).Draw(rt, "rarely") != 0 {
					return
				}
				w := rapid.SampledFrom([]int{-1, 3, 17}).Draw(rt, "whence")
				if _, err := r.Seek(0, w); err == nil {
					c.Fatalf("Seek with whence %d succeeded", w)
				}
				tell()
			},
			"writeto": func(rt *rapid.T) {
				if rapid.IntRange(0, 2).Draw(rt, "rarely") != 0 {
					return
				}
				rest := m.rest()
				if rapid.Bool().Draw(rt, "good") {
					var w bytes.Buffer
					n, err := r.WriteTo(&w)
					c.Logf("WriteTo at %d = %d, %v", m.pos, n, err)
					c.NoErr(err, "WriteTo")
					if n != int64(len(rest)) {
						c.Fatalf("WriteTo at %d of %d returned %d, want %d", m.pos, len(content), n, len(rest))
					}
					mustEqual(c, w.Bytes(), rest, "WriteTo")
					m.pos += n
					c.Label("write-out")
				} else {
					w := &failWriter{limit: rapid.IntRange(0, len(rest)).Draw(rt, "limit"), short: rapid.Bool().Draw(rt, "short")}
					limit := w.limit
					n, err := r.WriteTo(w)
					c.Logf("WriteTo at %d, failing after %d, short %v = %d, %v", m.pos, limit, w.short, n, err)
					mustEqual(c, w.buf.Bytes(), rest[:w.buf.Len()], "WriteTo to a failing writer")
					if n != int64(w.buf.Len()) {
						c.Fatalf("WriteTo returned %d, the writer took %d", n, w.buf.Len())
					}
					if n < int64(len(rest)) {
						c.Label("write-out fails")
						want := errWriter
						if w.short {
							want = io.ErrShortWrite
						}
						if !errors.Is(err, want) {
							c.Fatalf("WriteTo to a failing writer returned %v, want %v", err, want)
						}
					} else if err != nil {
						c.Fatalf("WriteTo failed: %v", err)
					}
					m.pos += n
				}
				tell()
			},
			"": func(rt *rapid.T) {},
		})
		tell()
		read("final Read", r.Read, len(content)+1)
		c.NoErr(r.Close(), "Close")
	})
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func TestR02(t *testing.T) {
	vt.Check(t, "file DAGs read while blocks are missing or fail permanently or for a while, or contexts are cancelled at some fetch; each byte returned is compared with the file at the position reported, early end of file is a violation, and after the fault the rest must be delivered by retrying; non-trivial: an operation failed because of the fault", func(rt *rapid.T, c *vt.C) {
		ref, _, content := genFileDAG(rt, c, 30)
		s := vt.NewStore()
		put(s, ref)
		root := get(s, ref.Cid)
		s.Rand = rapid.Uint64().Draw(rt, "blockOrder")
		rctx, rcancel := context.WithCancel(bg)
		defer rcancel()
		r, err := uio.NewDagReader(rctx, root, s)
		c.NoErr(err, "NewDagReader")
		borders := leafBorders(ref)
		var all []cid.Cid
		ref.Walk(func(n *vt.Ref) {
			if n != ref {
				all = append(all, n.Cid)
			}
		})
		pos := int64(0)
		closed := false
		cause := ""
		tell := func() {
			p, err := r.Seek(0, io.SeekCurrent)
			c.NoErr(err, "telling the position")
			pos = p
			if pos < 0 {
				c.Fatalf("position is %d", pos)
			}
		}
		got := func(b []byte, what string) {
			if pos+int64(len(b)) > int64(len(content)) && len(b) > 0 {
				c.Fatalf("%s at %d of %d returned %d bytes", what, pos, len(content), len(b))
			}
			if len(b) > 0 {
				mustEqual(c, b, content[pos:pos+int64(len(b))], fmt.Sprintf("%s at %d", what, pos))
			}
		}
		failed := func() {
			c.NonTrivial()
			c.Label("failed: " + cause)
		}
		// fault installs a fault.
		fault := func(rt *rapid.T) {
			s.Heal()
			s.SetHang(false, nil)
			kind := rapid.SampledFrom([]string{"missing", "transient", "permanent", "all"}).Draw(rt, "fault")
			cause = kind
			ferr := genErr(rt)
			switch kind {
			case "missing":
				if len(all) == 0 {
					return
				}
				for n := rapid.IntRange(1, 3).Draw(rt, "missing"); n > 0; n-- {
					s.SetMissing(rapid.SampledFrom(all).Draw(rt, "block"), true)
				}
			case "transient":
				n := rapid.IntRange(1, 12).Draw(rt, "failAt")
				k := rapid.IntRange(1, 3).Draw(rt, "times")
				i := 0
				s.OnGet = func(cid.Cid) error {
					i++
					if i >= n && i < n+k {
						return ferr
					}
					return nil
				}
			case "permanent":
				n := rapid.IntRange(1, 12).Draw(rt, "failAt")
				i := 0
				s.OnGet = func(cid.Cid) error {
					i++
					if i >= n {
						return ferr
					}
					return nil
				}
			case "all":
				s.OnGet = func(cid.Cid) error { return ferr }
			}
			c.Logf("fault %s, %v", kind, ferr)
		}
		read := func(rt *rapid.T, what string, f func([]byte) (int, error)) {
			n := rapid.OneOf(rapid.IntRange(1, 5), rapid.IntRange(1, len(content)+2)).Draw(rt, "length")
			buf := make([]byte, n)
			tell()
			k, err := f(buf)
			c.Logf("%s(%d) at %d = %d, %v", what, n, pos, k, err)
			if k < 0 || k > n {
				c.Fatalf("%s of %d bytes returned %d", what, n, k)
			}
			got(buf[:k], what)
			if k < n && err == nil {
				c.Fatalf("%s of %d bytes at %d of %d returned %d without an error", what, n, pos, len(content), k)
			}
			if err == io.EOF && pos+int64(k) < int64(len(content)) {
				c.Fatalf("%s at %d of %d returned %d bytes and end of file", what, pos, len(content), k)
			}
			if err != nil && err != io.EOF {
				failed()
			}
			before := pos
			tell()
			if pos != before+int64(k) {
				c.Fatalf("%s at %d returned %d bytes (%v), but the position is %d", what, before, k, err, pos)
			}
		}
		rt.Repeat(map[string]func(*rapid.T){
			"fault": fault,
			"heal": func(rt *rapid.T) {
				c.Logf("heal")
				s.Heal()
			},
			"read": func(rt *rapid.T) { read(rt, "Read", r.Read) },
			"ctxread": func(rt *rapid.T) {
				ctx, cancel := context.WithCancel(bg)
				defer cancel()
				switch rapid.IntRange(0, 3).Draw(rt, "context") {
				case 0:
					cancel()
					cause = "cancelled before"
					c.Logf("context cancelled before")
				case 1, 2:
					n := rapid.IntRange(1, 8).Draw(rt, "cancelAt")
					i := 0
					old := s.OnGet
					s.OnGet = func(k cid.Cid) error {
						if i++; i == n {
							cancel()
						}
						if old != nil {
							return old(k)
						}
						return nil
					}
					cause = "cancelled during"
					c.Logf("context cancelled at fetch %d", n)
					defer func() { s.SetOnGet(old) }()
				}
				read(rt, "CtxReadFull", func(b []byte) (int, error) { return r.CtxReadFull(ctx, b) })
			},
			"seek": func(rt *rapid.T) {
				tell()
				off := genOffset(rt, len(content), borders, "offset")
				k, err := r.Seek(off, io.SeekStart)
				c.Logf("Seek(%d) at %d = %d, %v", off, pos, k, err)
				if err == nil && (k != off || off < 0) {
					c.Fatalf("Seek(%d) = %d without an error", off, k)
				}
				if err != nil && off >= 0 {
					failed()
				}
				tell()
				if err == nil && pos != off {
					c.Fatalf("position %d after Seek(%d) succeeded", pos, off)
				}
			},
			"writeto": func(rt *rapid.T) {
				if rapid.IntRange(0, 2).Draw(rt, "rarely") != 0 {
					return
				}
				tell()
				var w bytes.Buffer
				k, err := r.WriteTo(&w)
				c.Logf("WriteTo at %d = %d, %v", pos, k, err)
				if k != int64(w.Len()) {
					c.Fatalf("WriteTo returned %d, %d bytes were written", k, w.Len())
				}
				got(w.Bytes(), "WriteTo")
				if err == nil && pos+k < int64(len(content)) {
					c.Fatalf("WriteTo at %d of %d wrote %d bytes without an error", pos, len(content), k)
				}
				if err != nil {
					failed()
				}
				before := pos
				tell()
				if pos != before+k {
					c.Fatalf("WriteTo at %d wrote %d bytes (%v), but the position is %d", before, k, err, pos)
				}
			},
			"close": func(rt *rapid.T) {
				if rapid.IntRange(0, 20).Draw(rt, "rarely") != 0 {
					return
				}
				if rapid.Bool().Draw(rt, "byContext") {
					rcancel()
				} else {
					c.NoErr(r.Close(), "Close")
				}
				closed = true
				cause = "closed"
				c.Logf("close")
			},
			"": func(rt *rapid.T) {},
		})
		if closed {
			return
		}
		// Without the fault the rest arrives.
		s.Heal()
		tell()
		for tries := 0; ; tries++ {
			var b []byte
			var err error
			start := pos
			if tries%2 == 0 {
				b, err = io.ReadAll(r)
			} else {
				buf := make([]byte, len(content)+1)
				var k int
				k, err = r.CtxReadFull(bg, buf)
				b = buf[:k]
			}
			got(b, "reading the rest")
			tell()
			if pos != start+int64(len(b)) {
				c.Fatalf("reading the rest from %d returned %d bytes, but the position is %d", start, len(b), pos)
			}
			if (err == nil || err == io.EOF) && pos >= int64(len(content)) {
				break
			}
			if err == nil || err == io.EOF {
				c.Fatalf("the reader ends at %d of %d after the fault", pos, len(content))
			}
			if tries > 300 {
				c.Fatalf("the reader still fails at %d of %d after %d retries without a fault: %v", pos, len(content), tries, err)
			}
		}
	})
}

// otherNode is a node of a kind the reader does not know.
type otherNode struct{ ipld.Node }

// bnode is a node of a possibly malformed DAG.
type bnode struct {
	kids    []*bnode
	cid     cid.Cid
	tsize   uint64
	data    []byte // bytes as a leaf
	badLeaf bool   // can't be read as a leaf
	sizes   []uint64
	noSizes bool // the block sizes can't be read
	meta    bool // a metadata node
	missing bool
}

// genBadFile stores a file DAG that may have defects and tells how many.
func genBadFile(rt *rapid.T, c *vt.C, s *vt.Store, h vt.Hash) (*bnode, int) {
	defects := 0
	id := int64(0)
	count := 0
	var rec func(depth int, top bool) *bnode
	rec = func(depth int, top bool) *bnode {
		count++
		n := &bnode{}
		defect := rapid.IntRange(0, 4).Draw(rt, "hasDefect") == 0
		if depth == 0 || !top && rapid.IntRange(0, 2).Draw(rt, "isLeaf") == 0 {
			id++
			b := vt.Fill(rapid.IntRange(0, 12).Draw(rt, "leafSize"), 0, id)
			n.data = b
			if !defect && rapid.Bool().Draw(rt, "rawLeaf") {
				n.cid, n.tsize = h.Cid(cid.Raw, b), uint64(len(b))
				s.PutRaw(n.cid, b)
				c.Logf("raw leaf %d", len(b))
				return n
			}
			p := &vt.PB{Type: vt.PBFile, Data: b, Filesize: vt.U64(uint64(len(b)))}
			blk := p.Encode()
			var codec uint64 = cid.DagProtobuf
			if defect {
				defects++
				switch k := rapid.SampledFrom([]string{"type", "undecodable", "nodata", "filesize", "sizes", "mutated", "foreign"}).Draw(rt, "leafDefect"); k {
				case "type":
					p.Type = rapid.SampledFrom([]uint64{vt.PBDirectory, vt.PBMetadata, vt.PBSymlink, vt.PBHAMTShard, 9}).Draw(rt, "leafType")
					blk = p.Encode()
					n.badLeaf = true
				case "undecodable":
					blk = []byte{0x08, 0x02, 0x12, 0xff}
					n.badLeaf = true
				case "nodata":
					blk = nil
					n.badLeaf = true
				case "filesize":
					p.Filesize = rapid.SampledFrom([]*uint64{nil, vt.U64(0), vt.U64(1 << 62), vt.U64(math.MaxUint64), vt.U64(3)}).Draw(rt, "leafFilesize")
					blk = p.Encode()
				case "foreign":
					codec = vt.OddCodec
					n.badLeaf = true
				case "sizes":
					p.Blocksizes = []uint64{1, 2, 1 << 63}
					blk = p.Encode()
				case "mutated":
					blk = mutate(rt, blk)
					d, err := ft.FromBytes(blk)
					n.badLeaf = err != nil || d.GetType() != ft.TFile && d.GetType() != ft.TRaw
					if err == nil {
						n.data = d.GetData()
					}
				}
			}
			nb := vt.EncodeDagPB(nil, blk)
			n.cid, n.tsize = h.Cid(codec, nb), uint64(len(nb))
			s.PutRaw(n.cid, nb)
			c.Logf("leaf %s bad %v", short(blk), n.badLeaf)
			return n
		}
		p := &vt.PB{Type: vt.PBFile, Filesize: vt.U64(0)}
		var links []vt.Link
		for k := rapid.IntRange(1, 4).Draw(rt, "kids"); k > 0 && count < 40; k-- {
			kid := rec(depth-1, false)
			n.kids = append(n.kids, kid)
			links = append(links, vt.Link{Name: "", Cid: kid.cid, Tsize: kid.tsize})
			p.Blocksizes = append(p.Blocksizes, kid.size())
			*p.Filesize += kid.size()
		}
		if len(n.kids) == 0 {
			defect = false
		}
		blk := p.Encode()
		var codec uint64 = cid.DagProtobuf
		if defect {
			defects++
			what := rapid.SampledFrom([]string{"fewer", "more", "none", "wrong", "undecodable", "nodata", "type", "missing", "inline", "filesize", "foreign", "tsize"}).Draw(rt, "branchDefect")
			switch what {
			case "fewer":
				p.Blocksizes = p.Blocksizes[:rapid.IntRange(0, len(p.Blocksizes)-1).Draw(rt, "sizesKept")]
				blk = p.Encode()
			case "more":
				p.Blocksizes = append(p.Blocksizes, 5)
				blk = p.Encode()
			case "none":
				p.Blocksizes = nil
				blk = p.Encode()
			case "wrong":
				i := rapid.IntRange(0, len(p.Blocksizes)-1).Draw(rt, "wrongSize")
				p.Blocksizes[i] = rapid.SampledFrom([]uint64{0, 1, p.Blocksizes[i] + 1, 1 << 31, 1 << 62, 1 << 63, math.MaxUint64}).Draw(rt, "size")
				blk = p.Encode()
			case "filesize":
				d := uint64(rapid.IntRange(-30, 30).Draw(rt, "off"))
				p.Filesize = rapid.SampledFrom([]*uint64{nil, vt.U64(0), vt.U64(1), vt.U64(*p.Filesize + 7), vt.U64(1 << 62), vt.U64(1<<63 + d), vt.U64(math.MaxUint64 - d)}).Draw(rt, "fileSize")
				blk = p.Encode()
			case "foreign":
				codec = vt.OddCodec
				n.noSizes = true
			case "tsize": // cumulative sizes that overflow when they are added
				for i := range links {
					links[i].Tsize = rapid.SampledFrom([]uint64{0, 1 << 62, 1<<63 - 1, links[i].Tsize}).Draw(rt, "tsize")
				}
			case "undecodable":
				blk = []byte{0xff}
				n.noSizes = true
			case "nodata":
				blk = nil
				n.noSizes = true
			case "type":
				p.Type = rapid.SampledFrom([]uint64{vt.PBDirectory, vt.PBMetadata, vt.PBSymlink, vt.PBHAMTShard, vt.PBRaw}).Draw(rt, "branchType")
				blk = p.Encode()
				n.meta = p.Type == vt.PBMetadata
			case "inline":
				p.Data = []byte("inline")
				blk = p.Encode()
			case "missing":
				k := rapid.SampledFrom(n.kids).Draw(rt, "missingKid")
				s.SetMissing(k.cid, true)
			}
			c.Logf("branch defect %s", what)
			c.Label("branch: " + what)
		}
		n.sizes = p.Blocksizes
		nb := vt.EncodeDagPB(links, blk)
		n.cid, n.tsize = h.Cid(codec, nb), uint64(len(nb))
		s.PutRaw(n.cid, nb)
		c.Logf("branch of %d, sizes %v", len(links), p.Blocksizes)
		return n
	}
	root := rec(rapid.IntRange(0, 4).Draw(rt, "depth"), true)
	return root, defects
}

func TestR03(t *testing.T) {
	vt.Check(t, "nodes that are not files opened as files, and malformed DAGs (leaves and branches of the wrong type, undecodable data, missing, extra and wrong child sizes, missing blocks, metadata without target) read and seeked; full reads are compared with the leaves' bytes up to the first bad leaf; non-trivial: the DAG has a defect or the node is not a file", func(rt *rapid.T, c *vt.C) {
		h := vt.GenHash(rt)
		s := vt.NewStore()
		if rapid.IntRange(0, 3).Draw(rt, "mode") == 0 {
			r03Open(rt, c, s, h)
			return
		}
		root, defects := genBadFile(rt, c, s, h)
		if defects > 0 {
			c.NonTrivial()
		}
		missing := false
		for range s.Missing {
			missing = true
		}
		// A metadata node stands for its first child when it is opened.
		top := root
		for root.meta {
			root = root.kids[0]
		}
		// The bytes a full read yields, and whether it ends well.
		var want []byte
		good := true
		var walk func(n *bnode)
		walk = func(n *bnode) {
			if !good {
				return
			}
			if s.Missing[n.cid.KeyString()] {
				if n != root {
					good = false
					return
				}
			}
			if len(n.kids) == 0 {
				if n.badLeaf {
					good = false
					return
				}
				want = append(want, n.data...)
			}
			for _, k := range n.kids {
				walk(k)
			}
		}
		walk(root)
		rootNode, err := s.Clone().Get(bg, top.cid)
		c.NoErr(err, "loading the root")
		s.Rand = rapid.Uint64().Draw(rt, "blockOrder")
		r, err := uio.NewDagReader(bg, rootNode, s)
		if err != nil {
			c.Label("not opened")
			if p, ok := rootNode.(*mdag.ProtoNode); ok {
				d, derr := ft.FromBytes(p.Data())
				if derr == nil && (d.GetType() == ft.TFile || d.GetType() == ft.TRaw) {
					c.Fatalf("opening a file failed: %v", err)
				}
			} else if _, ok := rootNode.(*vt.Odd); ok {
				if err != uio.ErrUnkownNodeType {
					c.Fatalf("opening a node of an unknown format failed with: %v", err)
				}
			} else {
				c.Fatalf("opening a raw node failed: %v", err)
			}
			return
		}
		c.LabelIf(good, "readable")
		full := func(what string, b []byte, err error) {
			if len(b) > len(want) || !bytes.Equal(b, want[:len(b)]) {
				c.Fatalf("%s of the malformed DAG returned %x, want %x, error %v, %v", what, b, want, !good, err)
			}
			if err == nil && (!good || len(b) < len(want)) {
				c.Fatalf("%s of the malformed DAG returned %x without an error, want %x, error %v", what, b, want, !good)
			}
			if good && err != nil {
				c.Fatalf("%s of a DAG with readable leaves failed: %v", what, err)
			}
			if !good && !missing && len(b) < len(want) {
				c.Fatalf("%s returned %d bytes, %d come before the bad leaf", what, len(b), len(want))
			}
		}
		if rapid.Bool().Draw(rt, "writeTo") {
			var w bytes.Buffer
			_, err := r.WriteTo(&w)
			full("WriteTo", w.Bytes(), err)
		} else {
			b, err := io.ReadAll(r)
			full("ReadAll", b, err)
		}
		// Seek around.
		for n := rapid.IntRange(1, 6).Draw(rt, "seeks"); n > 0; n-- {
			off := genOffset(rt, len(want)+10, nil, "offset")
			r, err := uio.NewDagReader(bg, rootNode, s)
			c.NoErr(err, "opening again")
			k, err := r.Seek(off, io.SeekStart)
			c.Logf("Seek(%d) = %d, %v", off, k, err)
			if err == nil {
				if off < 0 || k != off {
					c.Fatalf("Seek(%d) = %d", off, k)
				}
				if off > 0 {
					// Follow the sizes: no node on the way may lack some.
					left := uint64(off)
					for at := root; len(at.kids) > 0; {
						if at.noSizes {
							c.Fatalf("Seek(%d) went through a branch whose data can't be decoded", off)
						}
						if len(at.sizes) != len(at.kids) {
							c.Fatalf("Seek(%d) went through a branch with %d children and %d child sizes", off, len(at.kids), len(at.sizes))
						}
						var next *bnode
						for i, sz := range at.sizes {
							if sz > left {
								next = at.kids[i]
								break
							}
							left -= sz
						}
						if next == nil {
							break
						}
						at = next
					}
				}
			} else {
				c.Label("seek failed")
			}
			// Whatever the position, reading ends.
			buf := make([]byte, len(want)+20)
			for i := 0; i < 100; i++ {
				if _, err := r.Read(buf); err != nil {
					break
				}
			}
			if defects == 0 && off >= 0 {
				c.NoErr(err, "Seek(%d) in a well-formed DAG", off)
			}
		}
		if _, err := r.Seek(int64(rapid.IntRange(-3, 3).Draw(rt, "fromEnd")), io.SeekEnd); err != nil {
			c.Label("seek from end failed")
		}
	})
}

// size is the size that a correct parent records.
func (n *bnode) size() uint64 {
	if len(n.kids) == 0 {
		return uint64(len(n.data))
	}
	t := uint64(0)
	for _, k := range n.kids {
		t += k.size()
	}
	return t
}

// r03Open opens something that is not a file.
func r03Open(rt *rapid.T, c *vt.C, s *vt.Store, h vt.Hash) {
	c.NonTrivial()
	child := vt.Child(rapid.IntRange(0, 20).Draw(rt, "child"))
	c.NoErr(s.Add(bg, child), "Add")
	links := []vt.Link{{Name: "", Cid: child.Cid(), Tsize: 10}}
	if rapid.Bool().Draw(rt, "noLinks") {
		links = nil
	}
	kind := rapid.SampledFrom([]string{"dir", "shard", "symlink", "unknown", "undecodable", "kind", "metadata"}).Draw(rt, "node")
	c.Label("open " + kind)
	c.Logf("open %s, %d links", kind, len(links))
	var nd ipld.Node
	var want error
	p := genPB(rt)
	c.Logf("%s", pbString(p))
	switch kind {
	case "dir":
		p.Type = vt.PBDirectory
		nd, want = proto(links, p.Encode(), h), uio.ErrIsDir
	case "shard":
		p.Type = vt.PBHAMTShard
		nd, want = proto(links, p.Encode(), h), uio.ErrIsDir
	case "symlink":
		p.Type = vt.PBSymlink
		nd, want = proto(links, p.Encode(), h), uio.ErrCantReadSymlinks
	case "unknown":
		p.Type = uint64(rapid.IntRange(6, 200).Draw(rt, "typeNumber"))
		if _, err := ft.FromBytes(p.Encode()); err == nil {
			want = ft.ErrUnrecognizedType
		}
		nd = proto(links, p.Encode(), h)
	case "undecodable":
		b := rapid.SampledFrom([][]byte{nil, {}, {0x12}, {0x08}, {0x12, 0x05, 1}, {0x08, 0x02, 0x12, 0x7f}}).Draw(rt, "bytes")
		nd = proto(links, b, h)
	case "kind":
		switch rapid.IntRange(0, 1).Draw(rt, "other") {
		case 0:
			nd = &otherNode{child}
		case 1:
			blk, _ := blocks.NewBlockWithCid([]byte("x"), h.Cid(cid.Raw, []byte("x")))
			_ = blk
			nd = &pi.FilestoreNode{Node: child}
		}
		want = uio.ErrUnkownNodeType
	case "metadata":
		p.Type = vt.PBMetadata
		switch rapid.SampledFrom([]string{"nolinks", "missing", "raw", "dir", "nested"}).Draw(rt, "target") {
		case "nolinks":
			nd = proto(nil, p.Encode(), h)
		case "missing":
			nd = proto([]vt.Link{{Name: "", Cid: h.Cid(cid.DagProtobuf, []byte("nowhere")), Tsize: 1}}, p.Encode(), h)
		case "raw":
			raw := vt.RawLeaf([]byte("raw"), h)
			c.NoErr(s.Add(bg, raw), "Add")
			nd = proto([]vt.Link{{Name: "", Cid: raw.Cid(), Tsize: 3}}, p.Encode(), h)
			want = mdag.ErrNotProtobuf
		case "dir":
			d := proto(nil, (&vt.PB{Type: vt.PBDirectory}).Encode(), h)
			s.PutRaw(d.Cid(), d.RawData())
			nd = proto([]vt.Link{{Name: "", Cid: d.Cid(), Tsize: 3}}, p.Encode(), h)
			want = uio.ErrIsDir
		case "nested": // a chain of metadata nodes ending nowhere
			n := proto(nil, p.Encode(), h)
			for i := rapid.IntRange(1, 5).Draw(rt, "chain"); i > 0; i-- {
				s.PutRaw(n.Cid(), n.RawData())
				n = proto([]vt.Link{{Name: "", Cid: n.Cid(), Tsize: 1}}, p.Encode(), h)
			}
			nd = n
		}
	}
	r, err := uio.NewDagReader(bg, nd, s)
	if err == nil {
		c.Fatalf("opening %s as a file succeeded with size %d", kind, r.Size())
	}
	if want != nil && !errors.Is(err, want) {
		c.Fatalf("opening %s as a file failed with %q, want %q", kind, err, want)
	}
	if _, err := ft.ReadUnixFSNodeData(nd); err == nil {
		c.Fatalf("reading the data of %s as of a file succeeded", kind)
	}
}

func TestReg_R01_FailedWriter(t *testing.T) {
	cfg := vt.Cfg{Width: 2, Hash: vt.Hashes[0]}
	ref := cfg.Balanced([][]byte{[]byte("abcd"), []byte("efgh"), []byte("ijkl")})
	s := vt.NewStore()
	put(s, ref)
	r, err := uio.NewDagReader(bg, get(s, ref.Cid), s)
	if err != nil {
		t.Fatal(err)
	}
	w := &failWriter{limit: 6}
	n, err := r.WriteTo(w)
	if n != 6 || err != errWriter {
		t.Fatalf("WriteTo = %d, %v", n, err)
	}
	if p, _ := r.Seek(0, io.SeekCurrent); p != 6 {
		t.Fatalf("position %d, want 6", p)
	}
	b, err := io.ReadAll(r)
	if err != nil || string(b) != "ghijkl" {
		t.Fatalf("rest is %q, %v", b, err)
	}
}

func TestReg_R02_FailedSeek(t *testing.T) {
	cfg := vt.Cfg{Width: 2, Hash: vt.Hashes[0]}
	ref := cfg.Balanced([][]byte{[]byte("abcd"), []byte("efgh"), []byte("ijkl")})
	s := vt.NewStore()
	put(s, ref)
	r, err := uio.NewDagReader(bg, get(s, ref.Cid), s)
	if err != nil {
		t.Fatal(err)
	}
	s.OnGet = func(cid.Cid) error { return vt.ErrInjected }
	if _, err := r.Seek(9, io.SeekStart); err == nil {
		t.Fatal("seek succeeded")
	}
	s.Heal()
	p, _ := r.Seek(0, io.SeekCurrent)
	var b []byte
	for i := 0; i < 100; i++ {
		if b, err = io.ReadAll(r); err == nil {
			break
		}
	}
	if string(b) != "abcdefghijkl"[p:] {
		t.Fatalf("position %d, but the rest is %q, %v", p, b, err)
	}
}

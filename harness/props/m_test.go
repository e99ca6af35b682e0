package props

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math"
	"testing"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	"pgregory.net/rapid"

	"github.com/ipfs/go-unixfs/importer/helpers"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"

	"github.com/ipfs/go-unixfs/verif/vt"
)

// modMachine is a modifier next to a plain byte file.
type modMachine struct {
	c       *vt.C
	ctx     context.Context
	s       *vt.Store
	dm      *mod.DagModifier
	base    ipld.Node
	own     bool // the caller changes the nodes it gave and got
	b       []byte
	pos     int        // -1 if unknown
	low     int        // the smallest size there ever was
	raw     bool       // the leaf format of appended data
	prefix  cid.Prefix // for new nodes
	old     cid.Prefix // of the original nodes
	chunk   int
	big     bool
	borders []int
	snaps   []*modSnap
	ref     *vt.Ref // the starting file
	edits   int
	dirty   bool // possibly data waiting to be written
	tainted bool // a reader may hold on to the failure of a block requested earlier
}

// modSnap is a node that must not change any more.
type modSnap struct {
	nd      ipld.Node
	what    string
	raw     []byte
	data    []byte
	links   []ipld.Link
	content []byte
	odd     bool // its copy has another CID
}

func newSnap(nd ipld.Node, content []byte, what string) *modSnap {
	s := &modSnap{nd: nd, what: what, raw: append([]byte{}, nd.RawData()...), content: append([]byte{}, content...)}
	for _, l := range nd.Links() {
		s.links = append(s.links, *l)
	}
	if p, ok := nd.(*mdag.ProtoNode); ok {
		s.data = append([]byte{}, p.Data()...)
	}
	s.odd = !nd.Copy().Cid().Equals(nd.Cid())
	return s
}

// check verifies that the node is as it was.
func (s *modSnap) check(c *vt.C) {
	c.Helper()
	if !bytes.Equal(s.nd.RawData(), s.raw) {
		c.Fatalf("%s changed: its bytes differ", s.what)
	}
	if p, ok := s.nd.(*mdag.ProtoNode); ok && !bytes.Equal(p.Data(), s.data) {
		c.Fatalf("%s changed: its data differ", s.what)
	}
	ls := s.nd.Links()
	if len(ls) != len(s.links) {
		c.Fatalf("%s changed: it has %d links instead of %d", s.what, len(ls), len(s.links))
	}
	for i, l := range ls {
		if l.Name != s.links[i].Name || l.Size != s.links[i].Size || !l.Cid.Equals(s.links[i].Cid) {
			c.Fatalf("%s changed: link %d is %v, was %v", s.what, i, l, s.links[i])
		}
	}
	if !s.odd && !s.nd.Copy().Cid().Equals(s.nd.Cid()) {
		c.Fatalf("%s changed: its copy has another CID", s.what)
	}
}

// newMod generates a starting file and opens it.
func newMod(rt *rapid.T, c *vt.C) *modMachine { return newModCtx(bg, rt, c) }

func newModCtx(ctx context.Context, rt *rapid.T, c *vt.C) *modMachine {
	ref, _, content := genFileDAG(rt, c, 20)
	s := vt.NewStore()
	put(s, ref)
	m := &modMachine{c: c, ctx: ctx, s: s, ref: ref, b: append([]byte{}, content...), low: len(content), borders: leafBorders(ref)}
	if rapid.IntRange(0, 3).Draw(rt, "wide") == 0 {
		helpers.DefaultLinksPerBlock = 174
	} else {
		helpers.DefaultLinksPerBlock = rapid.IntRange(2, 6).Draw(rt, "maxLinks")
	}
	m.chunk = rapid.OneOf(rapid.IntRange(1, 8), rapid.IntRange(1, 40)).Draw(rt, "chunkSize")
	if rapid.IntRange(0, 60).Draw(rt, "big") == 60 {
		m.big = true
		m.chunk = rapid.IntRange(1<<17, 1<<18).Draw(rt, "bigChunk")
		c.Label("big")
	}
	m.base = get(s, ref.Cid)
	dm, err := mod.NewDagModifier(ctx, m.base, s, chunker.SizeSplitterGen(int64(m.chunk)))
	c.NoErr(err, "NewDagModifier")
	m.dm = dm
	m.prefix = ref.Cid.Prefix()
	m.raw = m.prefix.Version > 0
	if rapid.IntRange(0, 2).Draw(rt, "override") == 0 {
		m.raw = rapid.Bool().Draw(rt, "rawLeaves")
		dm.RawLeaves = m.raw
	}
	m.old = m.prefix
	if rapid.IntRange(0, 3).Draw(rt, "overridePrefix") == 0 {
		h := vt.GenHash(rt)
		m.prefix = h.Cid(cid.DagProtobuf, nil).Prefix()
		dm.Prefix = m.prefix
		c.LabelIf(m.prefix != m.old, "other prefix")
	}
	c.Logf("maxLinks %d, chunks of %d, raw leaves %v", helpers.DefaultLinksPerBlock, m.chunk, m.raw)
	m.snaps = append(m.snaps, newSnap(m.base, content, "the original node"))
	return m
}

// modOp is an operation of the modifier. run executes it and checks what it
// returns if there is no error, apply is its effect on the model.
type modOp struct {
	name   string
	run    func() error
	apply  func()
	again  func() error // how to repeat it after it failed, if not by run
	reject bool         // it has to fail, without effect
	reads  bool         // it uses a reader, which may need several retries after a fault
	auto   bool         // it may write buffered data by itself
	wrote  int          // what a write reported together with an error
}

func (m *modMachine) setLow() {
	if len(m.b) < m.low {
		m.low = len(m.b)
	}
}

// write is the effect of writing on the model.
func (m *modMachine) write(b []byte, off int) {
	if end := off + len(b); end > len(m.b) {
		m.b = append(m.b, make([]byte, end-len(m.b))...)
	}
	copy(m.b[off:], b)
	m.edits++
	m.dirty = true
}

func (m *modMachine) genPos(rt *rapid.T, label string) int {
	n := len(m.b)
	switch rapid.IntRange(0, 4).Draw(rt, label+"Kind") {
	case 0:
		return n
	case 1:
		if len(m.borders) > 0 {
			p := rapid.SampledFrom(m.borders).Draw(rt, label) + rapid.IntRange(-1, 1).Draw(rt, label+"Off")
			if p >= 0 && p <= n+3 {
				return p
			}
		}
		return 0
	case 2:
		return rapid.IntRange(0, n).Draw(rt, label)
	case 3:
		switch far := rapid.IntRange(0, 127).Draw(rt, label+"Far"); {
		case far == 0 && n < 1<<17:
			return n + rapid.IntRange(13000, 120000).Draw(rt, label)
		case far < 9:
			return n + rapid.IntRange(4000, 13000).Draw(rt, label)
		}
		return n + rapid.IntRange(0, 60).Draw(rt, label)
	default:
		return rapid.IntRange(0, min(n, 10)).Draw(rt, label)
	}
}

func (m *modMachine) genData(rt *rapid.T, label string) []byte {
	n := 0
	switch k := rapid.IntRange(0, 5).Draw(rt, label+"Kind"); {
	case k == 0:
		n = rapid.IntRange(0, 2).Draw(rt, label+"Len")
	case k == 5 && m.big && rapid.Bool().Draw(rt, label+"Big"):
		n = 1<<21 + rapid.IntRange(-1, 1<<17).Draw(rt, label+"Len")
	case k < 4:
		n = rapid.IntRange(1, 25).Draw(rt, label+"Len")
	default:
		n = rapid.IntRange(1, 200).Draw(rt, label+"Len")
	}
	return vt.Bytes(rt, n, label)
}

// genOp generates an operation.
func (m *modMachine) genOp(rt *rapid.T, auto bool) *modOp {
	c, dm := m.c, m.dm
	kinds := []string{"WriteAt", "WriteAt", "Read", "CtxReadFull", "Seek", "Seek", "Truncate", "Sync", "GetNode", "Size", "Reject"}
	if m.pos >= 0 {
		kinds = append(kinds, "Write", "Write", "Write")
	}
	k := rapid.SampledFrom(kinds).Draw(rt, "op")
	if m.pos < 0 && (k == "Read" || k == "CtxReadFull") {
		k = "Seek"
	}
	switch k {
	case "Write":
		b := m.genData(rt, "data")
		if len(b) > 1<<20 && !auto {
			b = b[:100]
		}
		op := &modOp{name: fmt.Sprintf("Write(%d bytes %x) at %d", len(b), vt.Murmur(string(b)), m.pos), auto: true}
		op.run = func() error {
			n, err := lent(c, b, dm.Write)
			op.wrote = n
			if (err == nil || n > 0) && n != len(b) {
				c.Fatalf("Write(%d bytes) returned %d", len(b), n)
			}
			return err
		}
		op.apply = func() {
			m.write(b, m.pos)
			m.pos += len(b)
		}
		return op
	case "WriteAt":
		b := m.genData(rt, "data")
		if len(b) > 1<<20 && !auto {
			b = b[:100]
		}
		off := m.genPos(rt, "offset")
		if len(b) == 0 && off > len(m.b) {
			off = len(m.b)
		}
		op := &modOp{name: fmt.Sprintf("WriteAt(%d bytes %x, %d)", len(b), vt.Murmur(string(b)), off), auto: true}
		op.run = func() error {
			n, err := lent(c, b, func(b []byte) (int, error) { return dm.WriteAt(b, int64(off)) })
			op.wrote = n
			if (err == nil || n > 0) && n != len(b) {
				c.Fatalf("WriteAt(%d bytes) returned %d", len(b), n)
			}
			return err
		}
		op.apply = func() {
			m.write(b, off)
			m.pos = -1
		}
		return op
	case "Read", "CtxReadFull":
		n := rapid.OneOf(rapid.IntRange(1, 30), rapid.IntRange(0, len(m.b)+10)).Draw(rt, "len")
		moved := 0
		return &modOp{name: fmt.Sprintf("%s(%d)", k, n), reads: true, run: func() error {
			buf := bytes.Repeat([]byte{0xA5}, n)
			start := m.pos
			var got int
			var err error
			if k == "Read" {
				got, err = dm.Read(buf)
			} else {
				got, err = dm.CtxReadFull(m.ctx, buf)
			}
			want := m.b[min(start, len(m.b)):]
			if len(want) > n {
				want = want[:n]
			}
			if got > len(want) || !bytes.Equal(buf[:got], want[:got]) {
				c.Fatalf("%s(%d) at %d of %d returned %d bytes %s, want %s", k, n, start, len(m.b), got, short(buf[:got]), short(want))
			}
			moved = got
			if err == io.EOF {
				if n > 0 && got == n || got < len(want) {
					c.Fatalf("%s(%d) at %d of %d returned %d and EOF", k, n, start, len(m.b), got)
				}
				return nil
			}
			if err == nil && got < n {
				c.Fatalf("%s(%d) at %d of %d returned %d without an error", k, n, start, len(m.b), got)
			}
			return err
		}, apply: func() {
			m.pos += moved
			m.dirty = false
		}}
	case "Seek":
		to := m.genPos(rt, "to")
		whence := rapid.SampledFrom([]int{io.SeekStart, io.SeekStart, io.SeekCurrent, io.SeekEnd}).Draw(rt, "whence")
		if m.pos < 0 && whence == io.SeekCurrent {
			whence = io.SeekStart
		}
		off := to
		switch whence {
		case io.SeekCurrent:
			off = to - m.pos
		case io.SeekEnd:
			off = to - len(m.b)
		}
		seek := func(off, whence int) error {
			n, err := dm.Seek(int64(off), whence)
			if err == nil && n != int64(to) {
				c.Fatalf("Seek(%d, %d) returned %d, want %d", off, whence, n, to)
			}
			return err
		}
		return &modOp{name: fmt.Sprintf("Seek(%d, %d)", off, whence), reads: true, run: func() error {
			return seek(off, whence)
		}, again: func() error {
			return seek(to, io.SeekStart)
		}, apply: func() {
			if to > len(m.b) {
				m.write(nil, to)
			}
			m.pos = to
			m.dirty = false
		}}
	case "Truncate":
		n := m.genPos(rt, "size")
		return &modOp{name: fmt.Sprintf("Truncate(%d)", n), run: func() error { return dm.Truncate(int64(n)) }, apply: func() {
			if n > len(m.b) {
				m.write(nil, n)
			} else if n < len(m.b) {
				m.b = append([]byte{}, m.b[:n]...)
				m.setLow()
				m.edits++
			}
			m.dirty = false
		}}
	case "Sync":
		return &modOp{name: "Sync", run: func() error {
			err := dm.Sync()
			if err == nil && dm.HasChanges() {
				c.Fatalf("HasChanges after Sync")
			}
			return err
		}, apply: func() { m.dirty = false }}
	case "GetNode":
		var nd ipld.Node
		return &modOp{name: "GetNode", run: func() (err error) {
			nd, err = dm.GetNode()
			return err
		}, apply: func() {
			m.dirty = false
			sn := newSnap(nd, m.b, fmt.Sprintf("the node returned by GetNode number %d", len(m.snaps)))
			if len(m.snaps) < 8 {
				m.snaps = append(m.snaps, sn)
			} else {
				m.snaps[1+rapid.IntRange(0, 6).Draw(rt, "forget")] = sn
			}
			m.content(nd)
			if m.own {
				overwrite(nd)
			}
		}}
	case "Size":
		return &modOp{name: "Size", run: func() error {
			n, err := dm.Size()
			if err == nil && n != int64(len(m.b)) {
				c.Fatalf("Size is %d, want %d", n, len(m.b))
			}
			return err
		}, apply: func() {}}
	}
	// Operations that are refused.
	op := &modOp{reject: true, apply: func() {}}
	neg := rapid.SampledFrom([]int64{-1, -1, -2, -50, math.MinInt64, -(1 << 40)}).Draw(rt, "negative")
	switch what := rapid.SampledFrom([]string{"WriteAt", "Truncate", "SeekStart", "SeekCurrent", "SeekEnd", "whence"}).Draw(rt, "reject"); what {
	case "WriteAt":
		op.run = func() error { _, err := dm.WriteAt([]byte("abc"), neg); return err }
	case "Truncate":
		op.run = func() error { return dm.Truncate(neg) }
	case "SeekStart":
		op.run = func() error { _, err := dm.Seek(neg, io.SeekStart); return err }
	case "SeekCurrent":
		if m.pos < 0 {
			op.run = func() error { _, err := dm.Seek(neg, io.SeekStart); return err }
			break
		}
		if neg > -100 {
			neg -= int64(m.pos)
		}
		if -neg > 0 && -neg <= int64(m.pos) {
			neg = math.MinInt64
		}
		op.run = func() error { _, err := dm.Seek(neg, io.SeekCurrent); return err }
	case "SeekEnd":
		if neg > -100 {
			neg -= int64(len(m.b))
		}
		if -neg > 0 && -neg <= int64(len(m.b)) {
			neg = math.MinInt64
		}
		op.run = func() error { _, err := dm.Seek(neg, io.SeekEnd); return err }
	case "whence":
		w := rapid.SampledFrom([]int{3, -1, 100}).Draw(rt, "badWhence")
		op.run = func() error { _, err := dm.Seek(int64(len(m.b)/2), w); return err }
		op.name = fmt.Sprintf("Seek with whence %d", w)
	}
	if op.name == "" {
		op.name = fmt.Sprintf("rejected operation with %d", neg)
	}
	return op
}

// content verifies what the node holds.
func (m *modMachine) content(nd ipld.Node) {
	m.c.Helper()
	got, err := m.s.Flatten(nd.Cid())
	m.c.NoErr(err, "walking the DAG of the modifier")
	mustEqual(m.c, got, m.b, "content of the modified DAG")
}

// step executes an operation on modifier and model.
func (m *modMachine) step(op *modOp) {
	m.c.Helper()
	m.c.Logf("%s", op.name)
	err := op.run()
	if op.reject {
		if err == nil {
			m.c.Fatalf("%s was accepted", op.name)
		}
		m.c.Label("rejected")
		return
	}
	m.c.NoErr(err, "%s", op.name)
	op.apply()
	if n, err := m.dm.Size(); err != nil || n != int64(len(m.b)) {
		m.c.Fatalf("Size after %s is %d (%v), want %d", op.name, n, err, len(m.b))
	}
}

// run executes a generated history.
func (m *modMachine) run(rt *rapid.T, after func()) {
	n := rapid.IntRange(1, 14).Draw(rt, "steps")
	for i := 0; i < n; i++ {
		op := m.genOp(rt, true)
		m.step(op)
		if after != nil {
			after()
		}
	}
}

// finish returns the final node.
func (m *modMachine) finish() ipld.Node {
	m.c.Helper()
	nd, err := m.dm.GetNode()
	m.c.NoErr(err, "GetNode at the end")
	m.c.Logf("end with %d bytes", len(m.b))
	return nd
}

// lent passes bytes to a writer in a slice that is used for something else
// afterwards.
func lent(c *vt.C, b []byte, write func(b []byte) (int, error)) (int, error) {
	c.Helper()
	buf := append(make([]byte, 0, len(b)+8), b...)
	n, err := write(buf)
	if !bytes.Equal(buf, b) {
		c.Fatalf("the bytes given to a write were changed")
	}
	for i := range buf[:cap(buf)] {
		buf[:cap(buf)][i] = 0xee
	}
	return n, err
}

// overwrite changes a node of the caller.
func overwrite(nd ipld.Node) {
	if p, ok := nd.(*mdag.ProtoNode); ok {
		p.SetData([]byte("changed"))
		p.SetLinks(nil)
	}
}

func restoreWidth() func() {
	w := helpers.DefaultLinksPerBlock
	return func() { helpers.DefaultLinksPerBlock = w }
}

func TestM01(t *testing.T) {
	vt.Check(t, "random histories of writes, positioned writes, reads, context reads, seeks, truncations, extensions, flushes, snapshots and rejected operations on files of any shape, chunk size, width and leaf format, against a byte slice; the size is compared after every step and the content at snapshots and the end; non-trivial: at least two changes of the content and 3 steps", func(rt *rapid.T, c *vt.C) {
		defer restoreWidth()()
		m := newMod(rt, c)
		// The nodes given and returned belong to the caller.
		if m.own = rapid.Bool().Draw(rt, "own"); m.own {
			overwrite(m.base)
			c.Label("nodes changed by the caller")
		}
		steps := 0
		m.run(rt, func() { steps++ })
		nd := m.finish()
		m.content(nd)
		r, err := uio.NewDagReader(bg, get(m.s, nd.Cid()), m.s)
		c.NoErr(err, "NewDagReader")
		b, err := io.ReadAll(r)
		c.NoErr(err, "reading the result")
		mustEqual(c, b, m.b, "the result read back")
		if m.edits >= 2 && steps >= 3 {
			c.NonTrivial()
		}
	})
}

func TestM02(t *testing.T) {
	vt.Check(t, "random editing histories; after every step the original node and all the nodes returned earlier are compared with what they were, and at the end the DAGs under them, read from the store, with the content at the time; non-trivial: at least two changes and one snapshot besides the original node", func(rt *rapid.T, c *vt.C) {
		defer restoreWidth()()
		m := newMod(rt, c)
		before := m.s.Snapshot()
		m.run(rt, func() {
			for _, sn := range m.snaps {
				sn.check(c)
			}
		})
		m.finish()
		for _, sn := range m.snaps {
			sn.check(c)
			b, err := m.s.Flatten(sn.nd.Cid())
			c.NoErr(err, "walking the DAG of %s", sn.what)
			mustEqual(c, b, sn.content, "content of "+sn.what)
			r, err := uio.NewDagReader(bg, sn.nd, m.s)
			c.NoErr(err, "opening %s", sn.what)
			b, err = io.ReadAll(r)
			c.NoErr(err, "reading %s", sn.what)
			mustEqual(c, b, sn.content, "content read from "+sn.what)
		}
		after := m.s.Snapshot()
		for k, v := range before {
			if after[k] != v {
				c.Fatalf("a stored block of the original DAG changed or disappeared")
			}
		}
		if m.edits >= 2 && len(m.snaps) > 1 {
			c.NonTrivial()
		}
	})
}

// wellFormed checks the DAG under the root.
func (m *modMachine) wellFormed(root cid.Cid) {
	c := m.c
	c.Helper()
	c.NoErr(m.s.Verify(root), "the edited DAG")
	b, err := m.s.Flatten(root)
	c.NoErr(err, "the edited DAG is not well-formed")
	mustEqual(c, b, m.b, "content of the edited DAG")
	at := 0
	fits := func(p, want cid.Prefix) bool {
		version := want.Version
		if p.Codec == cid.Raw {
			version = 1
		} else if p.Codec != cid.DagProtobuf {
			return false
		}
		return p.Version == version && p.MhType == want.MhType && p.MhLength == want.MhLength
	}
	var rec func(k cid.Cid)
	rec = func(k cid.Cid) {
		p := k.Prefix()
		leaf := false
		size := 0
		isRaw := p.Codec == cid.Raw
		if !fits(p, m.old) && !fits(p, m.prefix) {
			c.Fatalf("node %s has prefix %v, the modifier has %v, the original node %v", k, p, m.prefix, m.old)
		}
		if isRaw {
			leaf, size = true, len(m.s.Raw(k))
		} else {
			links, data, err := vt.DecodeDagPB(m.s.Raw(k))
			c.NoErr(err, "decoding %s", k)
			for _, l := range links {
				if l.Name != "" {
					c.Fatalf("node %s has a link named %q", k, l.Name)
				}
				rec(l.Cid)
			}
			if len(links) == 0 {
				pb, err := vt.DecodePB(data)
				c.NoErr(err, "decoding %s", k)
				leaf, size = true, len(pb.Data)
			}
		}
		if leaf {
			if size > 0 && at >= m.low && isRaw != m.raw {
				c.Fatalf("the leaf at %d of %d, appended after the size was %d, is raw: %v, want %v", at, len(m.b), m.low, isRaw, m.raw)
			}
			if size > 0 && at >= m.low && !fits(p, m.prefix) {
				c.Fatalf("the leaf at %d of %d, appended after the size was %d, has prefix %v, the modifier has %v", at, len(m.b), m.low, p, m.prefix)
			}
			at += size
		}
	}
	rec(root)
}

func TestM03(t *testing.T) {
	vt.Check(t, "random editing histories; at every snapshot and at the end the DAG is walked in the store by an independent decoder: presence and hash of every block, child sizes, cumulative sizes, inline data, CID prefix of every node, format of the leaves appended; non-trivial: at least two changes of the content and a final DAG with links", func(rt *rapid.T, c *vt.C) {
		defer restoreWidth()()
		m := newMod(rt, c)
		snaps := 0
		m.run(rt, func() {
			if len(m.snaps) != snaps {
				snaps = len(m.snaps)
				last := m.snaps[snaps-1]
				if last.what != "the original node" {
					m.wellFormed(last.nd.Cid())
				}
			}
		})
		nd := m.finish()
		m.wellFormed(nd.Cid())
		if m.edits >= 2 && len(nd.Links()) > 0 {
			c.NonTrivial()
		}
		c.LabelIf(len(nd.Links()) > helpers.DefaultLinksPerBlock, "deep")
	})
}

func TestM04(t *testing.T) {
	vt.Check(t, "random editing histories in which fetching or storing the n-th block fails (once, from then on, or as if it were missing) during some of the operations, checked for a reported error, the content afterwards and the result of the repetition; non-trivial: an operation failed by an injected fault", func(rt *rapid.T, c *vt.C) {
		defer restoreWidth()()
		m := newMod(rt, c)
		s := m.s
		n := rapid.IntRange(2, 12).Draw(rt, "steps")
		preloads := false // a reader may still be fetching
		for i := 0; i < n; i++ {
			op := m.genOp(rt, true)
			preloads = preloads || op.reads
			if op.reject {
				m.step(op)
				continue
			}
			if rapid.IntRange(0, 2).Draw(rt, "fault") == 0 {
				c.Logf("%s", op.name)
				err := op.run()
				if err != nil && !(op.reads && m.tainted) {
					c.Fatalf("%s failed without a fault: %v", op.name, err)
				}
				m.retry(op, err)
				continue
			}
			what := rapid.SampledFrom([]string{"get", "get", "add", "add", "any"}).Draw(rt, "faultOf")
			nth := rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 12)).Draw(rt, "nth")
			once := rapid.Bool().Draw(rt, "once")
			fault := rapid.SampledFrom([]error{vt.ErrInjected, vt.ErrInjected, ipld.ErrNotFound, context.Canceled, io.ErrUnexpectedEOF}).Draw(rt, "error")
			left, hits, lost := nth, 0, 0
			hit := func() error {
				if left > 0 {
					left--
					return nil
				}
				if once && hits > 0 {
					return nil
				}
				hits++
				return fault
			}
			if what != "add" {
				s.SetOnGet(func(cid.Cid) error { return hit() })
			}
			if what != "get" {
				s.SetOnAdd(func(ipld.Node) error {
					err := hit()
					if err != nil {
						lost++
					}
					return err
				})
			}
			err := op.run()
			c.Logf("%s with fault in %s number %d (once %v, %v): %v", op.name, what, nth, once, fault, err)
			m.s.Heal()
			if err == nil {
				if lost > 0 {
					c.Fatalf("%s could not store %d blocks and reported no error", op.name, lost)
				}
				if hits > 0 {
					if !preloads {
						c.Fatalf("%s could not fetch a block and reported no error", op.name)
					}
					c.Label("hidden fault")
				}
				m.tainted = m.tainted || op.reads
				op.apply()
			} else {
				if hits == 0 && !(m.tainted && op.reads) {
					c.Fatalf("%s failed without a fault: %v", op.name, err)
				}
				c.NonTrivial()
				c.Label("failed: " + op.name[:min(4, len(op.name))])
				c.LabelIf(m.dirty, "data pending")
				if op.auto && op.wrote > 0 {
					// All of the data was taken, only writing it to the store
					// failed.
					c.Label("failed flush")
					op.apply()
					err = nil
				}
				// The content is still the same.
				if sz, err := m.dm.Size(); err != nil || sz != int64(len(m.b)) {
					c.Fatalf("Size after the failed %s is %d (%v), want %d", op.name, sz, err, len(m.b))
				}
				if rapid.Bool().Draw(rt, "look") {
					nd, err := m.dm.GetNode()
					c.NoErr(err, "GetNode after the failed %s", op.name)
					m.content(nd)
				}
				// Repeating the operation works.
				m.tainted = m.tainted || op.reads
				if err != nil {
					m.retry(op, err)
				}
			}
			if sz, err := m.dm.Size(); err != nil || sz != int64(len(m.b)) {
				c.Fatalf("Size after %s is %d (%v), want %d", op.name, sz, err, len(m.b))
			}
		}
		m.content(m.finish())
	})
}

// retry repeats an operation that failed, without a fault. A reader in use may
// report the failure of blocks requested before.
func (m *modMachine) retry(op *modOp, err error) {
	m.c.Helper()
	start := m.pos
	for tries := 0; ; tries++ {
		if err == nil {
			op.apply()
			return
		}
		if tries > 0 && (!op.reads || !m.tainted || tries > 300) {
			m.c.Fatalf("%s fails again without a fault: %v", op.name, err)
		}
		if op.again != nil {
			err = op.again()
			continue
		}
		if op.reads && start < len(m.b) {
			// Part of it may have been read.
			m.seekTo(start)
		}
		err = op.run()
	}
}

// seekTo sets the position, which may fail a few times after a fault.
func (m *modMachine) seekTo(pos int) {
	m.c.Helper()
	for tries := 0; ; tries++ {
		n, err := m.dm.Seek(int64(pos), io.SeekStart)
		if err == nil {
			if n != int64(pos) {
				m.c.Fatalf("Seek(%d) returned %d", pos, n)
			}
			m.pos = pos
			return
		}
		if tries > 300 {
			m.c.Fatalf("Seek still fails after the fault is gone: %v", err)
		}
	}
}

package props

import (
	"errors"
	"fmt"
	"os"
	"testing"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	"pgregory.net/rapid"

	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/hamt"
	uio "github.com/ipfs/go-unixfs/io"

	"github.com/ipfs/go-unixfs/verif/vt"
)

// shardMachine is a shard next to a map.
type shardMachine struct {
	rt    *rapid.T
	c     *vt.C
	s     *vt.Store
	h     vt.Hash
	width int
	names []string
	kids  []ipld.Node
	sh    *hamt.Shard
	m     vt.Entries
	sets  int
	rms   int
	loads int
}

func newShards(rt *rapid.T, c *vt.C, maxNames int) *shardMachine {
	d := &shardMachine{rt: rt, c: c, s: vt.NewStore(), h: vt.GenHash(rt), m: vt.Entries{}}
	d.width = rapid.SampledFrom(widths).Draw(rt, "width")
	names := vt.GenNames(rt, 1, maxNames)
	if rapid.IntRange(0, 40).Draw(rt, "large") == 40 {
		for i := rapid.IntRange(50, 200).Draw(rt, "moreNames"); i > 0; i-- {
			names = append(names, fmt.Sprintf("entry number %d", i))
		}
	}
	d.names = distinguishable(names, d.width)
	for i := 0; i < 5; i++ {
		k := vt.Child(rapid.IntRange(0, 40).Draw(rt, "child"))
		d.kids = append(d.kids, k)
		c.NoErr(d.s.Add(bg, k), "Add")
	}
	d.s.Rand = rapid.Uint64().Draw(rt, "blockOrder")
	c.Logf("hash %s, width %d, names %q", d.h.Name, d.width, d.names)
	return d
}

// start opens an empty shard or one loaded from independently built blocks.
func (d *shardMachine) start() {
	if rapid.Bool().Draw(d.rt, "fresh") {
		sh, err := hamt.NewShard(d.s, d.width)
		d.c.NoErr(err, "NewShard")
		sh.SetCidBuilder(d.h.Builder)
		d.sh = sh
		d.c.Label("start: new")
		return
	}
	d.fill(true)
	d.open(putHAMT(d.s, d.m, d.width, d.h).Cid)
	d.c.Label("start: loaded")
	d.c.Logf("loaded with %q", d.m.Names())
}

// startLoose is like start, but the shard may come from an implementation that
// does not keep the trees as small as possible.
func (d *shardMachine) startLoose() {
	if rapid.Bool().Draw(d.rt, "empty") {
		d.start()
		return
	}
	d.fill(true)
	d.open(putAnyHAMT(d.rt, d.c, d.s, d.m, d.width, d.h).Cid)
}

// fill generates entries.
func (d *shardMachine) fill(some bool) {
	n := len(d.names)
	if some && rapid.Bool().Draw(d.rt, "initialSome") {
		n = rapid.IntRange(0, n).Draw(d.rt, "initial")
	}
	for _, name := range d.names[:n] {
		d.m[name] = vt.EntOf(rapid.SampledFrom(d.kids).Draw(d.rt, "initialChild"))
	}
}

func (d *shardMachine) open(root cid.Cid) {
	sh, err := hamt.NewHamtFromDag(d.s, get(d.s, root))
	d.c.NoErr(err, "NewHamtFromDag")
	d.sh = sh
}

func (d *shardMachine) reload() {
	nd, err := d.sh.Node()
	d.c.NoErr(err, "Node")
	if !d.s.Has(nd.Cid()) {
		d.c.Fatalf("the node of the shard is not stored")
	}
	d.open(nd.Cid())
	d.loads++
	d.c.Logf("reload")
}

func (d *shardMachine) link(what, name string, l *ipld.Link, want vt.Ent, present bool) {
	d.c.Helper()
	if !present {
		if l != nil {
			d.c.Fatalf("%s(%q) returned %s for an absent name", what, name, l.Cid)
		}
		return
	}
	if l == nil || !l.Cid.Equals(want.Cid) || l.Size != want.Size {
		d.c.Fatalf("%s(%q) returned %v, want %v", what, name, l, want)
	}
}

// op executes one operation and compares it with the map.
func (d *shardMachine) op(kind, name string) {
	c := d.c
	c.Helper()
	old, present := d.m[name]
	notExist := func(err error) {
		c.Helper()
		if !errors.Is(err, os.ErrNotExist) {
			c.Fatalf("%s(%q) of an absent name returned %v", kind, name, err)
		}
	}
	switch kind {
	case "set", "swap", "setlink":
		kid := rapid.SampledFrom(d.kids).Draw(d.rt, "kid")
		e := vt.EntOf(kid)
		c.Logf("%s %q = %s (%d), present %v", kind, name, e.Cid, e.Size, present)
		switch kind {
		case "set":
			nd, change := throwaway(kid)
			c.NoErr(d.sh.Set(bg, name, nd), "Set(%q)", name)
			change()
		case "swap":
			nd, change := throwaway(kid)
			l, err := d.sh.Swap(bg, name, nd)
			c.NoErr(err, "Swap(%q)", name)
			change()
			d.link("Swap", name, l, old, present)
			scribble(l)
		case "setlink":
			l := &ipld.Link{Name: rapid.SampledFrom([]string{"", "x", name}).Draw(d.rt, "linkName"), Cid: e.Cid, Size: e.Size + uint64(rapid.IntRange(0, 3).Draw(d.rt, "moreSize"))}
			e.Size = l.Size
			cp := *l
			c.NoErr(d.sh.SetLink(bg, name, l), "SetLink(%q)", name)
			if cp.Name != l.Name || cp.Size != l.Size || !cp.Cid.Equals(l.Cid) {
				c.Fatalf("SetLink changed the link it was given to %v", l)
			}
			scribble(l)
		}
		d.m[name] = e
		d.sets++
	case "remove", "take":
		c.Logf("%s %q, present %v", kind, name, present)
		var err error
		if kind == "remove" {
			err = d.sh.Remove(bg, name)
		} else {
			var l *ipld.Link
			l, err = d.sh.Take(bg, name)
			if err == nil {
				d.link("Take", name, l, old, present)
				scribble(l)
			}
		}
		if !present {
			notExist(err)
			return
		}
		c.NoErr(err, "%s(%q)", kind, name)
		delete(d.m, name)
		d.rms++
	case "find":
		c.Logf("find %q, present %v", name, present)
		l, err := d.sh.Find(bg, name)
		if !present {
			notExist(err)
			return
		}
		c.NoErr(err, "Find(%q)", name)
		d.link("Find", name, l, old, true)
	}
}

func (d *shardMachine) genStep() {
	rt := d.rt
	kind := rapid.SampledFrom([]string{"set", "set", "setlink", "swap", "swap", "remove", "take", "take", "find"}).Draw(rt, "op")
	name := rapid.SampledFrom(d.names).Draw(rt, "name")
	if (kind == "remove" || kind == "take") && len(d.m) > 0 && rapid.IntRange(0, 3).Draw(rt, "absent") > 0 {
		name = rapid.SampledFrom(d.m.Names()).Draw(rt, "present")
	}
	d.op(kind, name)
}

// mustList compares the entries with the model.
func (d *shardMachine) mustList(what string) {
	d.c.Helper()
	ls, err := d.sh.EnumLinks(bg)
	d.c.NoErr(err, "%s: EnumLinks", what)
	if diff := diffEntries(entriesOf(d.c, what, ls), d.m); diff != "" {
		d.c.Fatalf("%s: %s", what, diff)
	}
	scribble(ls...)
}

func (d *shardMachine) mustWalk(what string) {
	d.c.Helper()
	var ls []*ipld.Link
	err := d.sh.ForEachLink(bg, func(l *ipld.Link) error {
		cp := *l
		ls = append(ls, &cp)
		return nil
	})
	d.c.NoErr(err, "%s: ForEachLink", what)
	if diff := diffEntries(entriesOf(d.c, what, ls), d.m); diff != "" {
		d.c.Fatalf("%s: %s", what, diff)
	}
}

func TestH01(t *testing.T) {
	vt.Check(t, "random histories of set, set-link, swap, take, remove, find, listing and reload over shards of any width, with families of names that have long common hash prefixes, against a map; non-trivial: at least three sets, a removal and a reload", func(rt *rapid.T, c *vt.C) {
		d := newShards(rt, c, 20)
		d.startLoose()
		n := rapid.IntRange(1, 50).Draw(rt, "steps")
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 12).Draw(rt, "step") {
			case 0:
				d.reload()
			case 1:
				d.mustList(fmt.Sprintf("step %d", i))
			case 2:
				d.mustWalk(fmt.Sprintf("step %d", i))
			default:
				d.genStep()
			}
		}
		d.mustList("at the end")
		for _, n := range d.names {
			d.op("find", n)
		}
		d.mustWalk("at the end")
		if d.sets >= 3 && d.rms >= 1 && d.loads >= 1 {
			c.NonTrivial()
		}
	})
}

// checkNode compares the node with the independent encoding.
func (d *shardMachine) checkNode(nd ipld.Node) *vt.RefShard {
	c := d.c
	c.Helper()
	ref := d.m.HAMT(d.width, d.h)
	if !nd.Cid().Equals(ref.Cid) {
		c.Fatalf("the root is %s, want %s for %d entries%s", nd.Cid(), ref.Cid, len(d.m), d.diffShard(nd.Cid(), ref, "root"))
	}
	ref.Walk(func(n *vt.RefShard) {
		if !d.s.Has(n.Cid) {
			c.Fatalf("shard %s at depth %d is not stored", n.Cid, n.Depth)
		}
	})
	c.LabelIf(len(ref.Subs) > 0, "sub-shards")
	return ref
}

// diffShard describes the first difference.
func (d *shardMachine) diffShard(k cid.Cid, want *vt.RefShard, at string) string {
	if k.Equals(want.Cid) {
		return ""
	}
	gl, gd, err := vt.DecodeDagPB(d.s.Raw(k))
	if err != nil {
		return fmt.Sprintf("; %s: %v", at, err)
	}
	wl, wd, _ := vt.DecodeDagPB(want.Block)
	if string(gd) != string(wd) {
		return fmt.Sprintf("; %s: data %x, want %x", at, gd, wd)
	}
	for i := 0; i < len(gl) || i < len(wl); i++ {
		if i >= len(gl) || i >= len(wl) || gl[i].Name != wl[i].Name || gl[i].Tsize != wl[i].Tsize || !gl[i].Cid.Equals(wl[i].Cid) {
			var a, b interface{}
			if i < len(gl) {
				a = gl[i]
			}
			if i < len(wl) {
				b = wl[i]
			}
			return fmt.Sprintf("; %s: link %d is %v, want %v", at, i, a, b)
		}
	}
	return "; " + at + ": the CIDs differ"
}

func TestH02(t *testing.T) {
	vt.Check(t, "random histories of set, remove and reload over shards of any width and CID configuration, ending in a set of entries; the root CID is compared with the one computed independently from the entries at random points and at the end, and all the shards looked up in the store; non-trivial: at least one sub-shard, after a removal or a reload", func(rt *rapid.T, c *vt.C) {
		d := newShards(rt, c, 24)
		d.start()
		n := rapid.IntRange(1, 50).Draw(rt, "steps")
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 12).Draw(rt, "step") {
			case 0:
				d.reload()
			case 1:
				nd, err := d.sh.Node()
				c.NoErr(err, "Node")
				d.checkNode(nd)
			default:
				d.genStep()
			}
		}
		nd, err := d.sh.Node()
		c.NoErr(err, "Node")
		ref := d.checkNode(nd)
		l, err := d.sh.Link()
		c.NoErr(err, "Link")
		if !l.Cid.Equals(ref.Cid) || l.Size != ref.Tsize {
			c.Fatalf("Link is %s (%d), want %s (%d)", l.Cid, l.Size, ref.Cid, ref.Tsize)
		}
		if len(ref.Subs) > 0 && (d.rms > 0 || d.loads > 0) {
			c.NonTrivial()
		}
	})
}

// badShard is a possibly malformed shard.
type badShard struct {
	links  []vt.Link
	pb     *vt.PB
	blk    []byte
	codec  uint64
	reject bool // it can't be loaded
}

// genChain generates shards that hold just the next one, at the positions of a
// name, and more of them than its hash has positions for.
func genChain(rt *rapid.T, c *vt.C, s *vt.Store, h vt.Hash, width int) cid.Cid {
	name := rapid.SampledFrom([]string{"a", "b", "name"}).Draw(rt, "chainName")
	digits := vt.Digits(name, width)
	for i := rapid.IntRange(0, 3).Draw(rt, "beyond"); i > 0; i-- {
		digits = append(digits, rapid.IntRange(0, width-1).Draw(rt, "position"))
	}
	var k cid.Cid
	for i := len(digits) - 1; i >= 0; i-- {
		bf := make([]byte, width/8)
		bf[len(bf)-1-digits[i]/8] |= 1 << (digits[i] % 8)
		l := vt.Link{Name: vt.Prefix(digits[i], width), Cid: k, Tsize: 1}
		if i == len(digits)-1 {
			e := vt.EntOf(vt.Child(3))
			l = vt.Link{Name: l.Name + name, Cid: e.Cid, Tsize: e.Size}
			if rapid.Bool().Draw(rt, "shardEnd") {
				l.Name = vt.Prefix(digits[i], width)
				pb := &vt.PB{Type: vt.PBHAMTShard, HashType: vt.U64(0x22), Fanout: vt.U64(uint64(width))}
				b := vt.EncodeDagPB(nil, pb.Encode())
				l.Cid = h.Cid(cid.DagProtobuf, b)
				s.PutRaw(l.Cid, b)
			}
		}
		pb := &vt.PB{Type: vt.PBHAMTShard, Data: bf, HashType: vt.U64(0x22), Fanout: vt.U64(uint64(width))}
		b := vt.EncodeDagPB([]vt.Link{l}, pb.Encode())
		k = h.Cid(cid.DagProtobuf, b)
		s.PutRaw(k, b)
	}
	c.Label("chain")
	c.Logf("chain of %d shards of width %d for %q", len(digits), width, name)
	return k
}

// genBadShard generates a shard with up to a number of defects.
func genBadShard(rt *rapid.T, c *vt.C, s *vt.Store, h vt.Hash, depth int, width int) (cid.Cid, bool) {
	b := &badShard{pb: &vt.PB{Type: vt.PBHAMTShard, HashType: vt.U64(0x22), Fanout: vt.U64(uint64(width))}, codec: cid.DagProtobuf}
	bits := make([]bool, width)
	n := rapid.IntRange(0, 5).Draw(rt, "children")
	for i := 0; i < n; i++ {
		pos := rapid.IntRange(0, width-1).Draw(rt, "position")
		if bits[pos] {
			continue
		}
		bits[pos] = true
		l := vt.Link{Name: vt.Prefix(pos, width)}
		if depth > 0 && rapid.IntRange(0, 2).Draw(rt, "sub") > 0 {
			w := width
			if rapid.IntRange(0, 8).Draw(rt, "otherWidth") == 0 {
				w = rapid.SampledFrom(widths).Draw(rt, "subWidth")
			}
			l.Cid, _ = genBadShard(rt, c, s, h, depth-1, w)
			l.Tsize = 100
		} else {
			k := vt.Child(rapid.IntRange(0, 20).Draw(rt, "child"))
			s.PutRaw(k.Cid(), k.RawData())
			e := vt.EntOf(k)
			l.Name += rapid.SampledFrom([]string{"a", "b", "name", "00", "\xff"}).Draw(rt, "entry")
			l.Cid, l.Tsize = e.Cid, e.Size
		}
		b.links = append(b.links, l)
	}
	var defect string
	if rapid.IntRange(0, 2).Draw(rt, "hasDefect") == 0 {
		defect = rapid.SampledFrom([]string{"type", "hash", "nohash", "width", "nowidth", "bit more", "bit less", "bitfield long", "bitfield random", "nobitfield", "link more", "link less", "short name", "empty name", "wrong position", "undecodable", "nodata", "mutated", "raw", "foreign", "missing", "empty", "zeros", "tsize"}).Draw(rt, "defect")
	}
	setbits := func() []byte {
		bf := make([]byte, width/8)
		for i, v := range bits {
			if v {
				bf[len(bf)-1-i/8] |= 1 << (i % 8)
			}
		}
		if defect != "zeros" {
			for len(bf) > 0 && bf[0] == 0 {
				bf = bf[1:]
			}
		}
		return bf
	}
	ones := func(bf []byte) int {
		n := 0
		for _, x := range bf {
			for ; x != 0; x &= x - 1 {
				n++
			}
		}
		return n
	}
	b.pb.Data = setbits()
	badWidth := func(w uint64) bool { return w == 0 || w > 1024 || w&(w-1) != 0 || w%8 != 0 }
	mutated := false
	switch defect {
	case "type":
		b.pb.Type = rapid.SampledFrom([]uint64{vt.PBRaw, vt.PBDirectory, vt.PBFile, vt.PBMetadata, vt.PBSymlink, 6}).Draw(rt, "type")
		b.reject = true
	case "hash":
		b.pb.HashType = vt.U64(rapid.SampledFrom([]uint64{0, 1, 0x12, 0x23, 1 << 40, 1<<64 - 1, 0x22 + 1<<32}).Draw(rt, "hashType"))
		b.reject = true
	case "nohash":
		b.pb.HashType = nil
		b.reject = true
	case "width":
		w := rapid.SampledFrom([]uint64{0, 1, 2, 4, 7, 24, 100, 255, 257, 2048, 1 << 20, 1 << 31, 1 << 32, 1<<32 + 256, 1 << 63, 1<<64 - 1, 1<<64 - 256}).Draw(rt, "badWidth")
		b.pb.Fanout = vt.U64(w)
		b.reject = true
	case "nowidth":
		b.pb.Fanout = nil
		b.reject = true
	case "bit more":
		p := rapid.IntRange(0, width-1).Draw(rt, "bit")
		if !bits[p] {
			bits[p] = true
			b.pb.Data = setbits()
			b.reject = true
		}
	case "bit less":
		for i := range bits {
			if bits[i] {
				bits[i] = false
				b.pb.Data = setbits()
				b.reject = true
				break
			}
		}
	case "bitfield long":
		extra := rapid.SampledFrom([]byte{0, 1, 0xff}).Draw(rt, "extraByte")
		b.pb.Data = append([]byte{extra}, append(make([]byte, width/8-len(b.pb.Data)), b.pb.Data...)...)
		b.reject = true
	case "bitfield random":
		b.pb.Data = vt.Fill(rapid.IntRange(0, width/8+3).Draw(rt, "bitfieldLen"), 0, int64(rapid.IntRange(0, 255).Draw(rt, "bitfield")))
		b.reject = len(b.pb.Data) > width/8 || ones(b.pb.Data) != len(b.links)
	case "nobitfield":
		b.pb.Data = nil
		b.reject = len(b.links) > 0
	case "link more":
		b.links = append(b.links, vt.Link{Name: rapid.SampledFrom([]string{"", "0", "FFF", "zz", "00more"}).Draw(rt, "moreName"), Cid: vt.Child(1).Cid()})
		b.reject = true
	case "link less":
		if len(b.links) > 0 {
			b.links = b.links[1:]
			b.reject = true
		}
	case "short name", "empty name", "wrong position":
		if len(b.links) > 0 {
			l := &b.links[rapid.IntRange(0, len(b.links)-1).Draw(rt, "badLink")]
			switch defect {
			case "short name":
				l.Name = l.Name[:len(vt.Prefix(0, width))-1]
			case "empty name":
				l.Name = ""
			default:
				l.Name = "ZZZ"[:len(vt.Prefix(0, width))] + l.Name[len(vt.Prefix(0, width)):]
			}
		}
	case "zeros":
	}
	b.blk = b.pb.Encode()
	switch defect {
	case "undecodable":
		b.blk = []byte{0x12, 0xff}
		b.reject = true
	case "nodata":
		b.blk = nil
		b.reject = true
	case "tsize": // cumulative sizes that overflow when they are added
		for i := range b.links {
			b.links[i].Tsize = rapid.SampledFrom([]uint64{0, 1 << 62, 1<<63 - 1, b.links[i].Tsize}).Draw(rt, "tsize")
		}
	case "mutated":
		b.blk = mutate(rt, b.blk)
		mutated = true
	}
	if defect != "" {
		c.Label("defect: " + defect)
	}
	if mutated {
		pb, err := vt.DecodePB(b.blk)
		b.reject = err == nil && (pb.Type != vt.PBHAMTShard || pb.HashType == nil || *pb.HashType != 0x22 || pb.Fanout == nil || badWidth(*pb.Fanout) ||
			uint64(len(pb.Data)) > *pb.Fanout/8 || ones(pb.Data) != len(b.links))
	}
	nb := vt.EncodeDagPB(b.links, b.blk)
	k := h.Cid(cid.DagProtobuf, nb)
	switch defect {
	case "foreign":
		k = h.Cid(vt.OddCodec, nb)
		b.reject = true
	case "raw":
		k = h.Cid(cid.Raw, nb)
		b.reject = true
	}
	s.PutRaw(k, nb)
	if defect == "missing" {
		s.SetMissing(k, true)
	}
	c.Logf("shard of width %d at depth %d, %d links, defect %q, to be rejected %v: %s", width, depth, len(b.links), defect, b.reject, k)
	return k, b.reject
}

func TestH03(t *testing.T) {
	vt.Check(t, "trees of shards with generated defects (type, hash function, width, bitfield, number and names of links, undecodable, mutated, raw and missing nodes) at any depth, loaded and then used by random operations of shards and directories, and creation with any width; a root with a definite defect has to be refused, everything else must return; non-trivial: the root is defective, or an operation on a tree with a defect below the root", func(rt *rapid.T, c *vt.C) {
		if rapid.IntRange(0, 20).Draw(rt, "create") == 0 {
			w := rapid.OneOf(rapid.SampledFrom([]int{-8, -1, 0, 1, 2, 4, 8, 16, 24, 256, 512, 1023, 1024, 1025, 1032, 2048, 4096, 1 << 20, 1 << 40, -1 << 63}), rapid.IntRange(-10, 3000), rapid.Int()).Draw(rt, "width")
			good := w > 0 && w <= 1024 && w&(w-1) == 0 && w%8 == 0
			_, err := hamt.NewShard(vt.NewStore(), w)
			c.Logf("NewShard(%d): %v", w, err)
			c.Label("create")
			if (err == nil) != good {
				c.Fatalf("NewShard with a width of %d returned %v", w, err)
			}
			c.NonTrivial()
			return
		}
		defer restoreDirOptions()()
		uio.HAMTShardingSize = rapid.SampledFrom([]int{0, 50, 200, 1000}).Draw(rt, "threshold")
		uio.DefaultShardWidth = 256
		h := vt.GenHash(rt)
		s := vt.NewStore()
		width := rapid.SampledFrom(widths).Draw(rt, "width")
		var root cid.Cid
		reject := false
		if rapid.IntRange(0, 9).Draw(rt, "chain") == 0 {
			root = genChain(rt, c, s, h, width)
		} else {
			root, reject = genBadShard(rt, c, s, h, rapid.IntRange(0, 4).Draw(rt, "depth"), width)
		}
		s.SetMissing(root, false)
		nd := get(s, root)
		open := func() (*hamt.Shard, error) { return hamt.NewHamtFromDag(s, nd) }
		sh, err := open()
		c.Logf("NewHamtFromDag: %v", err)
		if reject && err == nil {
			c.Fatalf("the malformed shard was loaded")
		}
		_, derr := uio.NewDirectoryFromNode(s, nd)
		if reject && derr == nil {
			if p, ok := nd.(*mdag.ProtoNode); ok {
				if f, err := ft.FSNodeFromBytes(p.Data()); err != nil || f.Type() == ft.THAMTShard {
					c.Fatalf("the malformed shard was loaded as a directory")
				}
			}
		}
		if reject {
			c.NonTrivial()
		}
		if err != nil {
			c.Label("refused")
			return
		}
		names := []string{"a", "b", "name", "00", "\xff", "c", "other"}
		kid := vt.Child(3)
		for i := rapid.IntRange(1, 8).Draw(rt, "operations"); i > 0; i-- {
			name := rapid.SampledFrom(names).Draw(rt, "name")
			op := rapid.SampledFrom([]string{"set", "remove", "find", "take", "enum", "each", "async", "node", "dir add", "dir remove", "dir links", "dir find", "resolve", "link", "again"}).Draw(rt, "op")
			var err error
			switch op {
			case "set":
				err = sh.Set(bg, name, kid)
			case "remove":
				err = sh.Remove(bg, name)
			case "find":
				_, err = sh.Find(bg, name)
			case "take":
				_, err = sh.Take(bg, name)
			case "enum":
				_, err = sh.EnumLinks(bg)
			case "each":
				err = sh.ForEachLink(bg, func(*ipld.Link) error { return nil })
			case "async":
				_, err = collect(sh.EnumLinksAsync(bg))
			case "node":
				_, err = sh.Node()
			case "link":
				_, err = sh.Link()
			case "again":
				sh, err = open()
				c.NoErr(err, "loading the shard again")
			case "resolve":
				_, _, err = uio.ResolveUnixfsOnce(bg, s, nd, []string{name, "x"})
			default:
				var dir uio.Directory
				dir, err = uio.NewDirectoryFromNode(s, nd)
				c.NoErr(err, "NewDirectoryFromNode of a shard that was loaded")
				switch op {
				case "dir add":
					err = dir.AddChild(bg, name, kid)
				case "dir remove":
					err = dir.RemoveChild(bg, name)
				case "dir links":
					_, err = dir.Links(bg)
				case "dir find":
					_, err = dir.Find(bg, name)
				}
			}
			c.Logf("%s %q: %v", op, name, err)
			c.LabelIf(err != nil && !errors.Is(err, os.ErrNotExist), "error")
			c.NonTrivial()
		}
	})
}

func TestH04(t *testing.T) {
	vt.Check(t, "stored sharded directories of which only the shards on the hash path of one name (present or absent) are available, used by find, set, set-link, swap, remove and take through shards, and by the lookup of a directory and the path resolver; all blocks fetched are recorded; non-trivial: the tree has a shard outside the path", func(rt *rapid.T, c *vt.C) {
		d := newShards(rt, c, 24)
		d.fill(true)
		name := rapid.SampledFrom(d.names).Draw(rt, "operand")
		ref := putHAMT(d.s, d.m, d.width, d.h)
		onPath := map[string]bool{}
		for _, n := range ref.Path(name, d.width) {
			onPath[n.Cid.KeyString()] = true
		}
		outside := 0
		ref.Walk(func(n *vt.RefShard) {
			if !onPath[n.Cid.KeyString()] {
				outside++
				d.s.SetMissing(n.Cid, true)
			}
		})
		c.Logf("name %q, %d shards on the path, %d outside", name, len(onPath), outside)
		if outside > 0 {
			c.NonTrivial()
		}
		c.LabelIf(len(onPath) > 2, "long path")
		root := get(d.s, ref.Cid)
		old, present := d.m[name]
		allowed := func(what string, more ...cid.Cid) {
			c.Helper()
			for _, k := range d.s.Fetched {
				if onPath[k.KeyString()] {
					continue
				}
				ok := false
				for _, m := range more {
					ok = ok || m.Equals(k)
				}
				if !ok {
					c.Fatalf("%s fetched %s, which is not on the path of the name", what, k)
				}
			}
			d.s.Fetched = nil
		}
		d.s.Fetched = nil
		var err error
		switch kind := rapid.SampledFrom([]string{"op", "op", "op", "dir", "resolve"}).Draw(rt, "through"); kind {
		case "dir":
			dir, err := uio.NewDirectoryFromNode(d.s, root)
			c.NoErr(err, "NewDirectoryFromNode")
			nd, err := dir.Find(bg, name)
			c.Logf("directory find: %v", err)
			if present {
				c.NoErr(err, "Find of the directory")
				if !nd.Cid().Equals(old.Cid) {
					c.Fatalf("the directory found %s, want %s", nd.Cid(), old.Cid)
				}
			} else if !errors.Is(err, os.ErrNotExist) {
				c.Fatalf("Find of an absent name returned %v", err)
			}
			allowed("Find", old.Cid)
			return
		case "resolve":
			l, rest, err := uio.ResolveUnixfsOnce(bg, d.s, root, []string{name, "rest"})
			c.Logf("resolve: %v", err)
			if present {
				c.NoErr(err, "ResolveUnixfsOnce")
				d.link("ResolveUnixfsOnce", name, l, old, true)
				if len(rest) != 1 || rest[0] != "rest" {
					c.Fatalf("the rest of the path is %q", rest)
				}
			} else if err == nil {
				c.Fatalf("an absent name was resolved to %v", l)
			}
			allowed("ResolveUnixfsOnce")
			return
		}
		d.sh, err = hamt.NewHamtFromDag(d.s, root)
		c.NoErr(err, "NewHamtFromDag")
		kinds := []string{"find", "set", "swap", "setlink", "remove", "take"}
		for i := rapid.IntRange(1, 4).Draw(rt, "operations"); i > 0; i-- {
			kind := rapid.SampledFrom(kinds).Draw(rt, "op")
			d.op(kind, name)
			allowed(kind)
		}
		// Taking the entry away can leave a sub-shard with a single entry, which
		// is known without fetching it.
		nd, err := d.sh.Node()
		c.NoErr(err, "Node")
		if len(d.s.Fetched) > 0 {
			c.Fatalf("Node fetched %s", d.s.Fetched[0])
		}
		d.s.Heal()
		want := d.m.HAMT(d.width, d.h)
		if !nd.Cid().Equals(want.Cid) {
			c.Fatalf("the node is %s, want %s%s", nd.Cid(), want.Cid, d.diffShard(nd.Cid(), want, "root"))
		}
	})
}

func TestH05(t *testing.T) {
	vt.Check(t, "shards of any width with a name to which another is added whose hash agrees in all usable bits (refused, also after reloading and from within a change of a directory's form), or in all but the last usable bits (stored); non-trivial: a colliding name, or one that differs in the last level only", func(rt *rapid.T, c *vt.C) {
		defer restoreDirOptions()()
		d := newShards(rt, c, 8)
		lg := 0
		for 1<<lg < d.width {
			lg++
		}
		usable := 64 / lg * lg
		base := rapid.Uint64().Draw(rt, "base")
		first := vt.NameWithHash(base, rapid.Uint64().Draw(rt, "salt"))
		var h2 uint64
		collide := rapid.Bool().Draw(rt, "collide")
		if collide {
			h2 = base
			if usable < 64 && rapid.Bool().Draw(rt, "unusedBits") {
				h2 ^= rapid.Uint64Range(0, 1<<(64-usable)-1).Draw(rt, "rest")
			}
		} else {
			// Differ in some of the last usable bits.
			h2 = base ^ rapid.Uint64Range(1, 1<<lg-1).Draw(rt, "lastBits")<<(64-usable)
			h2 ^= rapid.Uint64Range(0, 1<<(64-usable)-1).Draw(rt, "rest")
		}
		second := vt.NameWithHash(h2, rapid.Uint64().Draw(rt, "salt2"))
		if second == first {
			return
		}
		if sameDigits(first, second, d.width) != collide {
			panic("HARNESS: the generated names do not have the intended hashes")
		}
		pool := distinguishable(append([]string{first}, d.names...), d.width)
		var clean []string
		for _, n := range pool {
			if n == first || !sameDigits(n, second, d.width) {
				clean = append(clean, n)
			}
		}
		d.names = clean
		c.Logf("first %q, second %q, collide %v, usable bits %d", first, second, collide, usable)
		c.NonTrivial()
		c.LabelIf(collide, "collision")
		if collide && rapid.IntRange(0, 4).Draw(rt, "directory") == 0 {
			c.Label("directory")
			d.collideDir(first, second)
			return
		}
		d.start()
		if _, ok := d.m[first]; !ok {
			d.op("set", first)
		}
		for i := rapid.IntRange(0, 6).Draw(rt, "before"); i > 0; i-- {
			d.genStep()
		}
		if _, ok := d.m[first]; !ok {
			d.op("swap", first)
		}
		if rapid.Bool().Draw(rt, "reload") {
			d.reload()
		}
		kid := rapid.SampledFrom(d.kids).Draw(rt, "kid")
		if !collide {
			d.names = append(d.names, second)
			d.op(rapid.SampledFrom([]string{"set", "swap", "setlink"}).Draw(rt, "op"), second)
			for i := rapid.IntRange(0, 6).Draw(rt, "after"); i > 0; i-- {
				d.genStep()
			}
			for _, n := range d.names {
				d.op("find", n)
			}
			d.reload()
			for _, n := range d.names {
				d.op("find", n)
			}
			d.mustList("at the end")
			return
		}
		for i := rapid.IntRange(1, 3).Draw(rt, "attempts"); i > 0; i-- {
			var err error
			switch rapid.IntRange(0, 2).Draw(rt, "how") {
			case 0:
				err = d.sh.Set(bg, second, kid)
			case 1:
				_, err = d.sh.Swap(bg, second, kid)
			case 2:
				err = d.sh.SetLink(bg, second, &ipld.Link{Cid: kid.Cid(), Size: 7})
			}
			c.Logf("set the second: %v", err)
			if err == nil {
				c.Fatalf("a name that can't be told apart was accepted")
			}
			d.mustList("after the refused name")
			d.op("find", first)
			// The other name is not there, and looking for it or removing it
			// does not find the first one.
			if l, err := d.sh.Find(bg, second); err == nil {
				c.Fatalf("Find of the refused name returned %v", l)
			}
			if err := d.sh.Remove(bg, second); err == nil {
				c.Fatalf("Remove of the refused name succeeded")
			}
			d.mustList("after removing the refused name")
			for j := rapid.IntRange(0, 3).Draw(rt, "between"); j > 0; j-- {
				d.genStep()
			}
			if _, ok := d.m[first]; !ok {
				d.op("set", first)
			}
		}
		nd, err := d.sh.Node()
		c.NoErr(err, "Node")
		d.checkNode(nd)
	})
}

// collideDir fills a basic directory with two names that can't be told apart
// and makes it reach the threshold.
func (d *shardMachine) collideDir(first, second string) {
	c, rt := d.c, d.rt
	uio.DefaultShardWidth = d.width
	both := rapid.Bool().Draw(rt, "bothInBasic")
	kid := d.kids[0]
	m := vt.Entries{}
	size := 0
	add := func(n string) {
		m[n] = vt.EntOf(kid)
		size = m.EstSize()
	}
	add(first)
	if both {
		add(second)
	}
	uio.HAMTShardingSize = size + 1
	if !both && rapid.Bool().Draw(rt, "onSwitch") {
		uio.HAMTShardingSize = size + 5
	}
	if !both && rapid.Bool().Draw(rt, "alreadySharded") {
		uio.HAMTShardingSize = size
	}
	dir := uio.NewDirectory(d.s)
	for _, n := range m.Names() {
		c.NoErr(dir.AddChild(bg, n, kid), "AddChild")
	}
	mustListDir(c, dir, m, "before")
	name := second
	if both {
		name = "another name that reaches the threshold"
		if sameDigits(name, first, d.width) {
			return
		}
	}
	err := dir.AddChild(bg, name, kid)
	c.Logf("adding %q to a directory of %d: %v", name, len(m), err)
	if err == nil {
		c.Fatalf("names that can't be told apart were accepted in a sharded directory")
	}
	mustListDir(c, dir, m, "after the refused name")
	c.NoErr(dir.RemoveChild(bg, first), "RemoveChild")
	delete(m, first)
	mustListDir(c, dir, m, "after removing the first name")
	if !both {
		c.NoErr(dir.AddChild(bg, second, kid), "AddChild of the second name instead of the first")
		m[second] = vt.EntOf(kid)
		mustListDir(c, dir, m, "at the end")
	}
}

func TestX01(t *testing.T) {
	vt.Check(t, "basic directories, sharded directories (in memory or in storage, some shards missing) and plain nodes with links and any data, resolved with present and absent names, longer paths and the empty path; non-trivial: a present name in a sharded directory with sub-shards, or any failing resolution", func(rt *rapid.T, c *vt.C) {
		d := newShards(rt, c, 20)
		d.fill(true)
		kind := rapid.SampledFrom([]string{"basic", "sharded", "sharded", "plain", "raw"}).Draw(rt, "kind")
		c.Label(kind)
		var nd ipld.Node
		var ref *vt.RefShard
		links := func() (out []vt.Link) {
			for _, n := range d.m.Names() {
				out = append(out, vt.Link{Name: n, Cid: d.m[n].Cid, Tsize: d.m[n].Size})
			}
			return out
		}
		switch kind {
		case "basic":
			nd = get(d.s, putBasic(d.s, d.m, d.h))
		case "sharded":
			if rapid.Bool().Draw(rt, "inMemory") {
				sh, err := hamt.NewShard(d.s, d.width)
				c.NoErr(err, "NewShard")
				sh.SetCidBuilder(d.h.Builder)
				for _, n := range d.m.Names() {
					c.NoErr(sh.SetLink(bg, n, &ipld.Link{Cid: d.m[n].Cid, Size: d.m[n].Size}), "SetLink")
				}
				nd, err = sh.Node()
				c.NoErr(err, "Node")
				ref = d.m.HAMT(d.width, d.h)
			} else {
				ref = putAnyHAMT(rt, c, d.s, d.m, d.width, d.h)
				nd = get(d.s, ref.Cid)
			}
		case "plain":
			data := rapid.SampledFrom([][]byte{nil, []byte("not unixfs"), {0x08, 0x02, 0x18, 0x00}, {0x08, 0x05}}).Draw(rt, "data")
			if len(data) == 2 {
				data = []byte{0x08, 0x04} // a symlink
			}
			b := vt.EncodeDagPB(links(), data)
			k := d.h.Cid(cid.DagProtobuf, b)
			d.s.PutRaw(k, b)
			nd = get(d.s, k)
		case "raw":
			nd = vt.RawLeaf([]byte("raw"), d.h)
			d.m = vt.Entries{}
		}
		snap := newSnap(nd, nil, "the node")
		for i := rapid.IntRange(1, 4).Draw(rt, "lookups"); i > 0; i-- {
			name := rapid.SampledFrom(d.names).Draw(rt, "name")
			if rapid.IntRange(0, 9).Draw(rt, "otherName") == 0 {
				name = rapid.SampledFrom([]string{"", "absent", "0", "00", "00a", "FF", "FFF"}).Draw(rt, "odd")
				if ref != nil && d.m.Copy().HAMT(d.width, d.h) == nil {
					continue
				}
			}
			e, present := d.m[name]
			path := append([]string{name}, rapid.SampledFrom([][]string{nil, {"x"}, {""}, {"x", "y", ""}, {"", "x"}, {"x", "", "", "y"}, {name, name}, {"x/y", ".."}, {"a", "b", "c", "d", "e", "f"}}).Draw(rt, "rest")...)
			if rapid.IntRange(0, 9).Draw(rt, "emptyPath") == 0 {
				path = nil
			}
			blocked := false
			var s ipld.NodeGetter = d.s
			if ref != nil && rapid.IntRange(0, 2).Draw(rt, "missing") == 0 {
				var subs []*vt.RefShard
				ref.Walk(func(n *vt.RefShard) {
					if n != ref {
						subs = append(subs, n)
					}
				})
				if len(subs) > 0 {
					m := rapid.SampledFrom(subs).Draw(rt, "missingShard")
					if rapid.Bool().Draw(rt, "unreadable") {
						ferr := genErr(rt)
						d.s.SetOnGet(func(k cid.Cid) error {
							if k.Equals(m.Cid) {
								return ferr
							}
							return nil
						})
					} else {
						d.s.SetMissing(m.Cid, true)
					}
					for _, p := range ref.Path(name, d.width) {
						blocked = blocked || p.Cid.Equals(m.Cid)
					}
				}
			}
			l, rest, err := uio.ResolveUnixfsOnce(bg, s, nd, path)
			d.s.Heal()
			c.Logf("resolve %q (present %v, blocked %v): %v", path, present, blocked, err)
			switch {
			case len(path) == 0:
				c.Label("empty path")
				c.NonTrivial()
				if err == nil {
					c.Fatalf("the empty path was resolved to %v", l)
				}
			case blocked:
				c.Label("missing shard")
				c.NonTrivial()
				if err == nil {
					c.Fatalf("%q was resolved to %v without a shard on its way", name, l)
				}
				if errors.Is(err, os.ErrNotExist) {
					c.Fatalf("%q is reported not to exist while a shard on its way is missing", name)
				}
			case !present:
				c.Label("absent")
				c.NonTrivial()
				if err == nil {
					c.Fatalf("the absent %q was resolved to %v", name, l)
				}
			default:
				c.NoErr(err, "resolving %q", name)
				d.link("ResolveUnixfsOnce", name, l, e, true)
				if fmt.Sprintf("%q", rest) != fmt.Sprintf("%q", path[1:]) {
					c.Fatalf("the rest of the path %q is %q", path, rest)
				}
				if ref != nil && len(ref.Subs) > 0 {
					c.NonTrivial()
				}
			}
			snap.check(c)
		}
	})
}

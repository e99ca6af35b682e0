package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"testing"
	"time"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	"pgregory.net/rapid"

	ft "github.com/ipfs/go-unixfs"
	uio "github.com/ipfs/go-unixfs/io"

	"github.com/ipfs/go-unixfs/verif/vt"
)

var widths = []int{8, 8, 16, 16, 32, 64, 128, 256, 512, 1024}

// distinguishable drops names whose usable hash bits agree with those of an
// earlier name.
func distinguishable(names []string, ws ...int) []string {
	var out []string
	for _, n := range names {
		ok := true
		for _, w := range ws {
			for _, o := range out {
				ok = ok && !sameDigits(n, o, w)
			}
		}
		if ok {
			out = append(out, n)
		}
	}
	return out
}

func sameDigits(a, b string, w int) bool {
	da, db := vt.Digits(a, w), vt.Digits(b, w)
	for i := range da {
		if da[i] != db[i] {
			return false
		}
	}
	return true
}

// dirMachine is a directory next to a map.
type dirMachine struct {
	rt     *rapid.T
	c      *vt.C
	s      *vt.Store
	h      vt.Hash
	width  int
	thr    int
	names  []string
	kids   []ipld.Node
	dir    uio.Directory
	m      vt.Entries
	target vt.Entries // entries with a total size close to the threshold, nil without
	adds   int
	rms    int
	loose  bool   // start also from trees that are not as small as possible
	form   []bool // whether it was sharded, after every step
}

// newDirs generates the surroundings of a directory and sets the options. The
// caller restores them.
func newDirs(rt *rapid.T, c *vt.C, maxNames int) *dirMachine {
	d := &dirMachine{rt: rt, c: c, s: vt.NewStore(), h: vt.GenHash(rt), m: vt.Entries{}}
	d.width = rapid.SampledFrom(widths).Draw(rt, "width")
	names := vt.GenNames(rt, 1, maxNames)
	if rapid.IntRange(0, 50).Draw(rt, "large") == 50 {
		c.Label("large")
		for i := rapid.IntRange(50, 250).Draw(rt, "moreNames"); i > 0; i-- {
			names = append(names, fmt.Sprintf("entry number %d", i))
		}
	}
	d.names = distinguishable(names, d.width)
	for i := 0; i < 6; i++ {
		k := vt.Child(rapid.IntRange(0, 40).Draw(rt, "child"))
		d.kids = append(d.kids, k)
		c.NoErr(d.s.Add(bg, k), "Add")
	}
	if rapid.IntRange(0, 5).Draw(rt, "noThreshold") > 0 {
		// The size of some set of entries, or close to it.
		d.target = vt.Entries{}
		for _, n := range d.names {
			if rapid.Bool().Draw(rt, "inTarget") || len(d.target) == 0 {
				d.target[n] = vt.EntOf(rapid.SampledFrom(d.kids).Draw(rt, "targetChild"))
			}
		}
		d.thr = d.target.EstSize() + rapid.SampledFrom([]int{0, 0, 0, 1, -1}).Draw(rt, "offTarget")
	}
	uio.HAMTShardingSize = d.thr
	uio.DefaultShardWidth = d.width
	d.s.Rand = rapid.Uint64().Draw(rt, "blockOrder")
	c.Logf("hash %s, width %d, threshold %d, names %q", d.h.Name, d.width, d.thr, d.names)
	c.LabelIf(d.thr == 0, "no threshold")
	return d
}

func restoreDirOptions() func() {
	a, b := uio.HAMTShardingSize, uio.DefaultShardWidth
	return func() { uio.HAMTShardingSize, uio.DefaultShardWidth = a, b }
}

// genEntries generates initial contents.
func (d *dirMachine) genEntries(max int) vt.Entries {
	e := vt.Entries{}
	if len(d.names) < max {
		max = len(d.names)
	}
	n := max
	if !rapid.Bool().Draw(d.rt, "initialAll") {
		n = rapid.IntRange(0, max).Draw(d.rt, "initial")
	}
	for _, name := range d.names[:n] {
		e[name] = vt.EntOf(rapid.SampledFrom(d.kids).Draw(d.rt, "initialChild"))
	}
	return e
}

// putBasic stores a basic directory, putHAMT a sharded one.
func putBasic(s *vt.Store, e vt.Entries, h vt.Hash) cid.Cid {
	c, b := e.Basic(h)
	s.PutRaw(c, b)
	return c
}

func putHAMT(s *vt.Store, e vt.Entries, width int, h vt.Hash) *vt.RefShard {
	r := e.HAMT(width, h)
	if r == nil {
		panic("HARNESS: names that can't be told apart")
	}
	r.Walk(func(n *vt.RefShard) { s.PutRaw(n.Cid, n.Block) })
	return r
}

// putAnyHAMT is like putHAMT, but the tree may be one of an implementation that
// does not keep it as small as possible.
func putAnyHAMT(rt *rapid.T, c *vt.C, s *vt.Store, e vt.Entries, width int, h vt.Hash) *vt.RefShard {
	if rapid.IntRange(0, 3).Draw(rt, "loose") != 0 {
		return putHAMT(s, e, width, h)
	}
	rnd := rand.New(rand.NewSource(rapid.Int64().Draw(rt, "looseSeed")))
	r := e.LooseHAMT(width, h, rnd.Intn)
	n := 0
	r.Walk(func(r *vt.RefShard) { s.PutRaw(r.Cid, r.Block); n++ })
	c.Logf("loose tree of %d shards with %q", n, e.Names())
	c.Label("loose tree")
	return r
}

// start opens the directory: a new one or one loaded from independently built
// blocks in the form the threshold asks for.
func (d *dirMachine) start() {
	c := d.c
	sharded := false
	switch k := rapid.IntRange(0, 2).Draw(d.rt, "start"); k {
	case 0:
		d.dir = uio.NewDirectory(d.s)
		if d.h.Builder != nil {
			d.dir.SetCidBuilder(d.h.Builder)
		}
		c.Logf("new directory")
		c.Label("start: new")
	default:
		d.m = d.genEntries(len(d.names))
		if d.thr == 0 {
			sharded = rapid.Bool().Draw(d.rt, "sharded")
		} else {
			sharded = d.m.EstSize() >= d.thr
		}
		var root cid.Cid
		if sharded {
			if d.loose {
				root = putAnyHAMT(d.rt, c, d.s, d.m, d.width, d.h).Cid
			} else {
				root = putHAMT(d.s, d.m, d.width, d.h).Cid
			}
			c.Label("start: sharded")
		} else {
			root = putBasic(d.s, d.m, d.h)
			c.Label("start: basic")
		}
		var err error
		d.dir, err = uio.NewDirectoryFromNode(d.s, get(d.s, root))
		c.NoErr(err, "NewDirectoryFromNode")
		c.Logf("loaded with %d entries, sharded %v: %q", len(d.m), sharded, d.m.Names())
	}
	d.form = []bool{sharded}
}

// isSharded tells the form of the directory from its node.
func (d *dirMachine) isSharded() bool {
	nd, err := d.dir.GetNode()
	d.c.NoErr(err, "GetNode")
	return nodeSharded(d.c, nd)
}

func nodeSharded(c *vt.C, nd ipld.Node) bool {
	p, ok := nd.(*mdag.ProtoNode)
	if !ok {
		c.Fatalf("the node of the directory is a %T", nd)
	}
	f, err := ft.FSNodeFromBytes(p.Data())
	c.NoErr(err, "decoding the node of the directory")
	switch f.Type() {
	case ft.TDirectory:
		return false
	case ft.THAMTShard:
		return true
	}
	c.Fatalf("the node of the directory has type %v", f.Type())
	return false
}

// throwaway returns a copy of the node, and a function that changes this copy:
// what has been made of a node must not depend on what becomes of it.
func throwaway(nd ipld.Node) (ipld.Node, func()) {
	p, ok := nd.(*mdag.ProtoNode)
	if !ok {
		return nd, func() {}
	}
	cp := p.Copy().(*mdag.ProtoNode)
	if !cp.Cid().Equals(nd.Cid()) {
		return nd, func() {}
	}
	return cp, func() { cp.SetData([]byte("changed")) }
}

// scribble changes links the caller owns.
func scribble(links ...*ipld.Link) {
	for _, l := range links {
		if l != nil {
			l.Name, l.Size, l.Cid = "scribbled", l.Size+1, someCid
		}
	}
}

var someCid = vt.Child(1).Cid()

// entriesOf turns a listing into a map.
func entriesOf(c *vt.C, what string, links []*ipld.Link) vt.Entries {
	c.Helper()
	e := vt.Entries{}
	for _, l := range links {
		if _, dup := e[l.Name]; dup {
			c.Fatalf("%s: %q is listed twice", what, l.Name)
		}
		e[l.Name] = vt.Ent{Cid: l.Cid, Size: l.Size}
	}
	return e
}

// diffEntries describes the first difference, "" if there is none.
func diffEntries(got, want vt.Entries) string {
	for _, n := range want.Names() {
		g, ok := got[n]
		if !ok {
			return fmt.Sprintf("%q is missing", n)
		}
		if !g.Cid.Equals(want[n].Cid) {
			return fmt.Sprintf("%q is %s, want %s", n, g.Cid, want[n].Cid)
		}
		if g.Size != want[n].Size {
			return fmt.Sprintf("%q has size %d, want %d", n, g.Size, want[n].Size)
		}
	}
	for _, n := range got.Names() {
		if _, ok := want[n]; !ok {
			return fmt.Sprintf("%q should not be there", n)
		}
	}
	return ""
}

// mustList compares the links with the model.
func (d *dirMachine) mustList(what string) {
	d.c.Helper()
	mustListDir(d.c, d.dir, d.m, what)
}

func mustListDir(c *vt.C, dir uio.Directory, m vt.Entries, what string) {
	c.Helper()
	links, err := dir.Links(bg)
	c.NoErr(err, "%s: Links", what)
	if diff := diffEntries(entriesOf(c, what, links), m); diff != "" {
		c.Fatalf("%s: %s", what, diff)
	}
}

func (d *dirMachine) genName() string { return rapid.SampledFrom(d.names).Draw(d.rt, "name") }

// dirOp is one operation.
type dirOp struct {
	name  string
	run   func(ctx context.Context) error
	check func(err error) // verifies the result of an undisturbed run and applies it to the model
	done  func()          // the effect on the model
	entry string
	kind  string
}

func (d *dirMachine) genOp() *dirOp {
	rt := d.rt
	if d.target != nil && rapid.IntRange(0, 2).Draw(rt, "toTarget") == 0 {
		// Approach the entries that reach the threshold.
		for _, n := range d.names {
			have, ok := d.m[n]
			want, in := d.target[n]
			switch {
			case in && (!ok || !have.Cid.Equals(want.Cid)):
				for _, k := range d.kids {
					if k.Cid().Equals(want.Cid) {
						return d.op("add", n, k)
					}
				}
			case ok && !in:
				return d.op("remove", n, nil)
			}
		}
	}
	kind := rapid.SampledFrom([]string{"add", "add", "add", "remove", "remove", "find"}).Draw(rt, "op")
	if len(d.m) > 0 && kind == "remove" && rapid.IntRange(0, 3).Draw(rt, "absent") > 0 {
		return d.op(kind, rapid.SampledFrom(d.m.Names()).Draw(rt, "present"), nil)
	}
	name := d.genName()
	var kid ipld.Node
	if kind == "add" {
		kid = rapid.SampledFrom(d.kids).Draw(rt, "kid")
	}
	return d.op(kind, name, kid)
}

func (d *dirMachine) op(kind, name string, kid ipld.Node) *dirOp {
	c := d.c
	_, present := d.m[name]
	o := &dirOp{kind: kind, entry: name}
	switch kind {
	case "add":
		ent := vt.EntOf(kid)
		o.name = fmt.Sprintf("add %q = %s (%d)", name, ent.Cid, ent.Size)
		o.run = func(ctx context.Context) error {
			nd, change := throwaway(kid)
			err := d.dir.AddChild(ctx, name, nd)
			change()
			return err
		}
		o.done = func() { d.m[name] = ent; d.adds++ }
		o.check = func(err error) { c.NoErr(err, "AddChild(%q)", name); o.done() }
	case "remove":
		o.name = fmt.Sprintf("remove %q (present %v)", name, present)
		o.run = func(ctx context.Context) error { return d.dir.RemoveChild(ctx, name) }
		o.done = func() {
			if present {
				d.rms++
			}
			delete(d.m, name)
		}
		o.check = func(err error) {
			if present {
				c.NoErr(err, "RemoveChild(%q)", name)
			} else if !errors.Is(err, os.ErrNotExist) {
				c.Fatalf("RemoveChild(%q) of an absent name returned %v", name, err)
			}
			o.done()
		}
	case "find":
		o.name = fmt.Sprintf("find %q (present %v)", name, present)
		var nd ipld.Node
		o.run = func(ctx context.Context) (err error) {
			nd, err = d.dir.Find(ctx, name)
			return err
		}
		o.done = func() {
			if !nd.Cid().Equals(d.m[name].Cid) {
				c.Fatalf("Find(%q) returned %s, want %s", name, nd.Cid(), d.m[name].Cid)
			}
		}
		o.check = func(err error) {
			if !present {
				if !errors.Is(err, os.ErrNotExist) {
					c.Fatalf("Find(%q) of an absent name returned %v", name, err)
				}
				return
			}
			c.NoErr(err, "Find(%q)", name)
			o.done()
		}
	}
	return o
}

// reload stores the directory and loads it again.
func (d *dirMachine) reload(s *vt.Store) {
	c := d.c
	nd, err := d.dir.GetNode()
	c.NoErr(err, "GetNode")
	if !nodeSharded(c, nd) {
		c.NoErr(d.s.Add(bg, nd), "Add")
	} else if !d.s.Has(nd.Cid()) {
		c.Fatalf("the node of the sharded directory is not stored")
	}
	d.dir, err = uio.NewDirectoryFromNode(d.s, get(d.s, nd.Cid()))
	c.NoErr(err, "NewDirectoryFromNode")
	c.Logf("reload")
	c.Label("reload")
}

// step executes an undisturbed operation.
func (d *dirMachine) step(o *dirOp) {
	d.c.Logf("%s", o.name)
	o.check(o.run(bg))
}

// switches tells how often the form changed.
func (d *dirMachine) switches() int {
	n := 0
	for i := 1; i < len(d.form); i++ {
		if d.form[i] != d.form[i-1] {
			n++
		}
	}
	return n
}

func TestD01(t *testing.T) {
	vt.Check(t, "random histories of additions, replacements, removals, lookups and reloads on directories of both forms, with thresholds crossed by the history and shard widths that may differ from that of the loaded directory, against a map; names include families with long common hash prefixes; non-trivial: at least two additions, a removal of a present name and 5 steps", func(rt *rapid.T, c *vt.C) {
		defer restoreDirOptions()()
		d := newDirs(rt, c, 16)
		d.loose = true
		d.start()
		if rapid.IntRange(0, 3).Draw(rt, "otherWidth") == 0 {
			w := rapid.SampledFrom(widths).Draw(rt, "newWidth")
			d.names = distinguishable(d.names, d.width, w)
			ok := true
			for n := range d.m {
				found := false
				for _, o := range d.names {
					found = found || o == n
				}
				ok = ok && found
			}
			if ok {
				uio.DefaultShardWidth = w
				c.Logf("new shards have width %d", w)
			}
		}
		n := rapid.IntRange(1, 40).Draw(rt, "steps")
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 9).Draw(rt, "step") {
			case 0:
				d.reload(d.s)
			case 1:
				d.mustList(fmt.Sprintf("after step %d", i))
			default:
				d.step(d.genOp())
			}
		}
		d.mustList("at the end")
		for _, name := range d.names {
			d.op("find", name, nil).check2(d)
		}
		if d.adds >= 2 && d.rms >= 1 && n >= 5 {
			c.NonTrivial()
		}
	})
}

// check2 runs and checks an operation without logging it.
func (o *dirOp) check2(d *dirMachine) { o.check(o.run(bg)) }

// genErr generates an error storage may return.
func genErr(rt *rapid.T) error {
	return rapid.SampledFrom([]error{vt.ErrInjected, vt.ErrInjected, ipld.ErrNotFound, context.Canceled, context.DeadlineExceeded, io.ErrUnexpectedEOF}).Draw(rt, "error")
}

// genFault injects a storage fault or a cancellation into f and reports whether
// it was hit.
func genFault(rt *rapid.T, c *vt.C, s *vt.Store, parent context.Context) (ctx context.Context, clear func() int, what string) {
	kind := rapid.SampledFrom([]string{"get", "get", "add", "any", "cancel before", "cancel during", "cancel during"}).Draw(rt, "fault")
	nth := rapid.OneOf(rapid.IntRange(0, 2), rapid.IntRange(0, 10)).Draw(rt, "nth")
	once := rapid.Bool().Draw(rt, "once")
	ferr := genErr(rt)
	ctx, cancel := context.WithCancel(parent)
	left, hits := nth, 0
	hit := func() error {
		if left > 0 {
			left--
			return nil
		}
		if once && hits > 0 {
			return nil
		}
		hits++
		if kind == "cancel during" {
			cancel()
			return nil
		}
		return ferr
	}
	get := func(cid.Cid) error { return hit() }
	add := func(ipld.Node) error { return hit() }
	switch kind {
	case "get":
		s.SetOnGet(get)
	case "add":
		s.SetOnAdd(add)
	case "any", "cancel during":
		s.SetOnGet(get)
		s.SetOnAdd(add)
	case "cancel before":
		cancel()
		hits = 1
	}
	return ctx, func() int {
		s.Heal()
		cancel()
		return hits
	}, fmt.Sprintf("%s number %d, once %v, %v", kind, nth, once, ferr)
}

func TestD02(t *testing.T) {
	vt.Check(t, "random histories of additions, replacements, removals (also failing because of injected faults) and reloads, with a threshold in the range of the sizes reached; the form of the node is compared with the sum over the entries after every step; non-trivial: the form changes at least twice", func(rt *rapid.T, c *vt.C) {
		defer restoreDirOptions()()
		d := newDirs(rt, c, 14)
		d.start()
		n := rapid.IntRange(1, 40).Draw(rt, "steps")
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 11).Draw(rt, "step") {
			case 0:
				d.reload(d.s)
			case 1:
				o := d.genOp()
				ctx, clear, what := genFault(rt, c, d.s, bg)
				err := o.run(ctx)
				clear()
				c.Logf("%s with fault %s: %v", o.name, what, err)
				if err == nil {
					o.done()
				}
			default:
				d.step(d.genOp())
			}
			sharded := d.isSharded()
			d.form = append(d.form, sharded)
			if d.thr == 0 {
				if sharded != d.form[i] {
					c.Fatalf("sharded: %v, with the threshold disabled and %v before", sharded, d.form[i])
				}
			} else if want := d.m.EstSize() >= d.thr; sharded != want {
				c.Fatalf("sharded: %v, the estimated size of the %d entries is %d and the threshold %d", sharded, len(d.m), d.m.EstSize(), d.thr)
			}
			c.LabelIf(d.m.EstSize() == d.thr && d.thr > 0, "exactly at the threshold")
			c.LabelIf(d.m.EstSize() == d.thr-1, "just below the threshold")
		}
		if d.switches() >= 2 {
			c.NonTrivial()
		}
	})
}

// refRoot computes the directory from the entries.
func (d *dirMachine) refRoot(sharded bool) (cid.Cid, *vt.RefShard) {
	if sharded {
		r := d.m.HAMT(d.width, d.h)
		return r.Cid, r
	}
	k, _ := d.m.Basic(d.h)
	return k, nil
}

func TestD03(t *testing.T) {
	vt.Check(t, "random histories of additions, replacements, removals and reloads; the root CID is compared with the one computed independently from the entries at random points and at the end, and the blocks of sharded directories looked up in the store; non-trivial: at least three entries in the end, after a removal, a replacement or a change of form", func(rt *rapid.T, c *vt.C) {
		defer restoreDirOptions()()
		d := newDirs(rt, c, 16)
		d.start()
		mixed := false // sharded with parts that have different settings
		check := func() {
			nd, err := d.dir.GetNode()
			c.NoErr(err, "GetNode")
			sharded := nodeSharded(c, nd)
			if b := d.dir.GetCidBuilder(); b != nil {
				data := nd.RawData()
				k, err := b.WithCodec(cid.DagProtobuf).Sum(data)
				c.NoErr(err, "Sum of the builder of the directory")
				if want := d.h.Cid(cid.DagProtobuf, data); !k.Equals(want) {
					c.Fatalf("the builder of the directory makes %s, want %s", k, want)
				}
			} else if d.h.Builder != nil {
				c.Fatalf("the directory has lost its builder")
			}
			if d.thr != 0 {
				sharded = d.m.EstSize() >= d.thr
			}
			if !sharded {
				mixed = false
			}
			if mixed {
				if got, want := nd.Cid().Prefix(), d.h.Cid(cid.DagProtobuf, nil).Prefix(); got != want {
					c.Fatalf("the root has the prefix %v after SetCidBuilder, want %v", got, want)
				}
				d.form = append(d.form, sharded)
				return
			}
			want, ref := d.refRoot(sharded)
			if !nd.Cid().Equals(want) {
				c.Fatalf("the root is %s, want %s (sharded %v, %d entries)", nd.Cid(), want, sharded, len(d.m))
			}
			if ref != nil {
				ref.Walk(func(n *vt.RefShard) {
					if !d.s.Has(n.Cid) {
						c.Fatalf("shard %s at depth %d is not stored", n.Cid, n.Depth)
					}
				})
			}
			d.form = append(d.form, sharded)
		}
		n := rapid.IntRange(1, 40).Draw(rt, "steps")
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 9).Draw(rt, "step") {
			case 0:
				d.reload(d.s)
			case 1:
				check()
			case 2:
				b := rapid.SampledFrom(vt.Hashes).Draw(rt, "builder")
				// (Nodes of the DAG library keep a cached CID when the builder
				// becomes nil.)
				if b.Builder == nil || rapid.IntRange(0, 2).Draw(rt, "set") > 0 {
					continue
				}
				// The settings of a sharded directory only reach its root and
				// the parts made from now on.
				mixed = d.isSharded()
				d.dir.SetCidBuilder(b.Builder)
				d.h = b
				c.Logf("SetCidBuilder %s", b.Name)
				c.Label("SetCidBuilder")
				c.LabelIf(mixed, "SetCidBuilder when sharded")
			default:
				d.step(d.genOp())
				// Notice a change to basic: from then on all is new.
				mixed = mixed && d.isSharded()
			}
		}
		check()
		c.LabelIf(d.form[len(d.form)-1], "sharded")
		if len(d.m) >= 3 && (d.rms > 0 || d.adds > len(d.m) || d.switches() > 0) {
			c.NonTrivial()
		}
	})
}

// prepared makes a directory with a random mix of shards in memory and in
// storage.
func (d *dirMachine) prepared(steps int) {
	d.start()
	for i := rapid.IntRange(0, steps).Draw(d.rt, "steps"); i > 0; i-- {
		if rapid.IntRange(0, 9).Draw(d.rt, "reload") == 0 {
			d.reload(d.s)
			continue
		}
		d.step(d.genOp())
	}
	if rapid.Bool().Draw(d.rt, "reloadAtEnd") {
		d.reload(d.s)
		// Load part of it.
		for i := rapid.IntRange(0, 2).Draw(d.rt, "loads"); i > 0; i-- {
			d.step(d.op("find", d.genName(), nil))
		}
	}
}

func collect(ch <-chan ft.LinkResult) (links []*ipld.Link, err error) {
	for r := range ch {
		if r.Err != nil {
			err = r.Err
			continue
		}
		links = append(links, r.Link)
	}
	return links, err
}

// waitGoroutines waits until there are at most n goroutines.
func waitGoroutines(n int) bool {
	start := time.Now()
	for i := 0; ; i++ {
		if runtime.NumGoroutine() <= n {
			return true
		}
		if i < 100 {
			runtime.Gosched()
			continue
		}
		if time.Since(start) > hangLimit {
			shortenHangs()
			return false
		}
		time.Sleep(10 * time.Millisecond)
	}
}

var errStop = errors.New("stop")

// bigListing lists a directory of thousands of entries, in storage or (partly)
// in memory.
func bigListing(rt *rapid.T, c *vt.C) {
	c.NonTrivial()
	c.Label("thousands of entries")
	s, h := vt.NewStore(), vt.GenHash(rt)
	width := rapid.SampledFrom([]int{8, 16, 64, 256, 256, 1024}).Draw(rt, "width")
	kid := vt.Child(1)
	c.NoErr(s.Add(bg, kid), "Add")
	want := vt.Entries{}
	n := rapid.IntRange(300, 3000).Draw(rt, "entries")
	for i := 0; i < n; i++ {
		want[fmt.Sprintf("entry %d", i)] = vt.EntOf(kid)
	}
	uio.HAMTShardingSize, uio.DefaultShardWidth = 1, width
	r := putHAMT(s, want, width, h)
	dir, err := uio.NewDirectoryFromNode(s, get(s, r.Cid))
	c.NoErr(err, "NewDirectoryFromNode")
	mod := rapid.SampledFrom([]int{0, 1, 50, 500, 3000}).Draw(rt, "modified")
	for i := 0; i < mod; i++ {
		name := fmt.Sprintf("entry %d", (i*7919)%n)
		if i%3 == 0 {
			name += " new"
		}
		c.NoErr(dir.AddChild(bg, name, kid), "AddChild")
		want[name] = vt.EntOf(kid)
	}
	c.Logf("%d entries, width %d, %d modified", n, width, mod)
	check := func(w string, ls []*ipld.Link, err error) {
		c.NoErr(err, "%s", w)
		if diff := diffEntries(entriesOf(c, w, ls), want); diff != "" {
			c.Fatalf("%s of a directory of %d entries: %.500s", w, len(want), diff)
		}
	}
	for _, w := range rapid.Permutation([]string{"Links", "EnumLinksAsync", "ForEachLink"}).Draw(rt, "order") {
		switch w {
		case "Links":
			ls, err := dir.Links(bg)
			check(w, ls, err)
		case "EnumLinksAsync":
			ls, err := collect(dir.EnumLinksAsync(bg))
			check(w, ls, err)
		default:
			var ls []*ipld.Link
			err := dir.ForEachLink(bg, func(l *ipld.Link) error {
				cp := *l
				ls = append(ls, &cp)
				return nil
			})
			check(w, ls, err)
		}
	}
}

func TestD04(t *testing.T) {
	vt.Check(t, "directories of both forms, in memory, in storage or partly loaded, listed in all three ways; with failing callbacks, missing blocks, failing fetches, cancellation before or at the n-th fetch or entry, and asynchronous enumerations abandoned after n results, also while a fetch hangs; non-trivial: at least two entries and a disturbed listing of a sharded directory", func(rt *rapid.T, c *vt.C) {
		defer restoreDirOptions()()
		if rapid.IntRange(0, 400).Draw(rt, "big") == 400 {
			bigListing(rt, c)
			return
		}
		d := newDirs(rt, c, 20)
		d.prepared(20)
		s := d.s
		sharded := d.isSharded()
		want := d.m
		lists := map[string]func(ctx context.Context) ([]*ipld.Link, error){
			"Links": func(ctx context.Context) ([]*ipld.Link, error) { return d.dir.Links(ctx) },
			"ForEachLink": func(ctx context.Context) (ls []*ipld.Link, err error) {
				err = d.dir.ForEachLink(ctx, func(l *ipld.Link) error {
					cp := *l
					ls = append(ls, &cp)
					return nil
				})
				return ls, err
			},
			"EnumLinksAsync": func(ctx context.Context) ([]*ipld.Link, error) { return collect(d.dir.EnumLinksAsync(ctx)) },
		}
		ways := []string{"Links", "ForEachLink", "EnumLinksAsync"}
		all := func(what string) {
			for _, w := range ways {
				ls, err := lists[w](bg)
				c.NoErr(err, "%s: %s", what, w)
				if diff := diffEntries(entriesOf(c, w, ls), want); diff != "" {
					c.Fatalf("%s: %s: %s", what, w, diff)
				}
			}
		}
		disturbed := func(what, w string, ls []*ipld.Link, err error) {
			got := entriesOf(c, w, ls)
			for n, e := range got {
				if we, ok := want[n]; !ok || !we.Cid.Equals(e.Cid) || we.Size != e.Size {
					c.Fatalf("%s: %s listed %q = %v, want %v", what, w, n, e, we)
				}
			}
			if err == nil && len(got) != len(want) {
				c.Fatalf("%s: %s listed %d of %d entries without an error", what, w, len(got), len(want))
			}
			c.LabelIf(err != nil, what+": error")
			c.LabelIf(err == nil, what+": complete")
		}
		if rapid.Bool().Draw(rt, "listFirst") {
			all("undisturbed")
		}
		base := runtime.NumGoroutine()
		for i := rapid.IntRange(1, 3).Draw(rt, "listings"); i > 0; i-- {
			kind := rapid.SampledFrom([]string{"callback", "missing", "fault", "cancelled", "cancel at fetch", "cancel at entry", "abandon"}).Draw(rt, "disturbance")
			c.Logf("%s", kind)
			if rapid.IntRange(0, 2).Draw(rt, "fresh") > 0 {
				d.reload(s)
			}
			if sharded && len(want) >= 2 {
				c.NonTrivial()
			}
			w := rapid.SampledFrom(ways).Draw(rt, "way")
			nth := rapid.OneOf(rapid.IntRange(0, 2), rapid.IntRange(0, 20)).Draw(rt, "nth")
			switch kind {
			case "callback":
				calls := 0
				err := d.dir.ForEachLink(bg, func(l *ipld.Link) error {
					calls++
					if calls > nth {
						return errStop
					}
					return nil
				})
				if nth >= len(want) {
					c.NoErr(err, "ForEachLink")
				} else if err != errStop {
					c.Fatalf("ForEachLink returned %v instead of the error of the callback", err)
				}
				if w := min(nth+1, len(want)); calls != w {
					c.Fatalf("the callback was called %d times, want %d", calls, w)
				}
			case "missing":
				if !sharded {
					continue
				}
				var shards []cid.Cid
				want.HAMT(d.width, d.h).Walk(func(n *vt.RefShard) { shards = append(shards, n.Cid) })
				k := shards[nth%len(shards)]
				s.SetMissing(k, true)
				ls, err := lists[w](bg)
				s.Heal()
				disturbed("missing", w, ls, err)
			case "fault":
				left := nth
				ferr := genErr(rt)
				s.SetOnGet(func(cid.Cid) error {
					if left--; left < 0 {
						return ferr
					}
					return nil
				})
				ls, err := lists[w](bg)
				s.Heal()
				disturbed("fault", w, ls, err)
			case "cancelled":
				ctx, cancel := context.WithCancel(bg)
				cancel()
				ls, err := lists[w](ctx)
				if w == "EnumLinksAsync" && err == nil {
					err = ctx.Err()
				}
				disturbed("cancelled", w, ls, err)
			case "cancel at fetch":
				ctx, cancel := context.WithCancel(bg)
				left := nth
				s.SetOnGet(func(cid.Cid) error {
					if left--; left < 0 {
						cancel()
					}
					return nil
				})
				ls, err := lists[w](ctx)
				s.Heal()
				if w == "EnumLinksAsync" && err == nil {
					err = ctx.Err()
				}
				cancel()
				disturbed("cancel at fetch", w, ls, err)
			case "cancel at entry":
				ctx, cancel := context.WithCancel(bg)
				var ls []*ipld.Link
				err := d.dir.ForEachLink(ctx, func(l *ipld.Link) error {
					if len(ls) == nth {
						cancel()
					}
					cp := *l
					ls = append(ls, &cp)
					return nil
				})
				cancel()
				disturbed("cancel at entry", "ForEachLink", ls, err)
			case "abandon":
				ctx, cancel := context.WithCancel(bg)
				hang := false
				if sharded && rapid.Bool().Draw(rt, "hang") {
					var shards []cid.Cid
					want.HAMT(d.width, d.h).Walk(func(n *vt.RefShard) { shards = append(shards, n.Cid) })
					s.SetMissing(shards[len(shards)-1], true)
					s.SetHang(true, nil)
					hang = true
				}
				ch := d.dir.EnumLinksAsync(ctx)
				var ls []*ipld.Link
				seen := 0
				if !hang {
					for seen < nth {
						r, ok := <-ch
						if !ok {
							break
						}
						c.NoErr(r.Err, "EnumLinksAsync")
						ls = append(ls, r.Link)
						seen++
					}
				}
				if seen == nth || hang {
					if rapid.Bool().Draw(rt, "yield") {
						runtime.Gosched()
					}
				}
				cancel()
				if rapid.Bool().Draw(rt, "drain") {
					timeout := time.After(hangLimit)
				drain:
					for {
						select {
						case r, ok := <-ch:
							if !ok {
								break drain
							}
							if r.Err == nil {
								ls = append(ls, r.Link)
							}
						case <-timeout:
							shortenHangs()
							c.Fatalf("the enumeration does not end after its context was cancelled (hanging fetch: %v)", hang)
						}
					}
				}
				if !waitGoroutines(base) {
					c.Fatalf("the enumeration leaves goroutines behind after its context was cancelled (hanging fetch: %v)", hang)
				}
				s.Heal()
				s.SetHang(false, nil)
				disturbed("abandoned", "EnumLinksAsync", ls, context.Canceled)
			}
		}
		all("at the end")
	})
}

func TestD05(t *testing.T) {
	vt.Check(t, "directories of both forms, in memory, in storage or partly loaded, on which operations are disturbed by failing fetches or stores (once or persistently) or by cancelling the context before or at the n-th access; the error, the entries afterwards and the result of the repetition are checked; non-trivial: an operation failed because of an injected fault", func(rt *rapid.T, c *vt.C) {
		defer restoreDirOptions()()
		d := newDirs(rt, c, 16)
		d.prepared(16)
		for i := rapid.IntRange(1, 8).Draw(rt, "faults"); i > 0; i-- {
			switch rapid.IntRange(0, 5).Draw(rt, "between") {
			case 0:
				d.reload(d.s)
			case 1:
				d.step(d.genOp())
			}
			if rapid.IntRange(0, 3).Draw(rt, "node") == 0 {
				_, clear, what := genFault(rt, c, d.s, bg)
				nd, err := d.dir.GetNode()
				hits := clear()
				c.Logf("GetNode with fault %s: %v", what, err)
				if err != nil {
					if hits == 0 {
						c.Fatalf("GetNode failed without a fault: %v", err)
					}
					if errors.Is(err, os.ErrNotExist) {
						c.Fatalf("the failed GetNode returned %v", err)
					}
					c.NonTrivial()
					c.Label("failed: node")
					nd, err = d.dir.GetNode()
					c.NoErr(err, "GetNode once the fault is gone")
				}
				sharded := nodeSharded(c, nd)
				want, ref := d.refRoot(sharded)
				if !nd.Cid().Equals(want) {
					c.Fatalf("the root is %s, want %s (sharded %v)", nd.Cid(), want, sharded)
				}
				if ref != nil {
					ref.Walk(func(n *vt.RefShard) {
						if !d.s.Has(n.Cid) {
							c.Fatalf("shard %s at depth %d is not stored", n.Cid, n.Depth)
						}
					})
				}
				continue
			}
			o := d.genOp()
			_, present := d.m[o.entry]
			before := d.isSharded()
			ctx, clear, what := genFault(rt, c, d.s, bg)
			err := o.run(ctx)
			hits := clear()
			c.Logf("%s with fault %s: %v", o.name, what, err)
			switch {
			case err == nil:
				if !present && o.kind != "add" {
					c.Fatalf("%s of an absent name succeeded", o.kind)
				}
				o.done()
				c.LabelIf(hits > 0, "hidden fault")
			case hits == 0:
				o.check(err)
			case errors.Is(err, os.ErrNotExist) && (present || o.kind == "add"):
				c.Fatalf("%s failed because of a fault, but the error is %v", o.name, err)
			case errors.Is(err, os.ErrNotExist):
			default:
				c.NonTrivial()
				c.Label("failed: " + o.kind)
				if rapid.Bool().Draw(rt, "look") {
					d.mustList("after the failed " + o.name)
				}
				if rapid.Bool().Draw(rt, "lookAtForm") {
					if now := d.isSharded(); now != before {
						c.Fatalf("the failed %s changed the form to sharded = %v", o.name, now)
					}
				}
				o.check(o.run(bg))
			}
			d.mustList("after " + o.name)
			sharded, want := d.isSharded(), before
			if d.thr != 0 {
				want = d.m.EstSize() >= d.thr
			}
			if sharded != want {
				c.Fatalf("sharded: %v after %s, the estimated size of the %d entries is %d and the threshold %d", sharded, o.name, len(d.m), d.m.EstSize(), d.thr)
			}
		}
	})
}

func TestD06(t *testing.T) {
	vt.Check(t, "one to three directories loaded from the same node object (basic or sharded, fetched or built in memory) and edited independently with reloads and snapshots; after every step the source node, the snapshots and the other directories are compared with what they were; non-trivial: at least two changes to directories loaded from a node with entries", func(rt *rapid.T, c *vt.C) {
		defer restoreDirOptions()()
		d := newDirs(rt, c, 12)
		e := d.genEntries(len(d.names))
		sharded := rapid.Bool().Draw(rt, "sharded")
		if d.thr != 0 {
			sharded = e.EstSize() >= d.thr
		}
		var root cid.Cid
		if sharded {
			root = putAnyHAMT(rt, c, d.s, e, d.width, d.h).Cid
		} else {
			root = putBasic(d.s, e, d.h)
		}
		c.LabelIf(sharded, "sharded")
		src := get(d.s, root)
		c.Logf("source: sharded %v, %q", sharded, e.Names())
		type snap struct {
			*modSnap
			e vt.Entries
		}
		snaps := []snap{{newSnap(src, nil, "the source node"), e.Copy()}}
		before := d.s.Snapshot()
		var ms []*dirMachine
		load := func() {
			cp := *d
			cp.m = e.Copy()
			var err error
			cp.dir, err = uio.NewDirectoryFromNode(d.s, src)
			c.NoErr(err, "NewDirectoryFromNode")
			ms = append(ms, &cp)
		}
		load()
		changes := 0
		n := rapid.IntRange(1, 20).Draw(rt, "steps")
		for i := 0; i < n; i++ {
			if len(ms) < 3 && rapid.IntRange(0, 5).Draw(rt, "load") == 0 {
				c.Logf("load again")
				load()
			}
			k := rapid.IntRange(0, len(ms)-1).Draw(rt, "which")
			m := ms[k]
			c.Logf("directory %d", k)
			switch rapid.IntRange(0, 7).Draw(rt, "step") {
			case 0:
				nd, err := m.dir.GetNode()
				c.NoErr(err, "GetNode")
				if !nodeSharded(c, nd) {
					// This is the directory's own node.
					nd = nd.Copy()
					c.NoErr(d.s.Add(bg, nd), "Add")
				}
				c.Logf("snapshot")
				snaps = append(snaps, snap{newSnap(nd, nil, fmt.Sprintf("snapshot %d of directory %d", len(snaps), k)), m.m.Copy()})
			case 1:
				m.reload(m.s)
			case 2:
				b := rapid.SampledFrom(vt.Hashes).Draw(rt, "builder")
				if b.Builder != nil {
					m.dir.SetCidBuilder(b.Builder)
					c.Logf("SetCidBuilder %s", b.Name)
				}
			default:
				m.step(m.genOp())
				changes++
			}
			for _, sn := range snaps {
				sn.check(c)
			}
			for j, o := range ms {
				if j != k {
					o.mustList(fmt.Sprintf("directory %d after a step of directory %d", j, k))
				}
			}
		}
		for _, m := range ms {
			m.mustList("at the end")
		}
		for _, sn := range snaps {
			for _, nd := range []ipld.Node{sn.nd, get(d.s, sn.nd.Cid())} {
				dir, err := uio.NewDirectoryFromNode(d.s, nd)
				c.NoErr(err, "loading %s", sn.what)
				mustListDir(c, dir, sn.e, "listing "+sn.what)
			}
		}
		after := d.s.Snapshot()
		for k, v := range before {
			if after[k] != v {
				c.Fatalf("a stored block changed or disappeared")
			}
		}
		if changes >= 2 && len(e) > 0 {
			c.NonTrivial()
		}
	})
}

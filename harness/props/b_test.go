package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	"pgregory.net/rapid"

	ft "github.com/ipfs/go-unixfs"
	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	"github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"

	"github.com/ipfs/go-unixfs/verif/vt"
)

// hangLimit is how long an operation may take to end. It is far more than any
// needs; once one failed to end the others don't get that long, so that the
// case can be shrunk in reasonable time.
var (
	hangLimit = 40 * time.Second
	firstHang time.Time
)

func shortenHangs() {
	if firstHang.IsZero() {
		firstHang = time.Now()
	}
	hangLimit = 2 * time.Second
	if time.Since(firstHang) > 20*time.Second {
		hangLimit = time.Second / 2
	}
}

// within runs f, which has to end.
func within(c *vt.C, what string, f func()) {
	c.Helper()
	done := make(chan interface{}, 1)
	go func() {
		defer func() {
			p := recover()
			if p != nil {
				p = fmt.Sprintf("%v in %s\n%s", p, what, debug.Stack())
			}
			done <- p
		}()
		f()
	}()
	timer := time.NewTimer(hangLimit)
	defer timer.Stop()
	select {
	case p := <-done:
		if p != nil {
			panic(p)
		}
	case <-timer.C:
		shortenHangs()
		c.Fatalf("%s does not end", what)
	}
}

// mustQuiesce waits until the goroutines started since have ended.
func mustQuiesce(c *vt.C, base int, what string) {
	c.Helper()
	if !waitGoroutines(base) {
		c.Fatalf("goroutines are left behind after %s", what)
	}
}

// arm makes fetches of missing blocks wait and calls end once one does. The
// function returned tells whether it was called.
func arm(s *vt.Store, yields int, end func()) (ended func() bool) {
	var once sync.Once
	var called int32
	f := func() {
		once.Do(func() {
			for i := 0; i < yields; i++ {
				runtime.Gosched()
			}
			atomic.StoreInt32(&called, 1)
			end()
		})
	}
	s.SetHang(true, f)
	if s.Waiting() > 0 {
		// The operation may depend on a fetch that waits already.
		go f()
	}
	return func() bool { return atomic.LoadInt32(&called) == 1 }
}

// genMissing hides blocks.
func genMissing(rt *rapid.T, c *vt.C, s *vt.Store, from []cid.Cid) {
	if len(from) == 0 {
		return
	}
	if rapid.IntRange(0, 5).Draw(rt, "allMissing") == 0 {
		for _, k := range from {
			s.SetMissing(k, true)
		}
		c.Logf("all are missing")
		return
	}
	for i := rapid.IntRange(1, 3).Draw(rt, "missing"); i > 0; i-- {
		k := rapid.IntRange(0, len(from)-1).Draw(rt, "block")
		s.SetMissing(from[k], true)
		c.Logf("%s is missing", from[k])
	}
}

func blocksBelow(ref *vt.Ref) (all []cid.Cid) {
	ref.Walk(func(n *vt.Ref) {
		if n != ref && !n.Cid.Equals(ref.Cid) {
			all = append(all, n.Cid)
		}
	})
	return all
}

func TestR04(t *testing.T) {
	vt.Check(t, "file DAGs with blocks that never arrive, read (reads, context reads, write-outs, seeks) or edited with a modifier after some edits; as soon as a fetch waits the context of the operation, of the reader or of the modifier is cancelled, or the reader closed from another goroutine; the operation has to end, its result is compared with the file, and no goroutine may be left in the end; non-trivial: an operation failed because of this", func(rt *rapid.T, c *vt.C) {
		base := runtime.NumGoroutine()
		if rapid.IntRange(0, 3).Draw(rt, "modifier") == 0 {
			blockedModifier(rt, c, base)
			return
		}
		ref, _, content := genFileDAG(rt, c, 30)
		s := vt.NewStore()
		put(s, ref)
		s.Rand = rapid.Uint64().Draw(rt, "blockOrder")
		all := blocksBelow(ref)
		rctx, rcancel := context.WithCancel(bg)
		defer rcancel()
		root := get(s, ref.Cid)
		if rapid.IntRange(0, 9).Draw(rt, "metadata") == 0 && ref.Cid.Prefix().Codec == cid.DagProtobuf {
			c.Label("metadata root")
			root = proto([]vt.Link{{Name: "", Cid: ref.Cid, Tsize: ref.Tsize}}, (&vt.PB{Type: vt.PBMetadata, Data: []byte("\x0a\x01x")}).Encode(), vt.Hashes[0])
		}
		r, err := uio.NewDagReader(rctx, root, s)
		c.NoErr(err, "NewDagReader")
		closed, failed := false, false
		var cancels []func()
		var ends []func() bool
		borders := leafBorders(ref)
		for i := rapid.IntRange(1, 6).Draw(rt, "operations"); i > 0 && !closed; i-- {
			s.Heal()
			genMissing(rt, c, s, all)
			pos, err := r.Seek(0, io.SeekCurrent)
			c.NoErr(err, "telling the position")
			rest := content[min(int(min64(pos, 1<<30)), len(content)):]
			kind := rapid.SampledFrom([]string{"Read", "CtxReadFull", "CtxReadFull", "Seek", "WriteTo"}).Draw(rt, "op")
			how := rapid.SampledFrom([]string{"own", "own", "own", "reader", "Close"}).Draw(rt, "ends")
			if kind != "CtxReadFull" && how == "own" {
				how = "reader"
			}
			if kind == "CtxReadFull" {
				// It only depends on its own context.
				how = "own"
			}
			ctx, cancel := context.WithCancel(bg)
			cancels = append(cancels, cancel)
			end := cancel
			switch how {
			case "reader":
				end = rcancel
			case "Close":
				end = func() { r.Close() }
			}
			ended := arm(s, rapid.IntRange(0, 3).Draw(rt, "yields"), end)
			ends = append(ends, ended)
			n := rapid.OneOf(rapid.IntRange(1, 5), rapid.IntRange(1, len(content)+2)).Draw(rt, "length")
			off := genOffset(rt, len(content), borders, "offset")
			if off < 0 {
				off = 0
			}
			var got []byte
			complete, failedBefore := true, failed
			within(c, fmt.Sprintf("%s at %d, ended by %s", kind, pos, how), func() {
				switch kind {
				case "Read", "CtxReadFull":
					buf := make([]byte, n)
					var k int
					if kind == "Read" {
						k, err = r.Read(buf)
					} else {
						k, err = r.CtxReadFull(ctx, buf)
					}
					got = buf[:k]
					complete = k == n || k == len(rest)
					if err == io.EOF && complete {
						err = nil
					}
				case "Seek":
					_, err = r.Seek(off, io.SeekStart)
				case "WriteTo":
					var w bytes.Buffer
					_, err = r.WriteTo(&w)
					got = w.Bytes()
					complete = len(got) == len(rest)
				}
			})
			if err != nil || rapid.IntRange(0, 2).Draw(rt, "cancelAfter") == 0 {
				cancel()
				failed = true
			}
			c.Logf("%s(%d, %d) at %d, ended by %s: %d bytes, %v", kind, n, off, pos, how, len(got), err)
			if len(got) > len(rest) {
				c.Fatalf("%s at %d of %d returned %d bytes", kind, pos, len(content), len(got))
			}
			mustEqual(c, got, rest[:len(got)], kind)
			switch {
			case err == nil && !complete:
				c.Fatalf("%s at %d of %d returned %d bytes without an error", kind, pos, len(content), len(got))
			case err == io.EOF:
				c.Fatalf("%s at %d of %d returned %d bytes and end of file", kind, pos, len(content), len(got))
			case err != nil && !ended():
				// Blocks asked for by an operation that was cancelled may
				// still be marked as failed.
				for _, e := range ends {
					// The fetch of a block needed later may wait only after
					// the operation that asked for it.
					failedBefore = failedBefore || e()
				}
				if !failedBefore {
					c.Fatalf("%s failed without a reason: %v", kind, err)
				}
				c.Label("failed later")
			case err != nil:
				c.NonTrivial()
				c.Label("ended: " + kind + " by " + how)
			}
			closed = how != "own" && ended()
		}
		c.NoErr(r.Close(), "Close")
		for _, cancel := range cancels {
			cancel()
		}
		mustQuiesce(c, base, "Close")
	})
}

func blockedModifier(rt *rapid.T, c *vt.C, base int) {
	defer restoreWidth()()
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	m := newModCtx(ctx, rt, c)
	m.s.Rand = rapid.Uint64().Draw(rt, "blockOrder")
	for i := rapid.IntRange(0, 5).Draw(rt, "steps"); i > 0; i-- {
		m.step(m.genOp(rt, true))
	}
	op := m.genOp(rt, true)
	for i := 0; op.reject && i < 20; i++ {
		op = m.genOp(rt, true)
	}
	// Blocks may be on their way already, so they wait first.
	ended := arm(m.s, rapid.IntRange(0, 3).Draw(rt, "yields"), cancel)
	genMissing(rt, c, m.s, m.s.Cids())
	var err error
	within(c, op.name, func() { err = op.run() })
	c.Logf("%s: %v", op.name, err)
	c.Label("modifier")
	if err != nil {
		if !ended() && !op.reject {
			c.Fatalf("%s failed without a fault: %v", op.name, err)
		}
		if ended() {
			c.NonTrivial()
			c.Label("ended: modifier")
		}
	}
	cancel()
	mustQuiesce(c, base, "the context of the modifier was cancelled")
}

// listing is a way to list a directory or shard.
type listing struct {
	what string
	run  func(ctx context.Context) ([]*ipld.Link, error)
}

type lister interface {
	ForEachLink(ctx context.Context, f func(*ipld.Link) error) error
}

func forEach(ctx context.Context, l lister) (ls []*ipld.Link, err error) {
	err = l.ForEachLink(ctx, func(l *ipld.Link) error {
		cp := *l
		ls = append(ls, &cp)
		return nil
	})
	return ls, err
}

func TestD07(t *testing.T) {
	vt.Check(t, "directories, shards, path steps and file trees in storage with shards or children that never arrive; as soon as a fetch waits the context of the operation is cancelled; the operation has to end and not to claim that a name does not exist or a listing is complete, no goroutine may be left, and afterwards the entries are those of before and the operation succeeds; non-trivial: an operation failed because of this", func(rt *rapid.T, c *vt.C) {
		base := runtime.NumGoroutine()
		kind := rapid.SampledFrom([]string{"directory", "directory", "shard", "shard", "resolve", "tree"}).Draw(rt, "kind")
		c.Label(kind)
		var ended func() bool
		// blocked runs f, which has to end although blocks are missing.
		blocked := func(s *vt.Store, what string, f func(ctx context.Context) error) error {
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			ended = arm(s, rapid.IntRange(0, 3).Draw(rt, "yields"), cancel)
			genMissing(rt, c, s, s.Cids())
			var err error
			within(c, what, func() { err = f(ctx) })
			cancel()
			mustQuiesce(c, base, what)
			s.Heal()
			s.SetHang(false, nil)
			c.Logf("%s: %v, ended %v", what, err, ended())
			if err != nil && ended() {
				c.NonTrivial()
				c.Label("ended")
			}
			return err
		}
		listed := func(what string, ls []*ipld.Link, err error, want vt.Entries) {
			got := entriesOf(c, what, ls)
			for n, e := range got {
				if we, ok := want[n]; !ok || !we.Cid.Equals(e.Cid) || we.Size != e.Size {
					c.Fatalf("%s listed %q = %v, want %v", what, n, e, we)
				}
			}
			if err == nil && len(got) != len(want) {
				c.Fatalf("%s listed %d of %d entries without an error", what, len(got), len(want))
			}
			if err != nil && !ended() {
				c.Fatalf("%s failed without a fault: %v", what, err)
			}
		}
		switch kind {
		case "directory":
			defer restoreDirOptions()()
			d := newDirs(rt, c, 16)
			d.prepared(12)
			for i := rapid.IntRange(1, 4).Draw(rt, "operations"); i > 0; i-- {
				if rapid.Bool().Draw(rt, "reload") {
					d.reload(d.s)
				}
				if rapid.IntRange(0, 3).Draw(rt, "list") == 0 {
					var ls []*ipld.Link
					way := rapid.SampledFrom([]string{"Links", "ForEachLink", "EnumLinksAsync"}).Draw(rt, "way")
					err := blocked(d.s, way, func(ctx context.Context) (err error) {
						switch way {
						case "Links":
							ls, err = d.dir.Links(ctx)
						case "ForEachLink":
							ls, err = forEach(ctx, d.dir)
						case "EnumLinksAsync":
							if ls, err = collect(d.dir.EnumLinksAsync(ctx)); err == nil {
								err = ctx.Err()
							}
						}
						return err
					})
					listed(way, ls, err, d.m)
				} else {
					o := d.genOp()
					_, present := d.m[o.entry]
					err := blocked(d.s, o.name, o.run)
					switch {
					case err != nil && ended() && !errors.Is(err, os.ErrNotExist):
						if rapid.Bool().Draw(rt, "repeat") {
							o.check(o.run(bg))
						}
					case err != nil && ended() && (present || o.kind == "add"):
						c.Fatalf("%s was cancelled, but the error is %v", o.name, err)
					default:
						o.check(err)
					}
				}
				d.mustList("afterwards")
			}
		case "shard":
			d := newShards(rt, c, 16)
			d.start()
			for i := rapid.IntRange(0, 12).Draw(rt, "steps"); i > 0; i-- {
				d.genStep()
			}
			for i := rapid.IntRange(1, 4).Draw(rt, "operations"); i > 0; i-- {
				if rapid.IntRange(0, 3).Draw(rt, "reload") > 0 {
					d.reload()
				}
				op := rapid.SampledFrom([]string{"Find", "Set", "SetLink", "Swap", "Take", "Remove", "EnumLinks", "ForEachLink", "EnumLinksAsync"}).Draw(rt, "op")
				name := rapid.SampledFrom(d.names).Draw(rt, "name")
				kid := rapid.SampledFrom(d.kids).Draw(rt, "kid")
				old, present := d.m[name]
				var l *ipld.Link
				var ls []*ipld.Link
				what := fmt.Sprintf("%s(%q), present %v", op, name, present)
				err := blocked(d.s, what, func(ctx context.Context) (err error) {
					switch op {
					case "Find":
						l, err = d.sh.Find(ctx, name)
					case "Set":
						err = d.sh.Set(ctx, name, kid)
					case "SetLink":
						e := vt.EntOf(kid)
						err = d.sh.SetLink(ctx, name, &ipld.Link{Cid: e.Cid, Size: e.Size})
					case "Swap":
						l, err = d.sh.Swap(ctx, name, kid)
					case "Take":
						l, err = d.sh.Take(ctx, name)
					case "Remove":
						err = d.sh.Remove(ctx, name)
					case "EnumLinks":
						ls, err = d.sh.EnumLinks(ctx)
					case "ForEachLink":
						ls, err = forEach(ctx, d.sh)
					case "EnumLinksAsync":
						if ls, err = collect(d.sh.EnumLinksAsync(ctx)); err == nil {
							err = ctx.Err()
						}
					}
					return err
				})
				switch op {
				case "EnumLinks", "ForEachLink", "EnumLinksAsync":
					listed(what, ls, err, d.m)
				case "Find", "Take", "Remove":
					switch {
					case err == nil:
						if !present {
							c.Fatalf("%s succeeded", what)
						}
						if op != "Remove" {
							d.link(op, name, l, old, true)
						}
						if op != "Find" {
							delete(d.m, name)
						}
					case errors.Is(err, os.ErrNotExist):
						if present {
							c.Fatalf("%s returned %v", what, err)
						}
					case !ended():
						c.Fatalf("%s failed without a fault: %v", what, err)
					}
				default:
					if err == nil {
						if op == "Swap" {
							d.link(op, name, l, old, present)
						}
						d.m[name] = vt.EntOf(kid)
					} else if !ended() || errors.Is(err, os.ErrNotExist) {
						c.Fatalf("%s returned %v", what, err)
					}
				}
				d.mustList("afterwards")
			}
		case "resolve":
			d := newShards(rt, c, 20)
			d.fill(false)
			ref := putHAMT(d.s, d.m, d.width, d.h)
			nd := get(d.s, ref.Cid)
			for i := rapid.IntRange(1, 4).Draw(rt, "operations"); i > 0; i-- {
				name := rapid.SampledFrom(append([]string{"absent"}, d.names...)).Draw(rt, "name")
				e, present := d.m[name]
				var l *ipld.Link
				err := blocked(d.s, fmt.Sprintf("resolving %q", name), func(ctx context.Context) (err error) {
					l, _, err = uio.ResolveUnixfsOnce(ctx, d.s, nd, []string{name})
					return err
				})
				switch {
				case err == nil:
					if !present {
						c.Fatalf("the absent %q was resolved", name)
					}
					d.link("ResolveUnixfsOnce", name, l, e, true)
				case errors.Is(err, os.ErrNotExist) && present:
					c.Fatalf("resolving %q returned %v", name, err)
				case present && !ended():
					c.Fatalf("resolving %q failed without a fault: %v", name, err)
				}
			}
		case "tree":
			s := vt.NewStore()
			s.Rand = rapid.Uint64().Draw(rt, "blockOrder")
			tree := genTree(rt, c, s, vt.GenHash(rt), rapid.IntRange(1, 3).Draw(rt, "depth"), false, true)
			root := get(s, tree.ent.Cid)
			bad := ""
			blocked(s, "walking the tree", func(ctx context.Context) error {
				nd, err := unixfile.NewUnixfsFile(ctx, s, root)
				if err != nil {
					return err
				}
				bad, err = walkTree(tree, nd, "")
				return err
			})
			if bad != "" {
				c.Fatalf("%s", bad)
			}
		}
		mustQuiesce(c, base, "the end")
	})
}

// walkTree compares what can be read of a tree and returns the first
// difference and the first error.
func walkTree(t *utree, nd files.Node, path string) (bad string, err error) {
	switch n := nd.(type) {
	case files.Directory:
		if t.kind != "dir" {
			return fmt.Sprintf("%s is a directory", path), nil
		}
		seen := map[string]bool{}
		it := n.Entries()
		for it.Next() {
			k, ok := t.kids[it.Name()]
			if !ok || seen[it.Name()] {
				return fmt.Sprintf("%s lists %q (seen %v)", path, it.Name(), seen[it.Name()]), nil
			}
			seen[it.Name()] = true
			b, e := walkTree(k, it.Node(), path+"/"+it.Name())
			if b != "" {
				return b, nil
			}
			if err == nil {
				err = e
			}
		}
		if it.Err() == nil && len(seen) != len(t.kids) {
			return fmt.Sprintf("%s lists %d of %d entries without an error", path, len(seen), len(t.kids)), nil
		}
		if err == nil {
			err = it.Err()
		}
		return "", err
	case *files.Symlink:
		if t.kind != "link" || n.Target != t.target {
			return fmt.Sprintf("%s is a symlink to %q", path, n.Target), nil
		}
		return "", nil
	case files.File:
		b, err := io.ReadAll(n)
		if t.kind != "file" || len(b) > len(t.content) || !bytes.Equal(b, t.content[:len(b)]) || err == nil && len(b) != len(t.content) {
			return fmt.Sprintf("%s has content %x (%v)", path, b, err), nil
		}
		return "", err
	}
	return fmt.Sprintf("%s is a %T", path, nd), nil
}

// neededFor lists the blocks on the paths to the bytes [from, to), empty leaves
// in between included or not.
func neededFor(ref *vt.Ref, from, to uint64, empty bool) map[string]bool {
	need := map[string]bool{ref.Cid.KeyString(): true}
	var rec func(n *vt.Ref, at uint64) bool
	rec = func(n *vt.Ref, at uint64) bool {
		end := at + n.Size
		is := false
		if len(n.Kids) == 0 {
			is = at < to && end > from && n.Size > 0 || empty && n.Size == 0 && at >= from && at < to
		}
		for _, k := range n.Kids {
			is = rec(k, at) || is
			at += k.Size
		}
		if is {
			need[n.Cid.KeyString()] = true
		}
		return is
	}
	rec(ref, 0)
	return need
}

// hideAllBut makes all other blocks missing and tells how many.
func hideAllBut(s *vt.Store, need map[string]bool) int {
	n := 0
	for _, k := range s.Cids() {
		if !need[k.KeyString()] {
			s.SetMissing(k, true)
			n++
		}
	}
	return n
}

func TestR05(t *testing.T) {
	vt.Check(t, "file DAGs of which only the blocks on the paths to up to four ranges of bytes are in the store; the reader seeks to the start of each range and reads it, at once or in pieces; opening must fetch nothing besides the root, also that of a malformed DAG; non-trivial: at least one block is missing and no range starts at 0, or a malformed branch", func(rt *rapid.T, c *vt.C) {
		if rapid.IntRange(0, 7).Draw(rt, "malformed") == 0 {
			// Sizes that are missing or wrong are no reason to look at children.
			s := vt.NewStore()
			root, defects := genBadFile(rt, c, s, vt.GenHash(rt))
			node, err := s.Clone().Get(bg, root.cid)
			c.NoErr(err, "loading the root")
			if root.meta {
				return // its first child is the file
			}
			if defects > 0 && len(root.kids) > 0 {
				c.NonTrivial()
			}
			s.Heal()
			if rapid.Bool().Draw(rt, "hidden") {
				hideAllBut(s, nil)
			}
			s.GetCount = 0
			r, err := uio.NewDagReader(bg, node, s)
			if err == nil {
				defer r.Close()
				_ = r.Size()
				_, err = r.Seek(0, io.SeekStart)
				c.NoErr(err, "seeking to the start")
				_, err = r.Seek(0, io.SeekCurrent)
				c.NoErr(err, "asking for the position")
			}
			if s.GetCount != 0 {
				c.Fatalf("opening fetched %d blocks besides the root", s.GetCount)
			}
			return
		}
		ref, _, content := genFileDAG(rt, c, 30)
		s := vt.NewStore()
		put(s, ref)
		root := get(s, ref.Cid)
		s.Rand = rapid.Uint64().Draw(rt, "blockOrder")
		hideAllBut(s, nil)
		r, err := uio.NewDagReader(bg, root, s)
		c.NoErr(err, "opening with the root only")
		if s.GetCount != 0 {
			c.Fatalf("opening fetched %d blocks besides the root", s.GetCount)
		}
		defer r.Close()
		borders := leafBorders(ref)
		type span struct {
			from int64
			n    int
		}
		var spans []span
		need := map[string]bool{}
		first := int64(len(content))
		for i := rapid.IntRange(1, 4).Draw(rt, "ranges"); i > 0 && len(content) > 0; i-- {
			from := genOffset(rt, len(content), borders, "from")
			if from < 0 || from >= int64(len(content)) {
				from = int64(rapid.IntRange(0, len(content)-1).Draw(rt, "from2"))
			}
			n := rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(1, len(content))).Draw(rt, "length")
			if rapid.IntRange(0, 4).Draw(rt, "toEnd") == 0 {
				n = len(content)
			}
			if int(from)+n > len(content) {
				n = len(content) - int(from)
			}
			for k := range neededFor(ref, uint64(from), uint64(from)+uint64(n), true) {
				need[k] = true
			}
			spans = append(spans, span{from, n})
			first = min64(first, from)
		}
		s.Heal()
		hidden := hideAllBut(s, need)
		c.Logf("%v with %d blocks missing", spans, hidden)
		for _, sp := range spans {
			from, n := sp.from, sp.n
			_, err := r.Seek(from, io.SeekStart)
			c.NoErr(err, "Seek(%d)", from)
			buf := make([]byte, n)
			if rapid.Bool().Draw(rt, "pieces") {
				at := 0
				for at < n {
					k := rapid.IntRange(1, n-at).Draw(rt, "piece")
					_, err = r.CtxReadFull(bg, buf[at:at+k])
					c.NoErr(err, "reading %d at %d", k, int(from)+at)
					at += k
				}
			} else {
				_, err = io.ReadFull(r, buf)
				c.NoErr(err, "reading %d at %d", n, from)
			}
			mustEqual(c, buf, content[from:int(from)+n], "range")
		}
		if hidden > 0 && first > 0 {
			c.NonTrivial()
		}
	})
}

func TestM05(t *testing.T) {
	vt.Check(t, "files opened in a modifier of which only the blocks on the paths to the bytes overwritten, or those at the right edge for an append, are in the store; the write has to succeed and gives the expected content once the other blocks are back; non-trivial: at least one block is missing", func(rt *rapid.T, c *vt.C) {
		defer restoreWidth()()
		m := newMod(rt, c)
		size := len(m.b)
		appending := size == 0 || rapid.IntRange(0, 2).Draw(rt, "append") == 0
		data := m.genData(rt, "data")
		if len(data) == 0 {
			data = []byte{1}
		}
		off := size
		var need map[string]bool
		if appending {
			need = map[string]bool{}
			for n := m.ref; ; n = n.Kids[len(n.Kids)-1] {
				need[n.Cid.KeyString()] = true
				if len(n.Kids) == 0 {
					break
				}
			}
		} else {
			off = m.genPos(rt, "offset")
			if off >= size {
				off = rapid.IntRange(0, size-1).Draw(rt, "offset2")
			}
			if off+len(data) > size {
				data = data[:size-off]
			}
			need = neededFor(m.ref, uint64(off), uint64(off+len(data)), false)
		}
		c.LabelIf(appending, "append")
		hidden := hideAllBut(m.s, need)
		c.Logf("%d bytes (%x) at %d of %d with %d blocks missing", len(data), vt.Murmur(string(data)), off, size, hidden)
		if hidden > 0 {
			c.NonTrivial()
		}
		n, err := m.dm.WriteAt(append([]byte{}, data...), int64(off))
		c.NoErr(err, "WriteAt")
		if n != len(data) {
			c.Fatalf("WriteAt returned %d, want %d", n, len(data))
		}
		m.write(data, off)
		nd, err := m.dm.GetNode()
		c.NoErr(err, "GetNode")
		m.s.Heal()
		m.content(nd)
	})
}

func TestX02(t *testing.T) {
	vt.Check(t, "files, directories, shards and trees in storage, opened and read, listed, searched and resolved in random order, some with failing fetches or cancelled contexts; nothing may be stored or removed; non-trivial: at least three operations", func(rt *rapid.T, c *vt.C) {
		kind := rapid.SampledFrom([]string{"file", "modifier", "directory", "shard", "tree"}).Draw(rt, "kind")
		c.Label(kind)
		n := rapid.IntRange(1, 10).Draw(rt, "operations")
		if n >= 3 {
			c.NonTrivial()
		}
		var s *vt.Store
		var before map[string]string
		fault := func() (context.Context, func()) {
			if rapid.IntRange(0, 4).Draw(rt, "faulty") > 0 {
				return bg, func() {}
			}
			ctx, clear, what := genFault(rt, c, s, bg)
			c.Logf("with fault %s", what)
			return ctx, func() { clear() }
		}
		unchanged := func() {
			c.Helper()
			if s.AddCount != 0 {
				c.Fatalf("%d blocks were stored", s.AddCount)
			}
			after := s.Snapshot()
			if len(after) != len(before) {
				c.Fatalf("there were %d blocks, now %d", len(before), len(after))
			}
			for k, v := range before {
				if after[k] != v {
					c.Fatalf("a block changed or disappeared")
				}
			}
		}
		switch kind {
		case "file":
			ref, _, content := genFileDAG(rt, c, 20)
			s = vt.NewStore()
			put(s, ref)
			before = s.Snapshot()
			r, err := uio.NewDagReader(bg, get(s, ref.Cid), s)
			c.NoErr(err, "NewDagReader")
			defer r.Close()
			for ; n > 0; n-- {
				ctx, clear := fault()
				k := rapid.IntRange(0, len(content)+2).Draw(rt, "n")
				switch op := rapid.SampledFrom([]string{"read", "seek", "write"}).Draw(rt, "op"); op {
				case "read":
					r.CtxReadFull(ctx, make([]byte, k))
				case "seek":
					r.Seek(int64(k), io.SeekStart)
				case "write":
					r.WriteTo(io.Discard)
				}
				c.Logf("%d", k)
				clear()
			}
		case "modifier":
			defer restoreWidth()()
			m := newMod(rt, c)
			s = m.s
			before = s.Snapshot()
			for ; n > 0; n-- {
				ctx, clear := fault()
				k := rapid.IntRange(0, len(m.b)).Draw(rt, "n")
				op := rapid.SampledFrom([]string{"Read", "CtxReadFull", "Seek", "Size", "GetNode", "Sync", "HasChanges"}).Draw(rt, "op")
				c.Logf("%s %d", op, k)
				switch op {
				case "Read":
					m.dm.Read(make([]byte, k))
				case "CtxReadFull":
					m.dm.CtxReadFull(ctx, make([]byte, k))
				case "Seek":
					m.dm.Seek(int64(k), io.SeekStart)
				case "Size":
					m.dm.Size()
				case "GetNode":
					m.dm.GetNode()
				case "Sync":
					m.dm.Sync()
				case "HasChanges":
					if m.dm.HasChanges() {
						c.Fatalf("HasChanges without a change")
					}
				}
				clear()
			}
		case "directory", "shard":
			d := newShards(rt, c, 20)
			d.fill(true)
			s = d.s
			var root cid.Cid
			if kind == "shard" || rapid.Bool().Draw(rt, "sharded") {
				root = putHAMT(s, d.m, d.width, d.h).Cid
			} else {
				root = putBasic(s, d.m, d.h)
			}
			s.AddCount = 0
			before = s.Snapshot()
			nd := get(s, root)
			dir, err := uio.NewDirectoryFromNode(s, nd)
			c.NoErr(err, "NewDirectoryFromNode")
			var sh *hamt.Shard
			if kind == "shard" {
				sh, err = hamt.NewHamtFromDag(s, nd)
				c.NoErr(err, "NewHamtFromDag")
			}
			for ; n > 0; n-- {
				ctx, clear := fault()
				name := rapid.SampledFrom(d.names).Draw(rt, "name")
				op := rapid.SampledFrom([]string{"find", "find", "list", "each", "enum", "resolve", "absent"}).Draw(rt, "op")
				c.Logf("%s %q", op, name)
				switch op {
				case "find":
					if sh != nil {
						sh.Find(ctx, name)
					} else {
						dir.Find(ctx, name)
					}
				case "list":
					if sh != nil {
						sh.EnumLinks(ctx)
					} else {
						dir.Links(ctx)
					}
				case "each":
					if sh != nil {
						forEach(ctx, sh)
					} else {
						forEach(ctx, dir)
					}
				case "enum":
					if sh != nil {
						collect(sh.EnumLinksAsync(ctx))
					} else {
						collect(dir.EnumLinksAsync(ctx))
					}
				case "resolve":
					uio.ResolveUnixfsOnce(ctx, s, nd, []string{name, "x"})
				case "absent":
					if _, ok := d.m[name]; ok {
						break
					}
					// Removing what isn't there is no change either.
					if sh != nil {
						sh.Take(ctx, name)
					} else if !nodeSharded(c, nd) {
						dir.RemoveChild(ctx, name)
					}
				}
				clear()
			}
		case "tree":
			s = vt.NewStore()
			tree := genTree(rt, c, s, vt.GenHash(rt), rapid.IntRange(1, 3).Draw(rt, "depth"), false, true)
			before = s.Snapshot()
			for ; n > 0; n-- {
				ctx, clear := fault()
				ctx, cancel := context.WithCancel(ctx)
				if nd, err := unixfile.NewUnixfsFile(ctx, s, get(s, tree.ent.Cid)); err == nil {
					if bad, _ := walkTree(tree, nd, ""); bad != "" {
						c.Fatalf("%s", bad)
					}
				}
				cancel()
				clear()
			}
		}
		unchanged()
	})
}

// worker is one of several users of the same stored data. It has its own
// generator, as it runs next to the others.
type worker struct {
	r   *rand.Rand
	bad string
}

func (w *worker) failf(format string, a ...interface{}) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(format, a...)
	}
}

func (w *worker) err(err error, what string) bool {
	if err != nil {
		w.failf("%s: %v", what, err)
	}
	return err != nil || w.bad != ""
}

func (w *worker) step() {
	if w.r.Intn(3) == 0 {
		runtime.Gosched()
	}
}

func TestC01(t *testing.T) {
	vt.Check(t, "two to eight goroutines that use objects of their own over one store and the same node objects: readers, modifiers, directories of both forms, shards, path steps, file trees, imports, appends and encodings of metadata; each compares its results with its own model; run with the race detector; non-trivial: at least two goroutines work on a file with links or a directory with at least three entries", func(rt *rapid.T, c *vt.C) {
		defer restoreDirOptions()()
		defer restoreWidth()()
		helpers.DefaultLinksPerBlock = rapid.IntRange(2, 6).Draw(rt, "maxLinks")
		ref, cfg, content := genFileDAG(rt, c, 20)
		d := newShards(rt, c, 16)
		d.fill(false)
		s := d.s
		put(s, ref)
		root := get(s, ref.Cid)
		uio.DefaultShardWidth = d.width
		if rapid.Bool().Draw(rt, "threshold") {
			uio.HAMTShardingSize = d.m.EstSize() + rapid.IntRange(-40, 40).Draw(rt, "offThreshold")
			if uio.HAMTShardingSize < 1 {
				uio.HAMTShardingSize = 1
			}
		} else {
			uio.HAMTShardingSize = 0
		}
		sharded := get(s, putHAMT(s, d.m, d.width, d.h).Cid)
		basic := get(s, putBasic(s, d.m, d.h))
		chunks := vt.GenChunks(rt, 0, 12, 10, "import")
		want := cfg.DAG(chunks)
		verifyParams := trickle.VerifyParams{Getter: s, Direct: cfg.Width, LayerRepeat: 4, RawLeaves: cfg.Raw}
		before := s.Snapshot()

		// Every kind of use, told its own generator.
		pick := func(w *worker) string { return d.names[w.r.Intn(len(d.names))] }
		uses := map[string]func(w *worker){
			"reader": func(w *worker) {
				ctx, cancel := context.WithCancel(bg)
				defer cancel()
				for k := 1 + w.r.Intn(2); k > 0; k-- {
					r, err := uio.NewDagReader(ctx, root, s)
					if w.err(err, "NewDagReader") {
						return
					}
					w.reads(ctx, r, content)
					for i := w.r.Intn(3); i > 0; i-- {
						w.err(r.Close(), "Close")
					}
				}
			},
			"modifier": func(w *worker) {
				dm, err := mod.NewDagModifier(bg, root, s, chunker.SizeSplitterGen(int64(1+w.r.Intn(20))))
				if w.err(err, "NewDagModifier") {
					return
				}
				b := append([]byte{}, content...)
				for i := 0; i < 4; i++ {
					w.step()
					at := w.r.Intn(len(b) + 1)
					data := make([]byte, 1+w.r.Intn(20))
					w.r.Read(data)
					switch w.r.Intn(7) {
					case 0:
						if w.err(dm.Truncate(int64(at)), "Truncate") {
							return
						}
						b = b[:at]
					case 1, 2:
						if _, err := dm.Seek(int64(at), io.SeekStart); w.err(err, "Seek") {
							return
						}
						n, err := dm.CtxReadFull(bg, data)
						if err == io.EOF {
							err = nil
						}
						if w.err(err, "CtxReadFull") {
							return
						}
						if k := min(len(data), len(b)-at); n != k || !bytes.Equal(data[:n], b[at:at+n]) {
							w.failf("the modifier's %d bytes from %d of %d are %d bytes %s", len(data), at, len(b), n, short(data[:n]))
						}
					case 3:
						if n, err := dm.Size(); err != nil || n != int64(len(b)) {
							w.failf("the size is %d, %v, want %d", n, err, len(b))
						}
					default:
						if _, err := dm.WriteAt(data, int64(at)); w.err(err, "WriteAt") {
							return
						}
						b = append(b[:at:at], append(append([]byte{}, data...), b[min(len(b), at+len(data)):]...)...)
					}
				}
				nd, err := dm.GetNode()
				if w.err(err, "GetNode") {
					return
				}
				w.content(s, nd, b)
			},
			"append": func(w *worker) {
				nd, err := cfg.Append(s, root.Copy(), vt.NewChunks(chunks))
				if w.err(err, "Append") || w.err(s.Add(bg, nd), "Add") {
					return
				}
				w.content(s, nd, append(append([]byte{}, content...), vt.Join(chunks)...))
			},
			"metadata": func(w *worker) {
				for i := 0; i < 6; i++ {
					w.step()
					w.encodings()
				}
			},
			"shard": func(w *worker) {
				sh, err := hamt.NewHamtFromDag(s, sharded)
				if w.err(err, "NewHamtFromDag") {
					return
				}
				m := d.m.Copy()
				for i := 0; i < 6; i++ {
					w.step()
					name := pick(w)
					e, ok := m[name]
					switch w.r.Intn(5) {
					case 0:
						l, err := sh.Find(bg, name)
						if ok != (err == nil) || ok && !l.Cid.Equals(e.Cid) {
							w.failf("Find(%q) = %v, %v, want %v", name, l, err, e)
						}
					case 3:
						k := d.kids[w.r.Intn(len(d.kids))]
						l, err := sh.Swap(bg, name, k)
						if w.err(err, "Swap") {
							return
						}
						if ok != (l != nil) || ok && !l.Cid.Equals(e.Cid) {
							w.failf("Swap(%q) = %v, want %v", name, l, e)
						}
						m[name] = vt.EntOf(k)
					case 4:
						ls, err := sh.EnumLinks(bg)
						if w.err(err, "EnumLinks") {
							return
						}
						w.links(ls, m)
					case 1:
						k := d.kids[w.r.Intn(len(d.kids))]
						if w.err(sh.Set(bg, name, k), "Set") {
							return
						}
						m[name] = vt.EntOf(k)
					case 2:
						if err := sh.Remove(bg, name); ok != (err == nil) {
							w.failf("Remove(%q), present %v: %v", name, ok, err)
						}
						delete(m, name)
					}
				}
				nd, err := sh.Node()
				if w.err(err, "Node") {
					return
				}
				if k := m.HAMT(d.width, d.h).Cid; !nd.Cid().Equals(k) {
					w.failf("the shard has the root %s, want %s", nd.Cid(), k)
				}
			},
			"directory": func(w *worker) {
				src := basic
				if w.r.Intn(2) == 0 {
					src = sharded
				}
				dir, err := uio.NewDirectoryFromNode(s, src)
				if w.err(err, "NewDirectoryFromNode") {
					return
				}
				m := d.m.Copy()
				for i := 0; i < 5; i++ {
					w.step()
					name := pick(w)
					e, ok := m[name]
					switch w.r.Intn(4) {
					case 0:
						nd, err := dir.Find(bg, name)
						if ok != (err == nil) || ok && !nd.Cid().Equals(e.Cid) {
							w.failf("Find(%q), present %v: %v", name, ok, err)
						}
					case 1:
						k := d.kids[w.r.Intn(len(d.kids))]
						if w.err(dir.AddChild(bg, name, k), "AddChild") {
							return
						}
						m[name] = vt.EntOf(k)
					case 2:
						if err := dir.RemoveChild(bg, name); ok != (err == nil) {
							w.failf("RemoveChild(%q), present %v: %v", name, ok, err)
						}
						delete(m, name)
					case 3:
						w.list(dir, m)
					}
				}
				w.list(dir, m)
			},
			"resolve": func(w *worker) {
				for i := 0; i < 4; i++ {
					w.step()
					src := basic
					if w.r.Intn(2) == 0 {
						src = sharded
					}
					name := pick(w)
					l, _, err := uio.ResolveUnixfsOnce(bg, s, src, []string{name})
					if e, ok := d.m[name]; ok != (err == nil) || ok && !l.Cid.Equals(e.Cid) {
						w.failf("resolving %q, present %v: %v, %v", name, ok, l, err)
					}
				}
			},
			"tree": func(w *worker) {
				ctx, cancel := context.WithCancel(bg)
				defer cancel()
				src := basic
				if w.r.Intn(2) == 0 {
					src = sharded
				}
				nd, err := unixfile.NewUnixfsFile(ctx, s, src)
				if w.err(err, "NewUnixfsFile") {
					return
				}
				seen := 0
				it := nd.(files.Directory).Entries()
				for it.Next() {
					w.step()
					if _, ok := d.m[it.Name()]; !ok {
						w.failf("the tree lists %q", it.Name())
					}
					seen++
				}
				if it.Err() != nil || seen != len(d.m) {
					w.failf("the tree lists %d of %d entries, %v", seen, len(d.m), it.Err())
				}
			},
			"import": func(w *worker) {
				nd, err := cfg.Import(s, vt.NewChunks(chunks))
				if w.err(err, "import") {
					return
				}
				if !nd.Cid().Equals(want.Cid) {
					w.failf("the import has the root %s, want %s", nd.Cid(), want.Cid)
				}
				if cfg.Trickle {
					w.err(trickle.VerifyTrickleDagStructure(nd, verifyParams), "VerifyTrickleDagStructure")
				}
			},
		}
		kinds := []string{"reader", "reader", "modifier", "shard", "directory", "directory", "resolve", "tree", "import", "append", "metadata"}
		n := rapid.IntRange(2, 8).Draw(rt, "goroutines")
		one := rapid.Bool().Draw(rt, "oneKind")
		var ws []*worker
		var names []string
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			kind := rapid.SampledFrom(kinds).Draw(rt, "use")
			if one && i > 0 {
				kind = names[0]
			}
			c.Label(kind)
			names = append(names, kind)
			w := &worker{r: rand.New(rand.NewSource(rapid.Int64().Draw(rt, "seed")))}
			ws = append(ws, w)
			use := uses[kind]
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				use(w)
			}()
		}
		c.Logf("%v, threshold %d, entries %q", names, uio.HAMTShardingSize, d.m.Names())
		if len(ref.Kids) > 0 || len(d.m) >= 3 {
			c.NonTrivial()
		}
		close(start)
		wg.Wait()
		for i, w := range ws {
			if w.bad != "" {
				c.Fatalf("goroutine %d (%s) of %v: %s", i, names[i], names, w.bad)
			}
		}
		after := s.Snapshot()
		for k, v := range before {
			if after[k] != v {
				c.Fatalf("a stored block changed or disappeared")
			}
		}
	})
}

// list compares a directory with the entries.
func (w *worker) list(dir uio.Directory, m vt.Entries) {
	var ls []*ipld.Link
	var err error
	switch w.r.Intn(3) {
	case 0:
		ls, err = dir.Links(bg)
	case 1:
		ls, err = forEach(bg, dir)
	case 2:
		ls, err = collect(dir.EnumLinksAsync(bg))
	}
	if w.err(err, "listing") {
		return
	}
	w.links(ls, m)
}

func (w *worker) links(ls []*ipld.Link, m vt.Entries) {
	got := vt.Entries{}
	for _, l := range ls {
		got[l.Name] = vt.Ent{Cid: l.Cid, Size: l.Size}
	}
	if diff := diffEntries(got, m); diff != "" || len(ls) != len(m) {
		w.failf("%d entries listed, want %d: %s", len(ls), len(m), diff)
	}
}

// reads uses a reader.
func (w *worker) reads(ctx context.Context, r uio.DagReader, content []byte) {
	pos := 0
	for i := 0; i < 5; i++ {
		w.step()
		rest := content[pos:]
		switch w.r.Intn(5) {
		case 0:
			at := w.r.Intn(len(content) + 1)
			off, whence := int64(at), io.SeekStart
			switch w.r.Intn(3) {
			case 0:
				off, whence = int64(at-pos), io.SeekCurrent
			case 1:
				off, whence = int64(at-len(content)), io.SeekEnd
			}
			n, err := r.Seek(off, whence)
			if w.err(err, "Seek") {
				return
			}
			if n != int64(at) {
				w.failf("seeking to %d returned %d", at, n)
			}
			pos = at
		case 1:
			var b bytes.Buffer
			n, err := r.WriteTo(&b)
			if w.err(err, "WriteTo") {
				return
			}
			if n != int64(len(rest)) || !bytes.Equal(b.Bytes(), rest) {
				w.failf("writing out from %d of %d: %d bytes %s", pos, len(content), n, short(b.Bytes()))
			}
			pos = len(content)
		default:
			buf := make([]byte, w.r.Intn(len(content)+2))
			f := func(b []byte) (int, error) { return r.CtxReadFull(ctx, b) }
			if w.r.Intn(2) == 0 {
				f = r.Read
			}
			n, err := f(buf)
			if err == io.EOF {
				err = nil
			}
			if w.err(err, "reading") {
				return
			}
			if k := min(len(buf), len(rest)); n != k || !bytes.Equal(buf[:n], rest[:n]) {
				w.failf("reading %d at %d of %d returned %d bytes %s", len(buf), pos, len(content), n, short(buf[:n]))
				return
			}
			pos += n
		}
	}
}

// content compares a stored file.
func (w *worker) content(s *vt.Store, nd ipld.Node, want []byte) {
	got, err := s.Flatten(nd.Cid())
	if w.err(err, "walking the result") {
		return
	}
	if !bytes.Equal(got, want) {
		w.failf("the result has %d bytes, want %d, different from %d on", len(got), len(want), firstDiff(got, want))
	}
}

// encodings encodes and decodes UnixFS nodes.
func (w *worker) encodings() {
	data := make([]byte, w.r.Intn(40))
	w.r.Read(data)
	size := uint64(len(data))
	pb := &vt.PB{Type: vt.PBFile, Data: data}
	var b []byte
	var err error
	switch w.r.Intn(5) {
	case 0:
		n := ft.NewFSNode(ft.TFile)
		n.SetData(data)
		for i := w.r.Intn(5); i > 0; i-- {
			bs := uint64(w.r.Intn(1 << 20))
			n.AddBlockSize(bs)
			pb.Blocksizes = append(pb.Blocksizes, bs)
			size += bs
		}
		b, err = n.GetBytes()
	case 1:
		b = ft.FilePBData(data, size)
	case 2:
		pb.Type = vt.PBRaw
		b = ft.WrapData(data)
	case 3:
		pb.Type = vt.PBSymlink
		b, err = ft.SymlinkData(string(data))
	case 4:
		m := &ft.Metadata{MimeType: "text/" + string(data), Size: size}
		mb, err := m.Bytes()
		if w.err(err, "Metadata.Bytes") {
			return
		}
		b, err = ft.BytesForMetadata(m)
		if w.err(err, "BytesForMetadata") {
			return
		}
		got, err := ft.MetadataFromBytes(b)
		if w.err(err, "MetadataFromBytes") {
			return
		}
		if *got != *m {
			w.failf("metadata %v became %v", m, got)
		}
		if f, err := ft.FSNodeFromBytes(b); err != nil || !bytes.Equal(f.Data(), mb) {
			w.failf("metadata contains %v, %v, want %x", f, err, mb)
		}
		return
	}
	if w.err(err, "encoding") {
		return
	}
	w.step()
	if pb.Type != vt.PBSymlink {
		pb.Filesize = &size
	}
	if want := pb.Encode(); !bytes.Equal(b, want) {
		w.failf("the encoding is %x, want %x", b, want)
		return
	}
	f, err := ft.FSNodeFromBytes(b)
	if w.err(err, "FSNodeFromBytes") {
		return
	}
	if !bytes.Equal(f.Data(), data) || f.NumChildren() != len(pb.Blocksizes) {
		w.failf("%x is decoded as %x, %v", b, f.Data(), f.BlockSizes())
	}
	if n, err := ft.DataSize(b); err != nil || n != size {
		w.failf("the size of %x is %d, %v, want %d", b, n, err, size)
	}
}

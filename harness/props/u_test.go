package props

import (
	"context"
	"fmt"
	"io"
	"runtime"
	"sync"
	"testing"

	cid "github.com/ipfs/go-cid"
	files "github.com/ipfs/go-ipfs-files"
	"pgregory.net/rapid"

	unixfile "github.com/ipfs/go-unixfs/file"

	"github.com/ipfs/go-unixfs/verif/vt"
)

// utree is a stored tree of directories, files and symlinks.
type utree struct {
	kind    string // "dir", "file", "link", "bad"
	ent     vt.Ent
	content []byte
	target  string
	kids    map[string]*utree
	width   int // 0 for a basic directory
	shard   *vt.RefShard
	bad     string
	ok      bool // nothing is wrong below it
	seek    int  // how far a file is sought
	again   int  // how often a directory is listed again
}

func (t *utree) entries() vt.Entries {
	e := vt.Entries{}
	for n, k := range t.kids {
		e[n] = k.ent
	}
	return e
}

// genTree generates and stores a tree.
func genTree(rt *rapid.T, c *vt.C, s *vt.Store, h vt.Hash, depth int, bad, top bool) *utree {
	t := &utree{ok: true}
	kinds := []string{"file", "file", "link"}
	if depth > 0 {
		kinds = append(kinds, "dir", "dir", "dir")
	}
	if bad {
		kinds = append(kinds, "bad")
	}
	t.kind = rapid.SampledFrom(kinds).Draw(rt, "kind")
	if top && rapid.IntRange(0, 4).Draw(rt, "anyRoot") > 0 {
		t.kind = "dir"
	}
	store := func(b []byte) {
		t.ent = vt.Ent{Cid: h.Cid(cid.DagProtobuf, b), Size: uint64(len(b))}
		s.PutRaw(t.ent.Cid, b)
	}
	switch t.kind {
	case "file":
		cfg := vt.Cfg{Width: rapid.IntRange(2, 4).Draw(rt, "fileWidth"), Raw: rapid.Bool().Draw(rt, "raw"), Hash: h, Trickle: rapid.Bool().Draw(rt, "trickle")}
		chunks := vt.GenChunks(rt, 0, 9, 6, "file")
		r := cfg.DAG(chunks)
		if rapid.IntRange(0, 5).Draw(rt, "rawType") == 0 {
			chunks = [][]byte{[]byte("raw type")}
			r = cfg.Leaf(chunks[0], vt.PBRaw)
		}
		put(s, r)
		t.ent, t.content = vt.Ent{Cid: r.Cid, Size: r.Tsize}, vt.Join(chunks)
		t.seek = rapid.IntRange(0, len(t.content)).Draw(rt, "seek")
		c.Logf("file of %d bytes, %s", len(t.content), r.Cid)
	case "link":
		t.target = rapid.SampledFrom([]string{"", "a", "../x/y", "/absolute", "\xff\x00", "a long target with spaces"}).Draw(rt, "target")
		store(vt.EncodeDagPB(nil, (&vt.PB{Type: vt.PBSymlink, Data: []byte(t.target), Filesize: vt.U64(uint64(len(t.target)))}).Encode()))
		c.Logf("symlink to %q", t.target)
	case "bad":
		t.ok = false
		t.bad = rapid.SampledFrom([]string{"missing", "undecodable", "nodata", "type", "shard", "metadata"}).Draw(rt, "bad")
		switch t.bad {
		case "missing":
			store(vt.EncodeDagPB(nil, (&vt.PB{Type: vt.PBFile, Data: []byte(fmt.Sprint("missing", depth))}).Encode()))
			s.SetMissing(t.ent.Cid, true)
		case "undecodable":
			store(vt.EncodeDagPB(nil, []byte{0x08, 0x02, 0x12, 0xff}))
		case "nodata":
			store(vt.EncodeDagPB(nil, nil))
		case "type":
			store(vt.EncodeDagPB(nil, (&vt.PB{Type: rapid.SampledFrom([]uint64{6, 7, 100}).Draw(rt, "badType")}).Encode()))
		case "shard":
			store(vt.EncodeDagPB(nil, (&vt.PB{Type: vt.PBHAMTShard, HashType: vt.U64(0x22), Fanout: vt.U64(rapid.SampledFrom([]uint64{0, 7, 2048}).Draw(rt, "badWidth"))}).Encode()))
		case "metadata":
			store(vt.EncodeDagPB(nil, (&vt.PB{Type: vt.PBMetadata, Data: []byte("\x0a\x01x")}).Encode()))
		}
		c.Logf("bad node: %s", t.bad)
	case "dir":
		if rapid.Bool().Draw(rt, "sharded") {
			t.width = rapid.SampledFrom(widths).Draw(rt, "width")
		}
		t.again = rapid.IntRange(0, 1).Draw(rt, "again")
		names := vt.GenNames(rt, 0, 7)
		if t.width > 0 {
			names = distinguishable(names, t.width)
		}
		t.kids = map[string]*utree{}
		c.Logf("directory of width %d: %q", t.width, names)
		for _, n := range names {
			k := genTree(rt, c, s, h, depth-1, bad, false)
			t.kids[n] = k
			t.ok = t.ok && k.ok
		}
		e := t.entries()
		size := uint64(0)
		for _, v := range e {
			size += v.Size
		}
		if t.width == 0 {
			k := putBasic(s, e, h)
			t.ent = vt.Ent{Cid: k, Size: size + uint64(len(s.Raw(k)))}
		} else {
			t.shard = putAnyHAMT(rt, c, s, e, t.width, h)
			t.ent = vt.Ent{Cid: t.shard.Cid, Size: t.shard.Tsize}
			if bad && len(t.shard.Subs) > 0 && rapid.IntRange(0, 3).Draw(rt, "missingShard") == 0 {
				for _, sub := range t.shard.Subs {
					s.SetMissing(sub.Cid, true)
				}
				c.Logf("sub-shards are missing")
			}
		}
	}
	return t
}

// mark finds the directories that lack a shard. Equal directories share their
// shards, and an empty directory may be the sub-shard of another.
func (t *utree) mark(s *vt.Store) {
	if t.kind == "dir" && s.Missing[t.ent.Cid.KeyString()] {
		t.kind, t.bad, t.ok = "bad", "missing", false
		return
	}
	for _, k := range t.kids {
		k.mark(s)
		t.ok = t.ok && k.ok
	}
	if t.shard != nil {
		t.shard.Walk(func(n *vt.RefShard) {
			if s.Missing[n.Cid.KeyString()] {
				t.bad = "missing shard"
				t.ok = false
			}
		})
	}
}

// compare verifies an opened node recursively.
func (t *utree) compare(c *vt.C, s *vt.Store, nd files.Node, at string, early bool) {
	c.Helper()
	size, err := nd.Size()
	c.NoErr(err, "%s: Size", at)
	switch t.kind {
	case "file":
		f, ok := nd.(files.File)
		if _, link := nd.(*files.Symlink); !ok || link {
			c.Fatalf("%s is a %T instead of a file", at, nd)
		}
		if size != int64(len(t.content)) {
			c.Fatalf("%s: the size is %d, want %d", at, size, len(t.content))
		}
		b, err := io.ReadAll(f)
		c.NoErr(err, "reading %s", at)
		mustEqual(c, b, t.content, at)
		off := t.seek
		n, err := f.Seek(int64(off), io.SeekStart)
		c.NoErr(err, "seeking in %s", at)
		if n != int64(off) {
			c.Fatalf("%s: Seek(%d) returned %d", at, off, n)
		}
		b, err = io.ReadAll(f)
		c.NoErr(err, "reading %s", at)
		mustEqual(c, b, t.content[off:], at+" after a seek")
		c.NoErr(f.Close(), "closing %s", at)
	case "link":
		l, ok := nd.(*files.Symlink)
		if !ok {
			c.Fatalf("%s is a %T instead of a symlink", at, nd)
		}
		if l.Target != t.target {
			c.Fatalf("%s: the target is %q, want %q", at, l.Target, t.target)
		}
		if size != int64(len(t.target)) {
			c.Fatalf("%s: the size is %d, want %d", at, size, len(t.target))
		}
	case "dir":
		d, ok := nd.(files.Directory)
		if !ok {
			c.Fatalf("%s is a %T instead of a directory", at, nd)
		}
		if size != int64(t.ent.Size) {
			c.Fatalf("%s: the size is %d, want %d", at, size, t.ent.Size)
		}
		for rounds := 1 + t.again; rounds > 0; rounds-- {
			it := d.Entries()
			seen := map[string]files.Node{}
			for it.Next() {
				n := it.Name()
				if _, dup := seen[n]; dup {
					c.Fatalf("%s: %q is listed twice", at, n)
				}
				k, ok := t.kids[n]
				if !ok {
					c.Fatalf("%s: there is no %q", at, n)
				}
				if k.kind == "bad" {
					c.Fatalf("%s/%q, which is %s, was opened", at, n, k.bad)
				}
				if it.Node() == nil {
					c.Fatalf("%s/%q has no node", at, n)
				}
				seen[n] = it.Node()
				if early {
					k.compare(c, s, it.Node(), at+"/"+n, early)
				}
			}
			err := it.Err()
			direct := t.bad == ""
			for _, k := range t.kids {
				direct = direct && k.kind != "bad"
			}
			if direct {
				c.NoErr(err, "iterating over %s", at)
			}
			if err == nil && len(seen) != len(t.kids) {
				c.Fatalf("%s: %d of %d entries were listed without an error", at, len(seen), len(t.kids))
			}
			if it.Next() {
				c.Fatalf("%s: Next returned true after the end", at)
			}
			if rounds == 1 && !early {
				for n, k := range t.kids {
					if nd := seen[n]; nd != nil {
						k.compareLater(c, s, nd, at+"/"+n)
					}
				}
			}
		}
		c.NoErr(d.Close(), "closing %s", at)
	}
}

func (t *utree) compareLater(c *vt.C, s *vt.Store, nd files.Node, at string) {
	c.Helper()
	t.compare(c, s, nd, at, false)
}

func (t *utree) count() (n int) {
	for _, k := range t.kids {
		n += k.count()
	}
	return n + 1
}

func TestU01(t *testing.T) {
	vt.Check(t, "stored trees of basic and sharded directories, files of both layouts and symlinks, in part with unreadable, unrecognised, malformed or missing nodes and shards, opened and compared recursively; also with the context cancelled; non-trivial: a directory with at least two entries", func(rt *rapid.T, c *vt.C) {
		s := vt.NewStore()
		h := vt.GenHash(rt)
		s.Rand = rapid.Uint64().Draw(rt, "blockOrder")
		bad := rapid.IntRange(0, 2).Draw(rt, "withBad") == 0
		tree := genTree(rt, c, s, h, rapid.IntRange(1, 3).Draw(rt, "depth"), bad, true)
		tree.mark(s)
		c.Label("root: " + tree.kind)
		c.LabelIf(!tree.ok, "something wrong")
		if len(tree.kids) >= 2 {
			c.NonTrivial()
		}
		c.LabelIf(tree.count() > 10, "more than ten nodes")
		if tree.kind == "bad" && tree.bad == "missing" {
			return
		}
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		nd, err := unixfile.NewUnixfsFile(ctx, s, get(s, tree.ent.Cid))
		if tree.kind == "bad" {
			if err == nil {
				c.Fatalf("a node that is neither file, directory nor symlink (%s) was opened", tree.bad)
			}
			return
		}
		c.NoErr(err, "NewUnixfsFile")
		tree.compare(c, s, nd, "", rapid.Bool().Draw(rt, "early"))
		if tree.kind == "dir" && rapid.IntRange(0, 2).Draw(rt, "cancel") == 0 {
			c.Label("cancelled")
			after := rapid.IntRange(0, len(tree.kids)).Draw(rt, "cancelAfter")
			it := nd.(files.Directory).Entries()
			seen := 0
			for {
				if seen == after {
					cancel()
				}
				if !it.Next() {
					break
				}
				seen++
			}
			c.Logf("cancelled after %d: %d entries, %v", after, seen, it.Err())
			if it.Err() == nil && seen != len(tree.kids) {
				c.Fatalf("after the cancellation %d of %d entries were listed without an error", seen, len(tree.kids))
			}
		}
	})
}

func TestU02(t *testing.T) {
	vt.Check(t, "iterators over one opened directory (mostly sharded, with sub-shards in storage), advanced in random interleavings by one goroutine or concurrently by up to eight, some abandoned half-way and some started anew; each is compared with the entries; run with the race detector; non-trivial: at least two iterators over a directory with at least three entries", func(rt *rapid.T, c *vt.C) {
		s := vt.NewStore()
		h := vt.GenHash(rt)
		s.Rand = rapid.Uint64().Draw(rt, "blockOrder")
		width := rapid.SampledFrom(append([]int{0}, widths...)).Draw(rt, "width")
		names := vt.GenNames(rt, 0, 14)
		for i := rapid.IntRange(0, 30).Draw(rt, "more"); i > 0; i-- {
			names = append(names, fmt.Sprintf("file %d", i))
		}
		if width > 0 {
			names = distinguishable(names, width)
		}
		e := vt.Entries{}
		contents := map[string]string{}
		for i, n := range names {
			b := []byte(fmt.Sprintf("content %d", i%7))
			k := vt.RawLeaf(b, h)
			c.NoErr(s.Add(bg, k), "Add")
			e[n] = vt.EntOf(k)
			contents[n] = string(b)
		}
		var root cid.Cid
		if width == 0 {
			root = putBasic(s, e, h)
		} else {
			r := putAnyHAMT(rt, c, s, e, width, h)
			root = r.Cid
			c.LabelIf(len(r.Subs) > 0, "sub-shards")
		}
		c.Logf("width %d, names %q", width, names)
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		nd, err := unixfile.NewUnixfsFile(ctx, s, get(s, root))
		c.NoErr(err, "NewUnixfsFile")
		dir := nd.(files.Directory)

		type iter struct {
			it    files.DirIterator
			seen  map[string]bool
			stop  int
			ended bool
			err   string
		}
		newIter := func(stop int) *iter { return &iter{it: dir.Entries(), seen: map[string]bool{}, stop: stop} }
		advance := func(i *iter) bool {
			if i.ended || len(i.seen) == i.stop {
				return false
			}
			if !i.it.Next() {
				i.ended = true
				if err := i.it.Err(); err != nil {
					i.err = err.Error()
				} else if len(i.seen) != len(e) {
					i.err = fmt.Sprintf("it ended after %d of %d entries", len(i.seen), len(e))
				}
				return false
			}
			n := i.it.Name()
			want, ok := contents[n]
			f, isFile := i.it.Node().(files.File)
			switch {
			case !ok:
				i.err = fmt.Sprintf("it listed %q", n)
			case i.seen[n]:
				i.err = fmt.Sprintf("it listed %q twice", n)
			case !isFile:
				i.err = fmt.Sprintf("%q is a %T", n, i.it.Node())
			default:
				b, err := io.ReadAll(f)
				if err != nil || string(b) != want {
					i.err = fmt.Sprintf("%q has content %q (%v), want %q", n, b, err, want)
				}
			}
			i.seen[n] = true
			return i.err == ""
		}
		stop := func() int {
			if rapid.IntRange(0, 3).Draw(rt, "abandon") == 0 {
				return rapid.IntRange(0, len(e)).Draw(rt, "abandonAfter")
			}
			return -1
		}
		k := rapid.IntRange(1, 8).Draw(rt, "iterators")
		if k >= 2 && len(e) >= 3 {
			c.NonTrivial()
		}
		check := func(its []*iter) {
			for j, i := range its {
				if i.err != "" {
					c.Fatalf("iterator %d of %d: %s", j, len(its), i.err)
				}
			}
		}
		if rapid.IntRange(0, 2).Draw(rt, "mode") == 0 {
			c.Label("interleaved")
			var its []*iter
			for len(its) < k {
				its = append(its, newIter(stop()))
				for n := rapid.IntRange(0, 6).Draw(rt, "advance"); n > 0; n-- {
					advance(its[rapid.IntRange(0, len(its)-1).Draw(rt, "which")])
				}
			}
			order := rapid.Uint64().Draw(rt, "order") | 1
			for left := true; left; {
				left = false
				for j := range its {
					order = order*6364136223846793005 + 1442695040888963407
					for n := order >> 62; n > 0; n-- {
						advance(its[j])
					}
					left = left || !its[j].ended && its[j].err == "" && len(its[j].seen) != its[j].stop
				}
			}
			c.Logf("%d iterators, order %d", k, order)
			check(its)
			return
		}
		c.Label("concurrent")
		its := make([]*iter, 2*k)
		var stops []int
		for range its {
			stops = append(stops, stop())
		}
		yield := rapid.Uint64().Draw(rt, "yield")
		c.Logf("%d goroutines, stops %v", k, stops)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for j := 0; j < k; j++ {
			j := j
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				// Two iterators one after the other.
				for _, n := range []int{j, j + k} {
					i := newIter(stops[n])
					its[n] = i
					y := yield + uint64(n)
					for advance(i) {
						if y = y*6364136223846793005 + 1; y>>63 == 1 {
							runtime.Gosched()
						}
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		check(its)
	})
}

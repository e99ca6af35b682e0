package props

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"sort"
	"testing"

	pi "github.com/ipfs/go-ipfs-posinfo"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	"pgregory.net/rapid"

	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	uio "github.com/ipfs/go-unixfs/io"

	"github.com/ipfs/go-unixfs/verif/vt"
)

// genNonDir generates a node that is not a directory; wellFormed tells
// whether it is a well-formed node of another type.
func genNonDir(rt *rapid.T, c *vt.C, s *vt.Store, h vt.Hash) (nd ipld.Node, kind string, wellFormed bool) {
	var links []vt.Link
	for i := rapid.IntRange(0, 3).Draw(rt, "links"); i > 0; i-- {
		raw := vt.RawLeaf([]byte{byte(i)}, h)
		s.PutRaw(raw.Cid(), raw.RawData())
		links = append(links, vt.Link{Name: rapid.SampledFrom([]string{"", "a", "b", "00", "00a"}).Draw(rt, "linkName"), Cid: raw.Cid(), Tsize: 1})
	}
	p := &vt.PB{}
	if rapid.Bool().Draw(rt, "withData") {
		p.Data = vt.Bytes(rt, rapid.IntRange(0, 8).Draw(rt, "dataLen"), "data")
	}
	if rapid.Bool().Draw(rt, "withSize") {
		p.Filesize = vt.U64(rapid.Uint64Range(0, 10).Draw(rt, "filesize"))
	}
	if rapid.IntRange(0, 3).Draw(rt, "withFanout") == 0 {
		p.Fanout, p.HashType = vt.U64(256), vt.U64(0x22)
	}
	kind = rapid.SampledFrom([]string{"file", "rawtype", "metadata", "symlink", "unknown", "undecodable", "nodata", "raw", "foreign", "shard"}).Draw(rt, "nonDir")
	switch kind {
	case "file":
		p.Type, wellFormed = vt.PBFile, true
	case "rawtype":
		p.Type, wellFormed = vt.PBRaw, true
	case "metadata":
		p.Type, wellFormed = vt.PBMetadata, true
	case "symlink":
		p.Type, wellFormed = vt.PBSymlink, true
	case "unknown":
		p.Type = uint64(rapid.IntRange(6, 300).Draw(rt, "typeNumber"))
	case "undecodable":
		return proto(links, rapid.SampledFrom([][]byte{{}, {0x12}, {0x08}, {0x12, 0x05, 1}, {0x08, 0x01, 0x12, 0x7f}, {0x08, 0x01, 0x20}, {0x20, 0x05}}).Draw(rt, "bytes"), h), kind, false
	case "nodata":
		return proto(links, nil, h), kind, false
	case "raw":
		return vt.RawLeaf(rapid.SampledFrom([][]byte{nil, {8, 1}, []byte("x")}).Draw(rt, "rawBytes"), h), kind, true
	case "foreign":
		dir := proto(links, (&vt.PB{Type: vt.PBDirectory}).Encode(), h)
		if rapid.Bool().Draw(rt, "posinfo") {
			return &pi.FilestoreNode{Node: dir}, kind, true
		}
		return &otherNode{dir}, kind, true
	case "shard": // of a width or hash function that does not exist
		p.Type = vt.PBHAMTShard
		p.Fanout, p.HashType = vt.U64(rapid.SampledFrom([]uint64{0, 1, 7, 24, 2048, 1 << 40, 1<<64 - 8}).Draw(rt, "badFanout")), vt.U64(0x22)
		if rapid.Bool().Draw(rt, "badHash") {
			p.Fanout, p.HashType = vt.U64(256), vt.U64(rapid.SampledFrom([]uint64{0, 0x12, 0x23, 1<<32 + 0x22}).Draw(rt, "hashType"))
		}
	}
	return proto(links, p.Encode(), h), kind, wellFormed
}

// lsEnt is an entry of an irregular directory.
type lsEnt struct {
	name string
	vt.Ent
}

func lsString(ls []lsEnt) string {
	o := make([]string, 0, len(ls))
	for _, l := range ls {
		o = append(o, fmt.Sprintf("%q %s %d", l.name, l.Cid, l.Size))
	}
	sort.Strings(o)
	return fmt.Sprint(o)
}

func TestD09(t *testing.T) {
	vt.Check(t, "nodes that are no directories (files, symlinks, metadata, unrecognised, undecodable, raw and foreign nodes, impossible shards) opened as directories, and basic directory nodes with repeated, empty and unsorted names, missing sizes, inline data and unknown fields, edited by random histories, in part with a switch to the sharded form; compared with a list of links; non-trivial: a directory with at least two entries and an operation, or a node that is not a directory and has links", func(rt *rapid.T, c *vt.C) {
		defer restoreDirOptions()()
		uio.HAMTShardingSize = 0
		s := vt.NewStore()
		h := vt.GenHash(rt)
		if rapid.IntRange(0, 2).Draw(rt, "nonDirectory") == 0 {
			nd, kind, wellFormed := genNonDir(rt, c, s, h)
			c.Label("not a directory: " + kind)
			c.Logf("%s %s of %d links", kind, nd.Cid(), len(nd.Links()))
			if len(nd.Links()) > 0 {
				c.NonTrivial()
			}
			uio.HAMTShardingSize = rapid.SampledFrom([]int{0, 1, 1000}).Draw(rt, "threshold")
			stored := s.Len()
			d, err := uio.NewDirectoryFromNode(s, nd)
			if err == nil {
				ls, lerr := d.Links(bg)
				c.Fatalf("%s was loaded as a directory of %d entries (%v)", kind, len(ls), lerr)
			}
			if wellFormed && !errors.Is(err, uio.ErrNotADir) {
				c.Fatalf("loading %s as a directory failed with %q, want %q", kind, err, uio.ErrNotADir)
			}
			if sh, err := hamt.NewHamtFromDag(s, nd); err == nil {
				_, lerr := sh.EnumLinks(bg)
				c.Fatalf("%s was loaded as a shard (%v)", kind, lerr)
			}
			if kind == "foreign" {
				if _, err := unixfile.NewUnixfsFile(bg, s, nd); err == nil {
					c.Fatalf("a node of an unknown kind was opened as a file tree")
				}
			}
			if s.Len() != stored {
				c.Fatalf("%d blocks were stored", s.Len()-stored)
			}
			return
		}
		// A directory with any links.
		names := append(vt.GenNames(rt, 1, 5), "", "a", "A")
		if rapid.Bool().Draw(rt, "noEmptyName") {
			names = append(names[:len(names)-3], "a", "A")
		}
		names = distinguishable(names, 8)
		kids := make([]ipld.Node, 4)
		for i := range kids {
			kids[i] = vt.RawLeaf([]byte{byte(i)}, h)
			c.NoErr(s.Add(bg, kids[i]), "Add")
		}
		var m []lsEnt
		for i := rapid.IntRange(0, 8).Draw(rt, "entries"); i > 0; i-- {
			e := lsEnt{rapid.SampledFrom(names).Draw(rt, "name"), vt.EntOf(rapid.SampledFrom(kids).Draw(rt, "child"))}
			if rapid.IntRange(0, 3).Draw(rt, "oddSize") == 0 {
				// (The sizes of a sharded directory's entries have to have a sum.)
				e.Size = rapid.SampledFrom([]uint64{0, 1, 1 << 40, 1 << 58}).Draw(rt, "size")
			}
			m = append(m, e)
		}
		p := &vt.PB{Type: vt.PBDirectory}
		if rapid.IntRange(0, 3).Draw(rt, "inline") == 0 {
			p.Data = []byte("inline")
		}
		if rapid.IntRange(0, 3).Draw(rt, "sized") == 0 {
			p.Filesize = vt.U64(7)
		}
		data := p.Encode()
		if rapid.IntRange(0, 3).Draw(rt, "unknownField") == 0 {
			data = append(data, 0x38, 0xa4, 0x03) // a mode
		}
		var links []vt.Link
		for _, e := range m {
			links = append(links, vt.Link{Name: e.name, Cid: e.Cid, Tsize: e.Size})
		}
		nd := proto(links, data, h)
		empty := false
		for _, n := range names {
			empty = empty || n == ""
		}
		maySwitch := !empty && rapid.Bool().Draw(rt, "maySwitch")
		if maySwitch {
			uio.HAMTShardingSize = rapid.IntRange(1, 400).Draw(rt, "threshold")
			uio.DefaultShardWidth = 8
		} else {
			uio.HAMTShardingSize = rapid.SampledFrom([]int{0, 1 << 30}).Draw(rt, "threshold")
		}
		c.Logf("directory %s, data %x, threshold %d: %s", nd.Cid(), data, uio.HAMTShardingSize, lsString(m))
		before := lsString(m)
		repeated := func() bool {
			seen := map[string]bool{}
			for _, e := range m {
				if seen[e.name] {
					return true
				}
				seen[e.name] = true
			}
			return false
		}
		c.LabelIf(repeated(), "repeated names")
		c.LabelIf(empty, "empty names")
		dir, err := uio.NewDirectoryFromNode(s, nd)
		c.NoErr(err, "NewDirectoryFromNode")
		listing := func(what string) {
			sharded := nodeSharded(c, mustNode(c, dir))
			for way := 0; way < 3; way++ {
				var got []lsEnt
				add := func(l *ipld.Link) error {
					got = append(got, lsEnt{l.Name, vt.Ent{Cid: l.Cid, Size: l.Size}})
					return nil
				}
				switch way {
				case 0:
					ls, err := dir.Links(bg)
					c.NoErr(err, "%s: Links", what)
					for _, l := range ls {
						_ = add(l)
					}
				case 1:
					c.NoErr(dir.ForEachLink(bg, add), "%s: ForEachLink", what)
				case 2:
					ls, err := collect(dir.EnumLinksAsync(bg))
					c.NoErr(err, "%s: EnumLinksAsync", what)
					for _, l := range ls {
						_ = add(l)
					}
				}
				if sharded && repeated() {
					// Entries of the same name can't be told apart in this form: one
					// of each stays.
					byName := map[string]lsEnt{}
					for _, g := range got {
						if _, ok := byName[g.name]; ok {
							c.Fatalf("%s: %q is listed twice in a sharded directory", what, g.name)
						}
						byName[g.name] = g
					}
					for _, e := range m {
						if _, ok := byName[e.name]; !ok {
							c.Fatalf("%s: %q is missing: %s, want %s", what, e.name, lsString(got), lsString(m))
						}
					}
					for _, g := range got {
						ok := false
						for _, e := range m {
							ok = ok || e.name == g.name && e.Cid.Equals(g.Cid) && e.Size == g.Size
						}
						if !ok {
							c.Fatalf("%s: %q is none of the entries", what, g.name)
						}
					}
					// From now on these are the entries.
					m = got
					return
				}
				if a, b := lsString(got), lsString(m); a != b {
					c.Fatalf("%s, listing %d: %s, want %s", what, way, a, b)
				}
			}
		}
		listing("after loading")
		ops := rapid.IntRange(0, 10).Draw(rt, "ops")
		if len(m) >= 2 && ops > 0 {
			c.NonTrivial()
		}
		for ; ops > 0; ops-- {
			name := rapid.SampledFrom(names).Draw(rt, "opName")
			var of []lsEnt
			for _, e := range m {
				if e.name == name {
					of = append(of, e)
				}
			}
			without := func() (out []lsEnt) {
				for _, e := range m {
					if e.name != name {
						out = append(out, e)
					}
				}
				return
			}
			switch rapid.SampledFrom([]string{"add", "add", "remove", "find", "reload"}).Draw(rt, "op") {
			case "add":
				kid := rapid.SampledFrom(kids).Draw(rt, "kid")
				c.Logf("add %q %s", name, kid.Cid())
				c.NoErr(dir.AddChild(bg, name, kid), "AddChild(%q)", name)
				m = append(without(), lsEnt{name, vt.EntOf(kid)})
				listing(fmt.Sprintf("after adding %q", name))
			case "remove":
				c.Logf("remove %q", name)
				err := dir.RemoveChild(bg, name)
				if len(of) == 0 {
					if !errors.Is(err, os.ErrNotExist) {
						c.Fatalf("removing the absent %q: %v", name, err)
					}
				} else {
					c.NoErr(err, "RemoveChild(%q)", name)
				}
				m = without()
				listing(fmt.Sprintf("after removing %q", name))
			case "find":
				n, err := dir.Find(bg, name)
				if len(of) == 0 {
					if !errors.Is(err, os.ErrNotExist) {
						c.Fatalf("finding the absent %q: %v", name, err)
					}
					break
				}
				c.NoErr(err, "Find(%q)", name)
				ok := false
				for _, e := range of {
					ok = ok || e.Cid.Equals(n.Cid())
				}
				if !ok {
					c.Fatalf("Find(%q) gave %s", name, n.Cid())
				}
			case "reload":
				n := mustNode(c, dir)
				c.NoErr(s.Add(bg, n), "Add")
				c.Logf("reload %s", n.Cid())
				dir, err = uio.NewDirectoryFromNode(s, get(s, n.Cid()))
				c.NoErr(err, "loading again")
				listing("after reloading")
			}
			if n := mustNode(c, dir); !nodeSharded(c, n) && !maySwitch {
				if d := n.(*mdag.ProtoNode).Data(); !bytes.Equal(d, data) {
					c.Fatalf("the directory's own data is %x, want %x", d, data)
				}
			}
		}
		var now []lsEnt
		for _, l := range nd.Links() {
			now = append(now, lsEnt{l.Name, vt.Ent{Cid: l.Cid, Size: l.Size}})
		}
		if lsString(now) != before {
			c.Fatalf("the source node was changed to %s", lsString(now))
		}
	})
}

func mustNode(c *vt.C, d uio.Directory) ipld.Node {
	c.Helper()
	n, err := d.GetNode()
	c.NoErr(err, "GetNode")
	return n
}

package props

import (
	"context"
	"errors"
	"fmt"
	"testing"

	hamt "github.com/ipfs/go-unixfs/hamt"
	uio "github.com/ipfs/go-unixfs/io"

	"github.com/ipfs/go-unixfs/verif/vt"
)

// regEntries are n entries.
func regEntries(s *vt.Store, n int) vt.Entries {
	e := vt.Entries{}
	for i := 0; i < n; i++ {
		k := vt.Child(i)
		s.Add(bg, k)
		e[fmt.Sprintf("entry %d", i)] = vt.EntOf(k)
	}
	return e
}

func TestReg_D02_SwitchBack(t *testing.T) {
	defer restoreDirOptions()()
	s := vt.NewStore()
	e := regEntries(s, 3)
	uio.HAMTShardingSize = e.EstSize() + 1
	dir, err := uio.NewDirectoryFromNode(s, get(s, putBasic(s, e, hashNamed("nil"))))
	ok(t, err)
	for i := 0; i < 2; i++ {
		ok(t, dir.AddChild(bg, "one more", vt.Child(7)))
		nd, err := dir.GetNode()
		ok(t, err)
		want, _ := e.Basic(hashNamed("nil"))
		if nd.Cid().Equals(want) {
			t.Fatal("the entry was not added")
		}
		ok(t, dir.RemoveChild(bg, "one more"))
		nd, err = dir.GetNode()
		ok(t, err)
		if !nd.Cid().Equals(want) {
			t.Fatal("not a basic directory after the entry was removed again")
		}
	}
}

func TestReg_D05_Cancelled(t *testing.T) {
	defer restoreDirOptions()()
	s := vt.NewStore()
	e := regEntries(s, 40)
	ref := putHAMT(s, e, 8, hashNamed("nil"))
	ctx, cancel := context.WithCancel(bg)
	cancel()
	for i := 0; i < 20; i++ {
		dir, err := uio.NewDirectoryFromNode(s, get(s, ref.Cid))
		ok(t, err)
		if links, err := dir.Links(ctx); !errors.Is(err, context.Canceled) && len(links) != len(e) {
			t.Fatalf("a cancelled listing returned %d of %d entries and %v", len(links), len(e), err)
		}
	}
}

func TestReg_H03_Malformed(t *testing.T) {
	h := hashNamed("nil")
	child := vt.Link{Name: "0a", Cid: vt.Child(0).Cid(), Tsize: 10}
	shard := func(bitfield []byte, links ...vt.Link) []byte {
		p := &vt.PB{Type: vt.PBHAMTShard, Data: bitfield, HashType: vt.U64(hamt.HashMurmur3), Fanout: vt.U64(8)}
		return vt.EncodeDagPB(links, p.Encode())
	}
	for what, b := range map[string][]byte{
		"bitfield too large":   shard(make([]byte, 200)),
		"more bits than links": shard([]byte{3}, child),
		"more links than bits": shard([]byte{1}, child, child),
		"no link":              shard([]byte{1}),
	} {
		s := vt.NewStore()
		ok(t, s.Add(bg, vt.Child(0)))
		n := decodeNode(h.Cid(0x70, b), b)
		if _, err := hamt.NewHamtFromDag(s, n); err == nil {
			t.Errorf("%s: accepted", what)
		}
	}
	// A name that is shorter than the prefix.
	s := vt.NewStore()
	b := shard([]byte{1}, vt.Link{Name: "", Cid: vt.Child(0).Cid(), Tsize: 10})
	sh, err := hamt.NewHamtFromDag(s, decodeNode(h.Cid(0x70, b), b))
	if err != nil {
		return
	}
	if _, err := sh.Node(); err == nil {
		t.Error("a link without a prefix was written out")
	}
}

func TestReg_H03_Sizes(t *testing.T) {
	// A shard whose entries' sizes overflow together can't be linked to.
	h := hashNamed("nil")
	s := vt.NewStore()
	ok(t, s.Add(bg, vt.Child(0)))
	shard := func(tsize uint64, positions ...int) []byte {
		p := &vt.PB{Type: vt.PBHAMTShard, Data: []byte{0}, HashType: vt.U64(hamt.HashMurmur3), Fanout: vt.U64(8)}
		var links []vt.Link
		for _, i := range positions {
			p.Data[0] |= 1 << i
			links = append(links, vt.Link{Name: fmt.Sprintf("%Xa%d", i, i), Cid: vt.Child(0).Cid(), Tsize: tsize})
		}
		return vt.EncodeDagPB(links, p.Encode())
	}
	b := shard(1<<62, 1, 2, 3)
	sh, err := hamt.NewHamtFromDag(s, decodeNode(h.Cid(0x70, b), b))
	ok(t, err)
	if _, err := sh.Link(); err == nil {
		t.Error("made a link of a size that does not exist")
	}
	sh, err = hamt.NewShard(s, 8)
	ok(t, err)
	if err := sh.Set(bg, "a", decodeNode(h.Cid(0x70, b), b)); err == nil {
		_, err = sh.Node()
		if err == nil {
			t.Error("added an entry of a size that does not exist")
		}
	}
	dir := uio.NewDirectory(s)
	if err := dir.AddChild(bg, "a", decodeNode(h.Cid(0x70, b), b)); err == nil {
		t.Error("added an entry of a size that does not exist to a directory")
	}
}

func TestReg_X01_EmptyPath(t *testing.T) {
	s := vt.NewStore()
	e := regEntries(s, 5)
	for _, root := range []string{"basic", "sharded"} {
		c := putBasic(s, e, hashNamed("nil"))
		if root == "sharded" {
			c = putHAMT(s, e, 8, hashNamed("nil")).Cid
		}
		if _, _, err := uio.ResolveUnixfsOnce(bg, s, get(s, c), nil); err == nil {
			t.Fatalf("%s: resolved an empty path", root)
		}
	}
}

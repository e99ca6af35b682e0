package props

import (
	"errors"
	"io"
	"testing"

	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"

	"github.com/ipfs/go-unixfs/mod"

	"github.com/ipfs/go-unixfs/verif/vt"
)

// regMod opens a balanced file with chunks of 3 bytes for modification.
func regMod(t *testing.T, content string) (*vt.Store, *mod.DagModifier) {
	t.Helper()
	s := vt.NewStore()
	var chunks [][]byte
	for b := []byte(content); len(b) > 0; {
		n := min(3, len(b))
		chunks = append(chunks, b[:n])
		b = b[n:]
	}
	ref := vt.Cfg{Width: 3, Hash: hashNamed("nil")}.Balanced(chunks)
	put(s, ref)
	dm, err := mod.NewDagModifier(bg, get(s, ref.Cid), s, chunker.SizeSplitterGen(3))
	ok(t, err)
	return s, dm
}

func ok(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

func regContent(t *testing.T, s *vt.Store, dm *mod.DagModifier, want string) {
	t.Helper()
	nd, err := dm.GetNode()
	ok(t, err)
	b, err := s.Flatten(nd.Cid())
	ok(t, err)
	if string(b) != want {
		t.Fatalf("content is %q, want %q", b, want)
	}
}

func TestReg_M01_SeekEnd(t *testing.T) {
	_, dm := regMod(t, "0123456789")
	if n, err := dm.Seek(-3, io.SeekEnd); err != nil || n != 7 {
		t.Fatalf("Seek returned %d, %v", n, err)
	}
	b := make([]byte, 3)
	if n, err := dm.Read(b); n != 3 || err != nil || string(b) != "789" {
		t.Fatalf("read %q, %v", b[:n], err)
	}
}

func TestReg_M01_WriteAfterRead(t *testing.T) {
	s, dm := regMod(t, "0123456789")
	_, err := dm.Read(make([]byte, 4))
	ok(t, err)
	_, err = dm.Write([]byte("x"))
	ok(t, err)
	regContent(t, s, dm, "0123x56789")
}

func TestReg_M01_WriteAt(t *testing.T) {
	s, dm := regMod(t, "0123456789")
	for _, off := range []int64{2, 2, 7, 3} {
		_, err := dm.WriteAt([]byte("ab"), off)
		ok(t, err)
	}
	_, err := dm.WriteAt([]byte("xyz"), 3)
	ok(t, err)
	regContent(t, s, dm, "01axyz6ab9")
}

func TestReg_M01_Negative(t *testing.T) {
	s, dm := regMod(t, "0123456789")
	if _, err := dm.WriteAt([]byte("a"), -1); err == nil {
		t.Fatal("WriteAt accepted a negative offset")
	}
	if err := dm.Truncate(-1); err == nil {
		t.Fatal("Truncate accepted a negative size")
	}
	for w := 0; w < 4; w++ {
		if _, err := dm.Seek(-11, w); err == nil {
			t.Fatalf("Seek(-11, %d) was accepted", w)
		}
	}
	regContent(t, s, dm, "0123456789")
}

func TestReg_M01_Extend(t *testing.T) {
	s, dm := regMod(t, "012345")
	_, err := dm.Read(make([]byte, 1))
	ok(t, err)
	ok(t, dm.Truncate(8))
	_, err = dm.WriteAt([]byte("ab"), 10)
	ok(t, err)
	_, err = dm.Seek(5, io.SeekStart)
	ok(t, err)
	b := make([]byte, 20)
	n, err := dm.CtxReadFull(bg, b)
	if err != nil && err != io.EOF || string(b[:n]) != "5\x00\x00\x00\x00ab" {
		t.Fatalf("read %q, %v", b[:n], err)
	}
	regContent(t, s, dm, "012345\x00\x00\x00\x00ab")
}

func TestReg_M01_AppendToLeaf(t *testing.T) {
	for _, base := range []ipld.Node{
		vt.RawLeaf([]byte("abc"), hashNamed("v1")),
		mdag.NodeWithData((&vt.PB{Type: vt.PBFile, Data: []byte("abc"), Filesize: vt.U64(3)}).Encode()),
	} {
		s := vt.NewStore()
		ok(t, s.Add(bg, base))
		dm, err := mod.NewDagModifier(bg, base, s, chunker.SizeSplitterGen(4))
		ok(t, err)
		_, err = dm.WriteAt([]byte("defghijklm"), 3)
		ok(t, err)
		regContent(t, s, dm, "abcdefghijklm")
	}
}

func TestReg_M02_Original(t *testing.T) {
	s, dm := regMod(t, "0123456789")
	nd, err := dm.GetNode()
	ok(t, err)
	link := *nd.Links()[0]
	_, err = dm.WriteAt([]byte("xyz"), 0)
	ok(t, err)
	regContent(t, s, dm, "xyz3456789")
	if !nd.Links()[0].Cid.Equals(link.Cid) {
		t.Fatal("the node returned earlier changed")
	}
}

func TestReg_M04_Sync(t *testing.T) {
	s, dm := regMod(t, "0123456789")
	_, err := dm.WriteAt([]byte("abcdefghijklm"), 5)
	ok(t, err)
	for i := 0; i < 20; i++ {
		left := i
		s.SetOnAdd(func(ipld.Node) error {
			if left--; left < 0 {
				return vt.ErrInjected
			}
			return nil
		})
		err := dm.Sync()
		s.Heal()
		if err == nil {
			break
		}
		if !errors.Is(err, vt.ErrInjected) {
			t.Fatal(err)
		}
		if n, err := dm.Size(); err != nil || n != 18 {
			t.Fatalf("Size is %d, %v", n, err)
		}
	}
	regContent(t, s, dm, "01234abcdefghijklm")
}

func TestReg_I04_Trickle(t *testing.T) {
	cfg := vt.Cfg{Width: 2, Trickle: true, Hash: hashNamed("nil")}
	var chunks [][]byte
	for i := 0; i < 60; i++ {
		chunks = append(chunks, []byte{byte(i)})
	}
	for n := 0; n < 60; n++ {
		s := vt.NewStore()
		ref := cfg.TrickleDAG(chunks[:n])
		put(s, ref)
		for _, k := range []int{n + 1, 60} {
			nd, err := cfg.Append(s, get(s, ref.Cid), vt.NewChunks(chunks[n:k]))
			ok(t, err)
			if want := cfg.TrickleDAG(chunks[:k]); !nd.Cid().Equals(want.Cid) {
				t.Fatalf("appending %d chunks to %d: another DAG than importing them at once", k-n, n)
			}
		}
	}
}

func TestReg_I04_Leaf(t *testing.T) {
	for _, raw := range []bool{false, true} {
		cfg := vt.Cfg{Width: 2, Raw: raw, Hash: hashNamed("v1")}
		s := vt.NewStore()
		ref := cfg.Leaf([]byte("abc"), vt.PBFile)
		put(s, ref)
		nd, err := cfg.Append(s, get(s, ref.Cid), vt.NewChunks([][]byte{[]byte("de"), []byte("f")}))
		ok(t, err)
		ok(t, s.Add(bg, nd))
		b, err := s.Flatten(nd.Cid())
		ok(t, err)
		if string(b) != "abcdef" {
			t.Fatalf("content is %q", b)
		}
	}
}

func TestReg_M06_Malformed(t *testing.T) {
	s := vt.NewStore()
	h := vt.Hashes[0]
	leaf := vt.Cfg{Hash: h}.Leaf([]byte("abc"), vt.PBFile)
	put(s, leaf)
	link := []vt.Link{{Cid: leaf.Cid, Tsize: leaf.Tsize}}
	for i, nd := range []*mdag.ProtoNode{
		proto(nil, (&vt.PB{Type: vt.PBFile, Data: []byte("ab"), Filesize: vt.U64(100)}).Encode(), h),
		proto(nil, (&vt.PB{Type: vt.PBFile, Filesize: vt.U64(10), Blocksizes: []uint64{5, 5}}).Encode(), h),
		proto(link, (&vt.PB{Type: vt.PBFile, Filesize: vt.U64(13), Blocksizes: []uint64{3, 10}}).Encode(), h),
		proto(link, (&vt.PB{Type: vt.PBFile, Filesize: vt.U64(50), Blocksizes: []uint64{50}}).Encode(), h),
		proto(link, (&vt.PB{Type: vt.PBFile, Filesize: vt.U64(1<<63 + 5), Blocksizes: []uint64{3}}).Encode(), h),
	} {
		for j, op := range []func(dm *mod.DagModifier) error{
			func(dm *mod.DagModifier) error {
				if _, err := dm.WriteAt([]byte("xyz"), 8); err != nil {
					return err
				}
				return dm.Sync()
			},
			func(dm *mod.DagModifier) error { return dm.Truncate(7) },
		} {
			dm, err := mod.NewDagModifier(bg, nd, s, chunker.SizeSplitterGen(5))
			ok(t, err)
			if err := op(dm); err == nil {
				t.Fatalf("operation %d on node %d succeeded", j, i)
			}
		}
	}
}

func TestReg_M06_Sizes(t *testing.T) {
	// A file whose blocks claim sizes that overflow together can't be linked to.
	s := vt.NewStore()
	h := vt.Hashes[0]
	leaf := vt.Cfg{Hash: h}.Leaf([]byte("abc"), vt.PBFile)
	put(s, leaf)
	big := proto([]vt.Link{{Cid: leaf.Cid, Tsize: 1 << 62}, {Cid: leaf.Cid, Tsize: 1 << 62}, {Cid: leaf.Cid, Tsize: 1 << 62}}, (&vt.PB{Type: vt.PBFile, Filesize: vt.U64(9), Blocksizes: []uint64{3, 3, 3}}).Encode(), h)
	ok(t, s.Add(bg, big))
	root := proto([]vt.Link{{Cid: big.Cid(), Tsize: 100}}, (&vt.PB{Type: vt.PBFile, Filesize: vt.U64(9), Blocksizes: []uint64{9}}).Encode(), h)
	ok(t, s.Add(bg, root))
	for _, op := range []func(dm *mod.DagModifier) error{
		func(dm *mod.DagModifier) error { return dm.Truncate(8) },
		func(dm *mod.DagModifier) error { return dm.Truncate(30) },
		func(dm *mod.DagModifier) error {
			if _, err := dm.WriteAt([]byte("0123456789"), 4); err != nil {
				return err
			}
			return dm.Sync()
		},
	} {
		dm, err := mod.NewDagModifier(bg, root, s, chunker.SizeSplitterGen(5))
		ok(t, err)
		if err := op(dm); err != nil {
			continue
		}
		nd, err := dm.GetNode()
		ok(t, err)
		_ = nd.RawData()
	}
}

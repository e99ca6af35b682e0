package props

import (
	"bytes"
	"context"
	"fmt"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"

	"github.com/ipfs/go-unixfs/importer/balanced"

	"github.com/ipfs/go-unixfs/verif/vt"
)

var bg = context.Background()

// proto returns a dag-pb node that has been stored and fetched.
func proto(links []vt.Link, data []byte, h vt.Hash) *mdag.ProtoNode {
	b := vt.EncodeDagPB(links, data)
	return decodeNode(h.Cid(cid.DagProtobuf, b), b).(*mdag.ProtoNode)
}

func decodeNode(c cid.Cid, b []byte) ipld.Node {
	s := vt.NewStore()
	s.PutRaw(c, b)
	n, err := s.Get(bg, c)
	if err != nil {
		panic(fmt.Sprintf("HARNESS: %v", err))
	}
	return n
}

// put stores a reference DAG.
func put(s *vt.Store, r *vt.Ref) {
	r.Walk(func(n *vt.Ref) { s.PutRaw(n.Cid, n.Block) })
}

// get fetches a node that is known to be stored.
func get(s *vt.Store, c cid.Cid) ipld.Node {
	n, err := s.Clone().Get(bg, c)
	if err != nil {
		panic(fmt.Sprintf("the node %s can't be fetched: %v", c, err))
	}
	return n
}

func hashNamed(name string) vt.Hash {
	for _, h := range vt.Hashes {
		if h.Name == name {
			return h
		}
	}
	panic("HARNESS: no such hash")
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// firstDiff is the index where two byte strings start to differ.
func firstDiff(a, b []byte) int {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return n
}

func mustEqual(t interface {
	Helper()
	Fatalf(string, ...interface{})
}, got, want []byte, what string) {
	t.Helper()
	if !bytes.Equal(got, want) {
		t.Fatalf("%s: got %d bytes, want %d, different from byte %d on", what, len(got), len(want), firstDiff(got, want))
	}
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x...(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

var balancedLayout = balanced.Layout

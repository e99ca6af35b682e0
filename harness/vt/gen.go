package vt

import (
	"context"
	"fmt"
	"io"
	"math/rand"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	"pgregory.net/rapid"

	"github.com/ipfs/go-unixfs/importer/balanced"
	"github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
)

// Fill returns n bytes determined by the seed: kind 0 is arbitrary, 1 all the
// same, 2 periodic (so that chunks repeat), 3 zero.
func Fill(n int, kind int, seed int64) []byte {
	b := make([]byte, n)
	switch kind {
	case 0:
		rand.New(rand.NewSource(seed)).Read(b)
	case 1:
		for i := range b {
			b[i] = byte(seed)
		}
	case 2:
		for i := range b {
			b[i] = byte(i % 4)
		}
	}
	return b
}

// Bytes generates content of length n.
func Bytes(rt *rapid.T, n int, label string) []byte {
	if n == 0 {
		return []byte{}
	}
	kind := rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(rt, label+"Kind")
	seed := int64(0)
	if kind < 2 {
		seed = int64(rapid.IntRange(1, 255).Draw(rt, label+"Seed"))
	}
	return Fill(n, kind, seed)
}

// GenHash generates a CID configuration.
func GenHash(rt *rapid.T) Hash {
	return Hashes[rapid.IntRange(0, len(Hashes)-1).Draw(rt, "hash")]
}

// GenCfg generates an import configuration.
func GenCfg(rt *rapid.T, maxWidth int) Cfg {
	return Cfg{
		Width:   rapid.OneOf(rapid.IntRange(2, 6), rapid.IntRange(2, maxWidth)).Draw(rt, "width"),
		Raw:     rapid.Bool().Draw(rt, "raw"),
		Hash:    GenHash(rt),
		Trickle: rapid.Bool().Draw(rt, "trickle"),
	}
}

func (c Cfg) String() string {
	return fmt.Sprintf("width=%d raw=%v hash=%s trickle=%v", c.Width, c.Raw, c.Hash.Name, c.Trickle)
}

// Chunks is a splitter over a list of chunks. If Err is set it is returned
// after the last one, and again by every later call unless Once is set, when
// the end follows.
type Chunks struct {
	List [][]byte
	Err  error
	Once bool
	R    io.Reader
}

// Reader implements chunker.Splitter.
func (c *Chunks) Reader() io.Reader { return c.R }

// NextBytes implements chunker.Splitter.
func (c *Chunks) NextBytes() ([]byte, error) {
	if len(c.List) == 0 {
		if err := c.Err; err != nil {
			if c.Once {
				c.Err = nil
			}
			return nil, err
		}
		return nil, io.EOF
	}
	b := c.List[0]
	c.List = c.List[1:]
	return append([]byte{}, b...), nil
}

// Copy returns an independent splitter.
func NewChunks(list [][]byte) *Chunks { return &Chunks{List: append([][]byte(nil), list...)} }

var _ chunker.Splitter = (*Chunks)(nil)

// GenChunks generates a list of chunks.
func GenChunks(rt *rapid.T, minN, maxN, maxSize int, label string) [][]byte {
	n := rapid.IntRange(minN, maxN).Draw(rt, label+"Count")
	var out [][]byte
	if n == 0 {
		return out
	}
	mode := rapid.IntRange(0, 2).Draw(rt, label+"Mode")
	base := int64(rapid.IntRange(0, 1<<16).Draw(rt, label+"Base"))
	size := rapid.IntRange(1, maxSize).Draw(rt, label+"Size")
	rnd := rand.New(rand.NewSource(base))
	for i := 0; i < n; i++ {
		switch mode {
		case 0: // constant size, last one shorter
			s := size
			if i == n-1 {
				s = 1 + rnd.Intn(size)
			}
			out = append(out, Fill(s, 0, rnd.Int63()))
		case 1: // any sizes
			out = append(out, Fill(1+rnd.Intn(maxSize), 0, rnd.Int63()))
		case 2: // repeated chunks
			out = append(out, Fill(1+rnd.Intn(3), 1, int64(rnd.Intn(2))))
		}
	}
	return out
}

// Join concatenates chunks.
func Join(chunks [][]byte) []byte {
	out := []byte{}
	for _, c := range chunks {
		out = append(out, c...)
	}
	return out
}

// Params returns the parameters of the import.
func (c Cfg) Params(ds ipld.DAGService) *helpers.DagBuilderParams {
	return &helpers.DagBuilderParams{Maxlinks: c.Width, RawLeaves: c.Raw, CidBuilder: c.Hash.Builder, Dagserv: ds}
}

// Import imports with the library.
func (c Cfg) Import(ds ipld.DAGService, spl chunker.Splitter) (ipld.Node, error) {
	db, err := c.Params(ds).New(spl)
	if err != nil {
		return nil, err
	}
	if c.Trickle {
		return trickle.Layout(db)
	}
	return balanced.Layout(db)
}

// Append appends with the library.
func (c Cfg) Append(ds ipld.DAGService, base ipld.Node, spl chunker.Splitter) (ipld.Node, error) {
	db, err := c.Params(ds).New(spl)
	if err != nil {
		return nil, err
	}
	return trickle.Append(context.Background(), base, db)
}

// Flatten reads a file DAG independently of the library, checking that it is
// well-formed: sizes, cumulative sizes and absence of data in branches.
func (s *Store) Flatten(c cid.Cid) ([]byte, error) {
	b, _, err := s.flatten(c)
	return b, err
}

func (s *Store) flatten(c cid.Cid) ([]byte, uint64, error) {
	raw := s.Raw(c)
	if raw == nil && !s.Has(c) {
		return nil, 0, fmt.Errorf("block %s is not stored", c)
	}
	if c.Prefix().Codec == cid.Raw {
		return raw, uint64(len(raw)), nil
	}
	links, data, err := DecodeDagPB(raw)
	if err != nil {
		return nil, 0, fmt.Errorf("%s: %v", c, err)
	}
	pb, err := DecodePB(data)
	if err != nil {
		return nil, 0, fmt.Errorf("%s: %v", c, err)
	}
	if pb.Type != PBFile && pb.Type != PBRaw {
		return nil, 0, fmt.Errorf("%s: type %d in a file", c, pb.Type)
	}
	ts := uint64(len(raw))
	if len(links) != len(pb.Blocksizes) {
		return nil, 0, fmt.Errorf("%s: %d links and %d block sizes", c, len(links), len(pb.Blocksizes))
	}
	if len(links) == 0 {
		if pb.Size() != uint64(len(pb.Data)) {
			return nil, 0, fmt.Errorf("%s: leaf with %d bytes has file size %d", c, len(pb.Data), pb.Size())
		}
		return pb.Data, ts, nil
	}
	if len(pb.Data) > 0 {
		return nil, 0, fmt.Errorf("%s: branch has data", c)
	}
	var out []byte
	for i, l := range links {
		b, t, err := s.flatten(l.Cid)
		if err != nil {
			return nil, 0, err
		}
		if uint64(len(b)) != pb.Blocksizes[i] {
			return nil, 0, fmt.Errorf("%s: child %d has %d bytes, block size is %d", c, i, len(b), pb.Blocksizes[i])
		}
		if t != l.Tsize {
			return nil, 0, fmt.Errorf("%s: child %d has cumulative size %d, link says %d", c, i, t, l.Tsize)
		}
		ts += t
		out = append(out, b...)
	}
	if pb.Size() != uint64(len(out)) {
		return nil, 0, fmt.Errorf("%s: %d bytes, file size is %d", c, len(out), pb.Size())
	}
	return out, ts, nil
}

// WalkDAG calls f for every block of a DAG, once per block.
func (s *Store) WalkDAG(root cid.Cid, f func(c cid.Cid, raw []byte, links []Link) error) error {
	seen := map[string]bool{}
	var rec func(c cid.Cid) error
	rec = func(c cid.Cid) error {
		if seen[c.KeyString()] {
			return nil
		}
		seen[c.KeyString()] = true
		if !s.Has(c) {
			return fmt.Errorf("block %s is not stored", c)
		}
		raw := s.Raw(c)
		var links []Link
		if c.Prefix().Codec == cid.DagProtobuf {
			var err error
			links, _, err = DecodeDagPB(raw)
			if err != nil {
				return err
			}
		}
		if err := f(c, raw, links); err != nil {
			return err
		}
		for _, l := range links {
			if err := rec(l.Cid); err != nil {
				return err
			}
		}
		return nil
	}
	return rec(root)
}

// Leaf returns a node for the content that is not a directory, of any format.
func RawLeaf(b []byte, h Hash) ipld.Node {
	if h.Builder == nil {
		return mdag.NewRawNode(b)
	}
	n, err := mdag.NewRawNodeWPrefix(b, h.Builder)
	if err != nil {
		panic(err)
	}
	return n
}

// GenName generates an entry name.
func GenName(rt *rapid.T, label string) string {
	switch rapid.IntRange(0, 5).Draw(rt, label+"NameKind") {
	case 0, 1:
		return rapid.StringMatching(`[a-c]{1,2}`).Draw(rt, label)
	case 2:
		return rapid.StringN(1, 12, 40).Draw(rt, label)
	case 3:
		return rapid.StringMatching(`[0-9A-F]{1,4}[a-z]?`).Draw(rt, label)
	case 4:
		n := rapid.IntRange(1, 255).Draw(rt, label+"Len")
		if n > 245 {
			n *= rapid.IntRange(1, 20).Draw(rt, label+"Times")
		}
		b := Fill(n, 0, int64(n))
		for i := range b {
			b[i] = 'a' + b[i]%26
		}
		return string(b)
	default:
		return string(rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(rt, label))
	}
}

// GenNames generates a pool of distinct names, a share of which have hashes
// with long common prefixes.
func GenNames(rt *rapid.T, min, max int) []string {
	n := rapid.IntRange(min, max).Draw(rt, "names")
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if s != "" && !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	if rapid.Bool().Draw(rt, "adversarial") {
		base := rapid.Uint64().Draw(rt, "hashBase")
		for len(out) < n {
			keep := rapid.SampledFrom([]int{0, 3, 4, 8, 9, 12, 16, 20, 24, 32, 40, 48, 52, 56, 60, 62, 63}).Draw(rt, "commonBits")
			r := rapid.Uint64().Draw(rt, "hashRest")
			h := base
			if keep < 64 {
				h = base&^(1<<(64-keep)-1) | r&(1<<(64-keep)-1)
				// differ right after the common bits
				h = h&^(1<<(63-keep)) | (^base)&(1<<(63-keep))
			}
			add(NameWithHash(h, rapid.Uint64Range(0, 3).Draw(rt, "salt")))
			if rapid.IntRange(0, 3).Draw(rt, "mix") == 0 && len(out) < n {
				add(GenName(rt, "name"))
			}
		}
		return out
	}
	for i := 0; len(out) < n; i++ {
		if i > 4*n {
			add(fmt.Sprintf("filler%d", i))
			continue
		}
		add(GenName(rt, "name"))
	}
	return out
}

// Child returns the i-th of a family of small child nodes, with different
// formats, sizes and CID lengths.
func Child(i int) ipld.Node {
	h := Hashes[i%len(Hashes)]
	data := []byte(fmt.Sprintf("child %d", i))
	if i%13 == 12 {
		data = nil
	}
	if i%3 == 0 {
		return RawLeaf(data, h)
	}
	nd := mdag.NodeWithData((&PB{Type: PBFile, Data: data, Filesize: U64(uint64(len(data)))}).Encode())
	if h.Builder != nil {
		nd.SetCidBuilder(h.Builder)
	}
	if i%7 == 5 {
		// The root of a large file (of which nothing else is there).
		raw := mdag.NewRawNode([]byte("a leaf"))
		if err := nd.AddRawLink("", &ipld.Link{Cid: raw.Cid(), Size: 1<<36 + uint64(i)}); err != nil {
			panic(err)
		}
	}
	return nd
}

// EntOf is the model entry for a node.
func EntOf(n ipld.Node) Ent {
	s, err := n.Size()
	if err != nil {
		panic(err)
	}
	return Ent{n.Cid(), s}
}

// Verify checks that all the blocks of a DAG are stored and match their CIDs.
func (s *Store) Verify(root cid.Cid) error {
	return s.WalkDAG(root, func(c cid.Cid, raw []byte, links []Link) error {
		got, err := c.Prefix().Sum(raw)
		if err != nil {
			return err
		}
		if !got.Equals(c) {
			return fmt.Errorf("the bytes stored as %s hash to %s", c, got)
		}
		return nil
	})
}

package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"

	proto_ "github.com/gogo/protobuf/proto"
	cid "github.com/ipfs/go-cid"
	mdag "github.com/ipfs/go-merkledag"
	"pgregory.net/rapid"

	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/importer/helpers"
	pb "github.com/ipfs/go-unixfs/pb"

	"github.com/ipfs/go-unixfs/verif/vt"
)

func genU64(rt *rapid.T, label string) uint64 {
	switch rapid.IntRange(0, 3).Draw(rt, label+"Kind") {
	case 0:
		return uint64(rapid.IntRange(0, 300).Draw(rt, label))
	case 1:
		return 1 << rapid.IntRange(0, 63).Draw(rt, label)
	case 2:
		return 1<<rapid.IntRange(1, 63).Draw(rt, label) - 1
	default:
		return rapid.Uint64().Draw(rt, label)
	}
}

func genData(rt *rapid.T, label string) []byte {
	switch rapid.IntRange(0, 4).Draw(rt, label+"Kind") {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return vt.Fill(rapid.SampledFrom([]int{126, 127, 128, 129, 255, 256, 16383, 16384, 16385, 65535, 65536, 70000}).Draw(rt, label), 0, 7)
	default:
		return rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(rt, label)
	}
}

func genPB(rt *rapid.T) *vt.PB {
	p := &vt.PB{Type: uint64(rapid.IntRange(0, 5).Draw(rt, "type"))}
	p.Data = genData(rt, "data")
	if rapid.Bool().Draw(rt, "hasFilesize") {
		p.Filesize = vt.U64(genU64(rt, "filesize"))
	}
	for n := rapid.IntRange(0, 6).Draw(rt, "blocksizes"); n > 0; n-- {
		p.Blocksizes = append(p.Blocksizes, genU64(rt, "blocksize"))
	}
	if rapid.Bool().Draw(rt, "hasHashType") {
		p.HashType = vt.U64(genU64(rt, "hashType"))
	}
	if rapid.Bool().Draw(rt, "hasFanout") {
		p.Fanout = vt.U64(genU64(rt, "fanout"))
	}
	return p
}

func pbString(p *vt.PB) string {
	f := func(v *uint64) string {
		if v == nil {
			return "-"
		}
		return fmt.Sprint(*v)
	}
	d := "-"
	if p.Data != nil {
		d = short(p.Data)
	}
	return fmt.Sprintf("type=%d data=%s filesize=%s blocksizes=%v hash=%s fanout=%s", p.Type, d, f(p.Filesize), p.Blocksizes, f(p.HashType), f(p.Fanout))
}

func val(p *uint64) uint64 {
	if p == nil {
		return 0
	}
	return *p
}

// fileSize is the file size of the message by the documented rules.
func fileSize(p *vt.PB) (uint64, bool) {
	switch p.Type {
	case vt.PBFile, vt.PBRaw:
		return val(p.Filesize), true
	case vt.PBSymlink:
		return uint64(len(p.Data)), true
	}
	return 0, false
}

// checkDecoded compares every way of decoding b with the message.
func checkDecoded(c *vt.C, b []byte, p *vt.PB) {
	d, err := ft.FromBytes(b)
	c.NoErr(err, "FromBytes of %x", b)
	if uint64(d.GetType()) != p.Type || !bytes.Equal(d.GetData(), p.Data) || d.GetFilesize() != val(p.Filesize) ||
		d.GetHashType() != val(p.HashType) || d.GetFanout() != val(p.Fanout) || fmt.Sprint(d.GetBlocksizes()) != fmt.Sprint(p.Blocksizes) {
		c.Fatalf("FromBytes(%x) = %v, want %s", b, d, pbString(p))
	}
	if (d.Data != nil) != (p.Data != nil) || (d.Filesize != nil) != (p.Filesize != nil) || (d.HashType != nil) != (p.HashType != nil) || (d.Fanout != nil) != (p.Fanout != nil) {
		c.Fatalf("FromBytes(%x) = %v: presence of the fields differs from %s", b, d, pbString(p))
	}
	n, err := ft.FSNodeFromBytes(b)
	c.NoErr(err, "FSNodeFromBytes of %x", b)
	checkFSNode(c, n, p)
	u, err := ft.UnwrapData(b)
	c.NoErr(err, "UnwrapData of %x", b)
	if !bytes.Equal(u, p.Data) {
		c.Fatalf("UnwrapData(%x) = %x, want %x", b, u, p.Data)
	}
	size, err := ft.DataSize(b)
	want, ok := fileSize(p)
	if ok != (err == nil) || (ok && size != want) {
		c.Fatalf("DataSize(%x) = %d, %v; want %d, %v", b, size, err, want, ok)
	}
	nd := mdag.NodeWithData(b)
	e, err := ft.ExtractFSNode(nd)
	c.NoErr(err, "ExtractFSNode")
	checkFSNode(c, e, p)
	r, err := ft.ReadUnixFSNodeData(nd)
	if p.Type == vt.PBFile || p.Type == vt.PBRaw {
		c.NoErr(err, "ReadUnixFSNodeData")
		if !bytes.Equal(r, p.Data) {
			c.Fatalf("ReadUnixFSNodeData = %x, want %x", r, p.Data)
		}
	} else if err == nil {
		c.Fatalf("ReadUnixFSNodeData of a node of type %d succeeded", p.Type)
	}
}

func checkFSNode(c *vt.C, n *ft.FSNode, p *vt.PB) {
	size, _ := fileSize(p)
	if uint64(n.Type()) != p.Type || !bytes.Equal(n.Data(), p.Data) || n.FileSize() != size || n.HashType() != val(p.HashType) || n.Fanout() != val(p.Fanout) ||
		n.NumChildren() != len(p.Blocksizes) || fmt.Sprint(n.BlockSizes()) != fmt.Sprint(p.Blocksizes) || n.IsDir() != (p.Type == vt.PBDirectory || p.Type == vt.PBHAMTShard) {
		c.Fatalf("node type=%d data=%x size=%d hash=%d fanout=%d children=%d sizes=%v dir=%v; want %s (size %d)", n.Type(), n.Data(), n.FileSize(), n.HashType(), n.Fanout(), n.NumChildren(), n.BlockSizes(), n.IsDir(), pbString(p), size)
	}
	for i, s := range p.Blocksizes {
		if n.BlockSize(i) != s {
			c.Fatalf("BlockSize(%d) = %d, want %d", i, n.BlockSize(i), s)
		}
	}
}

func uv(b []byte, v uint64) []byte { return binary.AppendUvarint(b, v) }

// genUnknown generates a field the message does not define.
func genUnknown(rt *rapid.T) []byte {
	field := rapid.SampledFrom([]uint64{7, 8, 9, 15, 16, 100, 2047, 2048, 1<<29 - 1}).Draw(rt, "unknownField")
	wire := rapid.SampledFrom([]uint64{0, 1, 2, 5}).Draw(rt, "unknownWire")
	b := uv(nil, field<<3|wire)
	switch wire {
	case 0:
		b = uv(b, genU64(rt, "unknownValue"))
	case 1:
		b = append(b, rapid.SliceOfN(rapid.Byte(), 8, 8).Draw(rt, "unknownValue")...)
	case 5:
		b = append(b, rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(rt, "unknownValue")...)
	case 2:
		v := rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(rt, "unknownValue")
		b = append(uv(b, uint64(len(v))), v...)
	}
	return b
}

// genEncoding generates any valid encoding of the message.
func genEncoding(rt *rapid.T, c *vt.C, p *vt.PB) []byte {
	var fields [][]byte
	one := func(f func(*vt.PB)) {
		q := &vt.PB{}
		f(q)
		fields = append(fields, q.Encode()[2:]) // without the type
	}
	fields = append(fields, (&vt.PB{Type: p.Type}).Encode())
	if p.Data != nil {
		one(func(q *vt.PB) { q.Data = p.Data })
	}
	if p.Filesize != nil {
		one(func(q *vt.PB) { q.Filesize = p.Filesize })
	}
	if p.HashType != nil {
		one(func(q *vt.PB) { q.HashType = p.HashType })
	}
	if p.Fanout != nil {
		one(func(q *vt.PB) { q.Fanout = p.Fanout })
	}
	for n := rapid.IntRange(0, 2).Draw(rt, "unknown"); n > 0; n-- {
		fields = append(fields, genUnknown(rt))
		c.Label("unknown field")
	}
	// The block sizes keep their order, in runs that may be packed.
	var runs [][]byte
	for bs := p.Blocksizes; len(bs) > 0; {
		n := rapid.IntRange(1, len(bs)).Draw(rt, "run")
		if rapid.Bool().Draw(rt, "packed") {
			var in []byte
			for _, s := range bs[:n] {
				in = uv(in, s)
			}
			runs = append(runs, append(uv([]byte{4<<3 | 2}, uint64(len(in))), in...))
			c.Label("packed")
		} else {
			for _, s := range bs[:n] {
				runs = append(runs, uv([]byte{4 << 3}, s))
			}
		}
		bs = bs[n:]
	}
	fields = rapid.Permutation(fields).Draw(rt, "order")
	var out []byte
	for len(fields) > 0 || len(runs) > 0 {
		if len(fields) == 0 || len(runs) > 0 && rapid.Bool().Draw(rt, "runNext") {
			out = append(out, runs[0]...)
			runs = runs[1:]
		} else {
			out = append(out, fields[0]...)
			fields = fields[1:]
		}
	}
	return out
}

func TestF01(t *testing.T) {
	vt.Check(t, "constructors and field-by-field nodes compared byte for byte with an independent encoder, and any valid encodings decoded by every entry point; non-trivial: the message has data, a block size or an unknown field, or a mandatory field is missing", func(rt *rapid.T, c *vt.C) {
		kind := rapid.SampledFrom([]string{"file", "folder", "wrap", "symlink", "shard", "fsnode", "decode", "decode", "notype", "emptynodes"}).Draw(rt, "kind")
		c.Label(kind)
		switch kind {
		case "file", "wrap", "symlink", "shard", "folder":
			d := genData(rt, "data")
			p := &vt.PB{Data: d}
			var got []byte
			var err error
			switch kind {
			case "file":
				p.Type, p.Filesize = vt.PBFile, vt.U64(genU64(rt, "size"))
				got = ft.FilePBData(d, *p.Filesize)
			case "wrap":
				p.Type, p.Filesize = vt.PBRaw, vt.U64(uint64(len(d)))
				got = ft.WrapData(d)
			case "symlink":
				p.Type = vt.PBSymlink
				p.Data = append([]byte{}, d...)
				got, err = ft.SymlinkData(string(d))
			case "shard":
				p.Type, p.Fanout, p.HashType = vt.PBHAMTShard, vt.U64(genU64(rt, "fanout")), vt.U64(genU64(rt, "hashType"))
				got, err = ft.HAMTShardData(d, *p.Fanout, *p.HashType)
			case "folder":
				p.Type, p.Data = vt.PBDirectory, nil
				got = ft.FolderPBData()
			}
			c.Logf("%s of %s", kind, pbString(p))
			c.NoErr(err, "%s", kind)
			if len(d) > 0 {
				c.NonTrivial()
			}
			if !bytes.Equal(got, p.Encode()) {
				c.Fatalf("%s of %s is encoded as %x, want %x", kind, pbString(p), got, p.Encode())
			}
			checkDecoded(c, got, p)
		case "emptynodes":
			c.Logf("empty nodes")
			if got, want := ft.EmptyDirNode().Data(), (&vt.PB{Type: vt.PBDirectory}).Encode(); !bytes.Equal(got, want) {
				c.Fatalf("EmptyDirNode has data %x, want %x", got, want)
			}
			if got, want := ft.EmptyFileNode().Data(), (&vt.PB{Type: vt.PBFile, Filesize: vt.U64(0)}).Encode(); !bytes.Equal(got, want) {
				c.Fatalf("EmptyFileNode has data %x, want %x", got, want)
			}
		case "fsnode":
			p := &vt.PB{Type: uint64(rapid.IntRange(0, 5).Draw(rt, "type")), Filesize: vt.U64(0)}
			n := ft.NewFSNode(pb.Data_DataType(p.Type))
			if d := genData(rt, "data"); d != nil {
				n.SetData(d)
				p.Data = d
				*p.Filesize = uint64(len(d))
			}
			for k := rapid.IntRange(0, 5).Draw(rt, "children"); k > 0; k-- {
				s := genU64(rt, "blocksize")
				n.AddBlockSize(s)
				p.Blocksizes = append(p.Blocksizes, s)
				*p.Filesize += s
			}
			c.Logf("node built as %s", pbString(p))
			if len(p.Data)+len(p.Blocksizes) > 0 {
				c.NonTrivial()
			}
			got, err := n.GetBytes()
			c.NoErr(err, "GetBytes")
			if !bytes.Equal(got, p.Encode()) {
				c.Fatalf("node %s is encoded as %x, want %x", pbString(p), got, p.Encode())
			}
			checkFSNode(c, n, p)
			checkDecoded(c, got, p)
		case "decode":
			p := genPB(rt)
			b := genEncoding(rt, c, p)
			c.Logf("%s encoded as %x", pbString(p), b)
			if len(p.Data)+len(p.Blocksizes) > 0 || c.Has("unknown field") {
				c.NonTrivial()
			}
			checkDecoded(c, b, p)
			checkDecoded(c, p.Encode(), p)
			// The canonical encoding is a fixed point.
			n, err := ft.FSNodeFromBytes(p.Encode())
			c.NoErr(err, "FSNodeFromBytes")
			again, err := n.GetBytes()
			c.NoErr(err, "GetBytes")
			if !bytes.Equal(again, p.Encode()) {
				c.Fatalf("%x is encoded again as %x", p.Encode(), again)
			}
			// Other encodings keep the known fields.
			n, err = ft.FSNodeFromBytes(b)
			c.NoErr(err, "FSNodeFromBytes")
			again, err = n.GetBytes()
			c.NoErr(err, "GetBytes")
			checkDecoded(c, again, p)
		case "notype":
			p := genPB(rt)
			b := p.Encode()[2:]
			if rapid.Bool().Draw(rt, "withUnknown") {
				b = append(b, genUnknown(rt)...)
			}
			c.Logf("without type: %x", b)
			c.NonTrivial()
			rejected(c, b)
		}
	})
}

// rejected checks that no entry point accepts b.
func rejected(c *vt.C, b []byte) {
	if d, err := ft.FromBytes(b); err == nil {
		c.Fatalf("FromBytes accepts %x as %v", b, d)
	}
	if _, err := ft.FSNodeFromBytes(b); err == nil {
		c.Fatalf("FSNodeFromBytes accepts %x", b)
	}
	if _, err := ft.UnwrapData(b); err == nil {
		c.Fatalf("UnwrapData accepts %x", b)
	}
	if _, err := ft.DataSize(b); err == nil {
		c.Fatalf("DataSize accepts %x", b)
	}
	if _, err := ft.MetadataFromBytes(b); err == nil {
		c.Fatalf("MetadataFromBytes accepts %x", b)
	}
	nd := mdag.NodeWithData(b)
	if _, err := ft.ReadUnixFSNodeData(nd); err == nil {
		c.Fatalf("ReadUnixFSNodeData accepts %x", b)
	}
	if _, err := ft.ExtractFSNode(nd); err == nil {
		c.Fatalf("ExtractFSNode accepts %x", b)
	}
}

// fsModel is the model of F02.
type fsModel struct {
	typ   uint64
	data  []byte
	sizes []uint64
}

func (m *fsModel) size() uint64 {
	s := uint64(len(m.data))
	for _, b := range m.sizes {
		s += b
	}
	return s
}

func TestF02(t *testing.T) {
	vt.Check(t, "random histories of a file node (setting data, adding, removing and clearing block sizes, encoding and decoding), on the bare node and on the node coupled with its DAG node, against a list of sizes; non-trivial: a block size is removed or cleared, or data replaced, and the node is encoded afterwards", func(rt *rapid.T, c *vt.C) {
		if rapid.IntRange(0, 9).Draw(rt, "mode") == 0 {
			f02Size(rt, c)
			return
		}
		if rapid.IntRange(0, 2).Draw(rt, "over") == 0 {
			f02Over(rt, c)
			return
		}
		m := &fsModel{typ: rapid.SampledFrom([]uint64{vt.PBFile, vt.PBRaw}).Draw(rt, "type")}
		n := ft.NewFSNode(pb.Data_DataType(m.typ))
		if rapid.Bool().Draw(rt, "fromBytes") {
			// Start from a node decoded from consistent bytes.
			m.data = genData(rt, "startData")
			for k := rapid.IntRange(0, 4).Draw(rt, "startChildren"); k > 0; k-- {
				m.sizes = append(m.sizes, genU64(rt, "startSize"))
			}
			p := &vt.PB{Type: m.typ, Data: m.data, Blocksizes: m.sizes, Filesize: vt.U64(m.size())}
			if *p.Filesize == 0 && rapid.Bool().Draw(rt, "noSize") {
				p.Filesize = nil
			}
			var err error
			n, err = ft.FSNodeFromBytes(p.Encode())
			c.NoErr(err, "FSNodeFromBytes")
			c.Label("starts decoded")
		}
		c.Logf("type %d data %s sizes %v", m.typ, short(m.data), m.sizes)
		changed := false
		check := func() {
			if n.FileSize() != m.size() {
				c.Fatalf("size is %d, want %d (data %d bytes, sizes %v)", n.FileSize(), m.size(), len(m.data), m.sizes)
			}
			if n.NumChildren() != len(m.sizes) || len(n.BlockSizes()) != len(m.sizes) {
				c.Fatalf("%d children, want sizes %v", n.NumChildren(), m.sizes)
			}
			for i, s := range m.sizes {
				if n.BlockSize(i) != s || n.BlockSizes()[i] != s {
					c.Fatalf("sizes %v, want %v", n.BlockSizes(), m.sizes)
				}
			}
			if !bytes.Equal(n.Data(), m.data) {
				c.Fatalf("data %x, want %x", n.Data(), m.data)
			}
		}
		encode := func() []byte {
			b, err := n.GetBytes()
			c.NoErr(err, "GetBytes")
			s, err := ft.DataSize(b)
			c.NoErr(err, "DataSize")
			if s != m.size() {
				c.Fatalf("DataSize = %d, want %d", s, m.size())
			}
			return b
		}
		rt.Repeat(map[string]func(*rapid.T){
			"setData": func(rt *rapid.T) {
				d := genData(rt, "data")
				c.Logf("SetData(%s)", short(d))
				if len(m.data) > 0 {
					changed = true
				}
				n.SetData(d)
				m.data = d
			},
			"add": func(rt *rapid.T) {
				s := genU64(rt, "size")
				c.Logf("AddBlockSize(%d)", s)
				n.AddBlockSize(s)
				m.sizes = append(m.sizes, s)
			},
			"remove": func(rt *rapid.T) {
				if len(m.sizes) == 0 {
					return
				}
				i := rapid.IntRange(0, len(m.sizes)-1).Draw(rt, "index")
				c.Logf("RemoveBlockSize(%d)", i)
				n.RemoveBlockSize(i)
				m.sizes = append(append([]uint64(nil), m.sizes[:i]...), m.sizes[i+1:]...)
				changed = true
			},
			"clear": func(rt *rapid.T) {
				c.Logf("RemoveAllBlockSizes")
				if len(m.sizes) > 0 {
					changed = true
				}
				n.RemoveAllBlockSizes()
				m.sizes = nil
			},
			"reencode": func(rt *rapid.T) {
				c.Logf("encode and decode")
				var err error
				n, err = ft.FSNodeFromBytes(encode())
				c.NoErr(err, "FSNodeFromBytes")
				if changed {
					c.NonTrivial()
				}
			},
			"": func(rt *rapid.T) { check() },
		})
		n2, err := ft.FSNodeFromBytes(encode())
		c.NoErr(err, "FSNodeFromBytes")
		n = n2
		check()
		if changed {
			c.NonTrivial()
		}
	})
}

// f02Size checks the size helper for every type.
func f02Size(rt *rapid.T, c *vt.C) {
	c.Label("size helper")
	p := genPB(rt)
	p.Type = uint64(rapid.IntRange(0, 7).Draw(rt, "anyType"))
	c.Logf("DataSize of %s", pbString(p))
	c.NonTrivial()
	got, err := ft.DataSize(p.Encode())
	want, ok := fileSize(p)
	if ok != (err == nil) || ok && got != want {
		c.Fatalf("DataSize of %s = %d, %v; want %d, success %v", pbString(p), got, err, want, ok)
	}
}

// f02Over drives a node coupled with its DAG node.
func f02Over(rt *rapid.T, c *vt.C) {
	c.Label("over DAG")
	s := vt.NewStore()
	db, err := (&helpers.DagBuilderParams{Dagserv: s, Maxlinks: 4}).New(vt.NewChunks(nil))
	c.NoErr(err, "New")
	n := db.NewFSNodeOverDag(ft.TFile)
	var kids []cid.Cid
	var sizes []uint64
	var data []byte
	total := func() (t uint64) {
		for _, s := range sizes {
			t += s
		}
		return t + uint64(len(data))
	}
	changed := false
	k := 0
	check := func() {
		if n.NumChildren() != len(sizes) || n.FileSize() != total() {
			c.Fatalf("%d children and size %d, want %v and %d", n.NumChildren(), n.FileSize(), sizes, total())
		}
	}
	commit := func() *mdag.ProtoNode {
		nd, err := n.Commit()
		c.NoErr(err, "Commit")
		p := nd.(*mdag.ProtoNode)
		fsn, err := ft.FSNodeFromBytes(p.Data())
		c.NoErr(err, "FSNodeFromBytes")
		if fsn.FileSize() != total() || fmt.Sprint(fsn.BlockSizes()) != fmt.Sprint(sizes) || !bytes.Equal(fsn.Data(), data) {
			c.Fatalf("committed size %d sizes %v data %x, want %d %v %x", fsn.FileSize(), fsn.BlockSizes(), fsn.Data(), total(), sizes, data)
		}
		if len(p.Links()) != len(kids) {
			c.Fatalf("%d links, want %d", len(p.Links()), len(kids))
		}
		for i, l := range p.Links() {
			if !l.Cid.Equals(kids[i]) {
				c.Fatalf("link %d is %s, want %s", i, l.Cid, kids[i])
			}
		}
		return p
	}
	rt.Repeat(map[string]func(*rapid.T){
		"add": func(rt *rapid.T) {
			d := vt.Fill(rapid.IntRange(1, 9).Draw(rt, "len"), 0, int64(k))
			k++
			leaf, err := db.NewLeafNode(d, ft.TFile)
			c.NoErr(err, "NewLeafNode")
			size := uint64(len(d))
			if rapid.Bool().Draw(rt, "big") {
				size = genU64(rt, "size")
			}
			c.Logf("AddChild of size %d", size)
			c.NoErr(n.AddChild(leaf, size, db), "AddChild")
			kids, sizes = append(kids, leaf.Cid()), append(sizes, size)
			if !s.Has(leaf.Cid()) {
				c.Fatalf("the child added is not stored")
			}
		},
		"remove": func(rt *rapid.T) {
			if len(sizes) == 0 {
				return
			}
			i := rapid.IntRange(0, len(sizes)-1).Draw(rt, "index")
			c.Logf("RemoveChild(%d)", i)
			n.RemoveChild(i, db)
			kids = append(append([]cid.Cid(nil), kids[:i]...), kids[i+1:]...)
			sizes = append(append([]uint64(nil), sizes[:i]...), sizes[i+1:]...)
			changed = true
		},
		"data": func(rt *rapid.T) {
			d := genData(rt, "data")
			c.Logf("SetFileData(%s)", short(d))
			changed = changed || len(data) > 0
			n.SetFileData(d)
			data = d
		},
		"commit": func(rt *rapid.T) {
			c.Logf("commit and reload")
			p := commit()
			if changed {
				c.NonTrivial()
			}
			n2, err := helpers.NewFSNFromDag(get2(s, p))
			c.NoErr(err, "NewFSNFromDag")
			n = n2
		},
		"": func(rt *rapid.T) { check() },
	})
	commit()
	if changed {
		c.NonTrivial()
	}
}

// get2 encodes and decodes the node.
func get2(s *vt.Store, p *mdag.ProtoNode) *mdag.ProtoNode {
	b, err := p.EncodeProtobuf(true)
	if err != nil {
		panic(fmt.Sprintf("a node does not survive encoding and decoding: %v", err))
	}
	nd, err := mdag.DecodeProtobuf(append([]byte(nil), b...))
	if err != nil {
		panic(fmt.Sprintf("a node does not survive encoding and decoding: %v", err))
	}
	return nd
}

// scan classifies a byte string: "valid" messages have complete fields and a
// type; "invalid" ones are truncated or lack the type; the rest depends on
// corners of the encoding (groups, oversized numbers).
func scan(b []byte) string {
	hasType := false
	varint := func(b []byte) (uint64, int, string) {
		v, n := binary.Uvarint(b)
		if n == 0 {
			return 0, 0, "invalid"
		}
		if n < 0 {
			return 0, 0, "unclear"
		}
		return v, n, ""
	}
	for len(b) > 0 {
		k, n, r := varint(b)
		if r != "" {
			return r
		}
		b = b[n:]
		if k>>3 == 0 || k>>3 >= 1<<29 {
			return "unclear"
		}
		var in []byte
		var v uint64
		switch k & 7 {
		case 0:
			v, n, r = varint(b)
			if r != "" {
				return r
			}
			b = b[n:]
		case 1:
			if len(b) < 8 {
				return "invalid"
			}
			b = b[8:]
		case 5:
			if len(b) < 4 {
				return "invalid"
			}
			b = b[4:]
		case 2:
			l, n, r := varint(b)
			if r != "" {
				return r
			}
			if l > uint64(len(b)-n) {
				return "invalid"
			}
			in, b = b[n:n+int(l)], b[n+int(l):]
		default:
			return "unclear"
		}
		f, w := k>>3, k&7
		switch {
		case f == 1 && w == 0:
			hasType = true
			if v > 5 {
				return "unclear"
			}
		case f == 1 && w == 2, f >= 2 && f <= 6 && f != 4 && (w == 2) != (f == 2), f == 4 && w != 0 && w != 2, f == 1:
			return "unclear"
		case f == 4 && w == 2:
			for len(in) > 0 {
				_, n, r := varint(in)
				if r != "" {
					return r
				}
				in = in[n:]
			}
		}
	}
	if !hasType {
		return "invalid"
	}
	return "valid"
}

// scanMeta classifies the inner message of a metadata record like scan and
// tells its MIME type.
func scanMeta(b []byte) (class, mime string) {
	for len(b) > 0 {
		k, n := binary.Uvarint(b)
		if n == 0 {
			return "invalid", ""
		}
		if n < 0 || k>>3 == 0 || k>>3 >= 1<<29 || k>>3 == 1 && k&7 != 2 {
			return "unclear", ""
		}
		b = b[n:]
		switch k & 7 {
		case 0:
			if _, n = binary.Uvarint(b); n == 0 {
				return "invalid", ""
			} else if n < 0 {
				return "unclear", ""
			}
			b = b[n:]
		case 1, 5:
			l := 8
			if k&7 == 5 {
				l = 4
			}
			if len(b) < l {
				return "invalid", ""
			}
			b = b[l:]
		case 2:
			l, n := binary.Uvarint(b)
			if n == 0 {
				return "invalid", ""
			} else if n < 0 {
				return "unclear", ""
			}
			if l > uint64(len(b)-n) {
				return "invalid", ""
			}
			if k>>3 == 1 {
				mime = string(b[n : n+int(l)])
			}
			b = b[n+int(l):]
		default:
			return "unclear", ""
		}
	}
	return "valid", mime
}

// mutate changes a byte string.
func mutate(rt *rapid.T, b []byte) []byte {
	b = append([]byte(nil), b...)
	for n := rapid.IntRange(1, 3).Draw(rt, "mutations"); n > 0; n-- {
		at := func(max int) int { return rapid.IntRange(0, max).Draw(rt, "at") }
		switch rapid.SampledFrom([]string{"truncate", "set", "insert", "delete", "flip", "dup", "big"}).Draw(rt, "mutation") {
		case "truncate":
			b = b[:at(len(b))]
		case "set":
			if len(b) > 0 {
				b[at(len(b)-1)] = rapid.Byte().Draw(rt, "byte")
			}
		case "flip":
			if len(b) > 0 {
				b[at(len(b)-1)] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
			}
		case "insert":
			i := at(len(b))
			b = append(b[:i:i], append(rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(rt, "bytes"), b[i:]...)...)
		case "delete":
			if len(b) > 0 {
				i := at(len(b) - 1)
				b = append(b[:i:i], b[i+1:]...)
			}
		case "dup":
			b = append(b, b[at(len(b)):]...)
		case "big": // a length or number near the limits
			i := at(len(b))
			v := uv(nil, rapid.SampledFrom([]uint64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}).Draw(rt, "value"))
			b = append(b[:i:i], append(v, b[i:]...)...)
		}
	}
	return b
}

func TestF03(t *testing.T) {
	vt.Check(t, "byte strings: valid encodings, mutated and truncated ones and noise, given to every entry point that decodes them; non-trivial: the bytes are not a canonical encoding", func(rt *rapid.T, c *vt.C) {
		kind := rapid.SampledFrom([]string{"mutated", "mutated", "mutated", "truncated", "noise", "fields", "badpacked", "metadata"}).Draw(rt, "kind")
		c.Label(kind)
		var b []byte
		switch kind {
		case "mutated":
			b = mutate(rt, genEncoding(rt, c, genPB(rt)))
		case "metadata":
			m := appendStr(nil, 1, rapid.String().Draw(rt, "mime"))
			if rapid.Bool().Draw(rt, "mutateInner") {
				m = mutate(rt, m)
			}
			b = (&vt.PB{Type: vt.PBMetadata, Data: m, Filesize: vt.U64(genU64(rt, "size"))}).Encode()
			if rapid.Bool().Draw(rt, "mutateOuter") {
				b = mutate(rt, b)
			}
		case "truncated":
			b = genEncoding(rt, c, genPB(rt))
			b = b[:rapid.IntRange(0, len(b)-1).Draw(rt, "length")]
		case "noise":
			b = rapid.SliceOfN(rapid.Byte(), 0, 64).Draw(rt, "bytes")
		case "fields": // well-formed fields with any tag
			for n := rapid.IntRange(1, 5).Draw(rt, "fields"); n > 0; n-- {
				f := uint64(rapid.IntRange(0, 8).Draw(rt, "field"))
				w := uint64(rapid.IntRange(0, 7).Draw(rt, "wire"))
				b = uv(b, f<<3|w)
				switch w {
				case 0:
					b = uv(b, genU64(rt, "value"))
				case 1:
					b = append(b, make([]byte, 8)...)
				case 2:
					v := rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(rt, "value")
					b = append(uv(b, uint64(len(v))), v...)
				case 5:
					b = append(b, make([]byte, 4)...)
				}
			}
		case "badpacked":
			b = (&vt.PB{Type: uint64(rapid.IntRange(0, 5).Draw(rt, "type"))}).Encode()
			in := rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(rt, "packed")
			if rapid.Bool().Draw(rt, "unterminated") {
				in = append(in, 0x80)
			}
			b = append(append(uv(b, 4<<3|2), uv(nil, uint64(len(in)))...), in...)
		}
		orig := append([]byte(nil), b...)
		c.Logf("%s: %x", kind, b)
		cl := scan(b)
		c.Label(cl)
		d, err := ft.FromBytes(b)
		ok := err == nil
		c.LabelIf(ok, "accepted")
		if cl == "invalid" && ok {
			c.Fatalf("truncated or incomplete message %x is accepted as %v", b, d)
		}
		if cl == "valid" && !ok {
			c.Fatalf("valid message %x is rejected: %v", b, err)
		}
		n, err := ft.FSNodeFromBytes(b)
		if (err == nil) != ok {
			c.Fatalf("%x: FromBytes accepts: %v, FSNodeFromBytes: %v", b, ok, err)
		}
		u, err := ft.UnwrapData(b)
		if (err == nil) != ok {
			c.Fatalf("%x: FromBytes accepts: %v, UnwrapData: %v", b, ok, err)
		}
		size, serr := ft.DataSize(b)
		md, merr := ft.MetadataFromBytes(b)
		nd := mdag.NodeWithData(b)
		r, rerr := ft.ReadUnixFSNodeData(nd)
		e, err := ft.ExtractFSNode(nd)
		if (err == nil) != ok {
			c.Fatalf("%x: FromBytes accepts: %v, ExtractFSNode: %v", b, ok, err)
		}
		if !bytes.Equal(orig, b) {
			c.Fatalf("decoding changed the input")
		}
		if !bytes.Equal(b, canonicalOrNil(b)) {
			c.NonTrivial()
		}
		if !ok {
			if serr == nil || merr == nil || rerr == nil {
				c.Fatalf("%x: rejected by FromBytes, but DataSize: %d %v, MetadataFromBytes: %v %v, ReadUnixFSNodeData: %x %v", b, size, serr, md, merr, r, rerr)
			}
			return
		}
		isFile := d.GetType() == ft.TFile || d.GetType() == ft.TRaw
		if wantOK := isFile || d.GetType() == ft.TSymlink; wantOK != (serr == nil) {
			c.Fatalf("%x of type %v: DataSize %d, %v", b, d.GetType(), size, serr)
		}
		if isFile != (rerr == nil) || isFile && !bytes.Equal(r, u) {
			c.Fatalf("%x of type %v: ReadUnixFSNodeData %x, %v; data %x", b, d.GetType(), r, rerr, u)
		}
		if d.GetType() != ft.TMetadata && merr == nil {
			c.Fatalf("%x of type %v accepted as metadata", b, d.GetType())
		}
		if merr == nil && md.Size != d.GetFilesize() {
			c.Fatalf("%x: metadata size %d, file size %d", b, md.Size, d.GetFilesize())
		}
		if d.GetType() == ft.TMetadata {
			mcl, mime := scanMeta(d.GetData())
			c.Label("metadata: " + mcl)
			switch {
			case mcl == "invalid" && merr == nil:
				c.Fatalf("%x: the broken inner message %x is accepted as %+v", b, d.GetData(), md)
			case mcl == "valid" && merr != nil:
				c.Fatalf("%x: the inner message %x is rejected: %v", b, d.GetData(), merr)
			case mcl == "valid" && md.MimeType != mime:
				c.Fatalf("%x: the MIME type is %q, want %q", b, md.MimeType, mime)
			}
		}
		same := func(what string, n *ft.FSNode) {
			if n.Type() != d.GetType() || !bytes.Equal(n.Data(), d.GetData()) || !bytes.Equal(n.Data(), u) || fmt.Sprint(n.BlockSizes()) != fmt.Sprint(d.GetBlocksizes()) ||
				n.HashType() != d.GetHashType() || n.Fanout() != d.GetFanout() {
				c.Fatalf("%x: %s differs from FromBytes", b, what)
			}
			if serr == nil && n.FileSize() != size {
				c.Fatalf("%x: %s has size %d, DataSize %d", b, what, n.FileSize(), size)
			}
		}
		same("FSNodeFromBytes", n)
		same("ExtractFSNode", e)
		again, err := n.GetBytes()
		c.NoErr(err, "encoding %x again", b)
		n2, err := ft.FSNodeFromBytes(again)
		c.NoErr(err, "decoding %x, encoded again from %x", again, b)
		same("the node encoded again", n2)
		if cl == "valid" {
			p, err := vt.DecodePB(b)
			if err != nil {
				panic(fmt.Sprintf("HARNESS: reference rejects %x: %v", b, err))
			}
			checkDecoded(c, b, p)
		}
	})
}

func appendStr(b []byte, field uint64, s string) []byte {
	return append(uv(uv(b, field<<3|2), uint64(len(s))), s...)
}

func canonicalOrNil(b []byte) []byte {
	if scan(b) != "valid" {
		return nil
	}
	p, err := vt.DecodePB(b)
	if err != nil {
		return nil
	}
	return p.Encode()
}

func TestF04(t *testing.T) {
	vt.Check(t, "metadata records with any MIME string and size, encoded and decoded, compared byte for byte with an independent encoder, and nodes of the other types given to the decoder; non-trivial: non-empty MIME type and non-zero size, or a node of another type", func(rt *rapid.T, c *vt.C) {
		if rapid.IntRange(0, 3).Draw(rt, "mode") == 0 {
			p := genPB(rt)
			if rapid.Bool().Draw(rt, "plausible") {
				p.Data = appendStr(nil, 1, "text/plain")
			}
			if p.Type == vt.PBMetadata {
				p.Type = vt.PBFile
			}
			c.Logf("other type: %s", pbString(p))
			c.Label("other type")
			c.NonTrivial()
			if md, err := ft.MetadataFromBytes(p.Encode()); err == nil {
				c.Fatalf("%s accepted as metadata %v", pbString(p), md)
			}
			return
		}
		var mime string
		switch rapid.IntRange(0, 3).Draw(rt, "mimeKind") {
		case 0:
			mime = rapid.SampledFrom([]string{"", "text/plain", "application/octet-stream; charset=utf-8"}).Draw(rt, "mime")
		case 1:
			mime = rapid.String().Draw(rt, "mime")
		case 2:
			mime = string(rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(rt, "mime"))
		default:
			mime = string(vt.Fill(rapid.IntRange(120, 300).Draw(rt, "mimeLen"), 1, 'x'))
		}
		m := &ft.Metadata{MimeType: mime, Size: genU64(rt, "size")}
		c.Logf("metadata %q %d", mime, m.Size)
		c.LabelIf(m.Size > 1<<63, "huge size")
		if mime != "" && m.Size != 0 {
			c.NonTrivial()
		}
		b, err := ft.BytesForMetadata(m)
		c.NoErr(err, "BytesForMetadata")
		in := appendStr(nil, 1, mime)
		if want := (&vt.PB{Type: vt.PBMetadata, Data: in, Filesize: vt.U64(m.Size)}).Encode(); !bytes.Equal(b, want) {
			c.Fatalf("metadata %q %d is encoded as %x, want %x", mime, m.Size, b, want)
		}
		got, err := ft.MetadataFromBytes(b)
		c.NoErr(err, "MetadataFromBytes of %x", b)
		if got.MimeType != mime || got.Size != m.Size {
			c.Fatalf("metadata %q %d comes back as %q %d", mime, m.Size, got.MimeType, got.Size)
		}
		ib, err := m.Bytes()
		c.NoErr(err, "Bytes")
		var pm pb.Metadata
		c.NoErr(proto_.Unmarshal(ib, &pm), "decoding Bytes")
		if !bytes.Equal(ib, in) || pm.GetMimeType() != mime {
			c.Fatalf("Bytes of %q is %x, want %x", mime, ib, in)
		}
	})
}

func TestReg_F04_Size(t *testing.T) {
	b, err := ft.BytesForMetadata(&ft.Metadata{MimeType: "text/plain", Size: 7})
	if err != nil {
		t.Fatal(err)
	}
	m, err := ft.MetadataFromBytes(b)
	if err != nil {
		t.Fatal(err)
	}
	if m.Size != 7 {
		t.Fatalf("size 7 comes back as %d", m.Size)
	}
}

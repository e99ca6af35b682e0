package vt

import (
	cid "github.com/ipfs/go-cid"
)

// Ref is a node of an independently computed file DAG.
type Ref struct {
	Cid   cid.Cid
	Size  uint64 // file size
	Tsize uint64 // cumulative size
	Block []byte
	Kids  []*Ref
}

// Cfg is the configuration of an import.
type Cfg struct {
	Width   int
	Raw     bool
	Hash    Hash
	Trickle bool
}

// Leaf returns the leaf for a chunk.
func (c Cfg) Leaf(chunk []byte, typ uint64) *Ref {
	if c.Raw {
		h := c.Hash
		return &Ref{Cid: h.Cid(cid.Raw, chunk), Size: uint64(len(chunk)), Tsize: uint64(len(chunk)), Block: chunk}
	}
	pb := &PB{Type: typ, Data: chunk, Filesize: U64(uint64(len(chunk)))}
	b := EncodeDagPB(nil, pb.Encode())
	return &Ref{Cid: c.Hash.Cid(cid.DagProtobuf, b), Size: uint64(len(chunk)), Tsize: uint64(len(b)), Block: b}
}

// Branch returns the internal node over the children.
func (c Cfg) Branch(kids []*Ref) *Ref {
	pb := &PB{Type: PBFile, Filesize: U64(0)}
	var links []Link
	var ts uint64
	for _, k := range kids {
		*pb.Filesize += k.Size
		pb.Blocksizes = append(pb.Blocksizes, k.Size)
		links = append(links, Link{"", k.Cid, k.Tsize})
		ts += k.Tsize
	}
	b := EncodeDagPB(links, pb.Encode())
	return &Ref{Cid: c.Hash.Cid(cid.DagProtobuf, b), Size: *pb.Filesize, Tsize: ts + uint64(len(b)), Block: b, Kids: kids}
}

// Balanced computes the balanced DAG of the chunks.
func (c Cfg) Balanced(chunks [][]byte) *Ref {
	if len(chunks) == 0 {
		return c.Leaf(nil, PBFile)
	}
	depth, capacity := 0, 1
	for capacity < len(chunks) {
		depth++
		capacity *= c.Width
	}
	return c.balanced(chunks, depth, capacity)
}

func (c Cfg) balanced(chunks [][]byte, depth, capacity int) *Ref {
	if depth == 0 {
		return c.Leaf(chunks[0], PBFile)
	}
	var kids []*Ref
	per := capacity / c.Width
	for len(chunks) > 0 {
		n := per
		if n > len(chunks) {
			n = len(chunks)
		}
		kids = append(kids, c.balanced(chunks[:n], depth-1, per))
		chunks = chunks[n:]
	}
	return c.Branch(kids)
}

// trickleCap is the number of leaves of a full subtree.
func (c Cfg) trickleCap(depth, limit int) int {
	n := c.Width
	for d := 1; d < depth && n < limit; d++ {
		n += 4 * c.trickleCap(d, limit)
	}
	return n
}

// TrickleDAG computes the trickle DAG of the chunks.
func (c Cfg) TrickleDAG(chunks [][]byte) *Ref {
	var kids []*Ref
	n := c.Width
	if n > len(chunks) {
		n = len(chunks)
	}
	for _, ch := range chunks[:n] {
		kids = append(kids, c.Leaf(ch, PBRaw))
	}
	chunks = chunks[n:]
	// The subtree at position i is as deep as i/4+1 and holds a contiguous run.
	for i := 0; len(chunks) > 0; i++ {
		n := c.trickleCap(i/4+1, len(chunks))
		if n > len(chunks) {
			n = len(chunks)
		}
		kids = append(kids, c.TrickleDAG(chunks[:n]))
		chunks = chunks[n:]
	}
	return c.Branch(kids)
}

// DAG computes the DAG of the chunks.
func (c Cfg) DAG(chunks [][]byte) *Ref {
	if c.Trickle {
		return c.TrickleDAG(chunks)
	}
	return c.Balanced(chunks)
}

// Walk calls f for all the nodes, parents first.
func (r *Ref) Walk(f func(*Ref)) {
	f(r)
	for _, k := range r.Kids {
		k.Walk(f)
	}
}

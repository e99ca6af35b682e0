package vt

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"sort"

	cid "github.com/ipfs/go-cid"
)

const (
	mc1 = 0x87c37b91114253d5
	mc2 = 0x4cf5ad432745937f
)

func fmix(k uint64) uint64 {
	k ^= k >> 33
	k *= 0xff51afd7ed558ccd
	k ^= k >> 33
	k *= 0xc4ceb9fe1a85ec53
	k ^= k >> 33
	return k
}

// inv is the inverse of an odd number modulo 2^64.
func inv(a uint64) uint64 {
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}

func unfmix(k uint64) uint64 {
	k ^= k >> 33
	k *= inv(0xc4ceb9fe1a85ec53)
	k ^= k >> 33
	k *= inv(0xff51afd7ed558ccd)
	k ^= k >> 33
	return k
}

// Murmur is the 64-bit hash used for sharding (the first half of the 128-bit
// murmur3 hash for 64-bit machines).
func Murmur(s string) uint64 {
	d := []byte(s)
	var h1, h2 uint64
	n := len(d)
	for len(d) >= 16 {
		k1, k2 := binary.LittleEndian.Uint64(d), binary.LittleEndian.Uint64(d[8:])
		d = d[16:]
		k1 *= mc1
		k1 = bits.RotateLeft64(k1, 31)
		k1 *= mc2
		h1 ^= k1
		h1 = bits.RotateLeft64(h1, 27)
		h1 += h2
		h1 = h1*5 + 0x52dce729
		k2 *= mc2
		k2 = bits.RotateLeft64(k2, 33)
		k2 *= mc1
		h2 ^= k2
		h2 = bits.RotateLeft64(h2, 31)
		h2 += h1
		h2 = h2*5 + 0x38495ab5
	}
	var tail [16]byte
	copy(tail[:], d)
	if len(d) > 8 {
		k2 := binary.LittleEndian.Uint64(tail[8:])
		k2 *= mc2
		k2 = bits.RotateLeft64(k2, 33)
		k2 *= mc1
		h2 ^= k2
	}
	if len(d) > 0 {
		k1 := binary.LittleEndian.Uint64(tail[:])
		k1 *= mc1
		k1 = bits.RotateLeft64(k1, 31)
		k1 *= mc2
		h1 ^= k1
	}
	h1 ^= uint64(n)
	h2 ^= uint64(n)
	h1 += h2
	h2 += h1
	h1 = fmix(h1)
	h2 = fmix(h2)
	h1 += h2
	return h1
}

// NameWithHash returns a 16-byte name with the given hash. Different salts give
// different names.
func NameWithHash(hash, salt uint64) string {
	h1, h2 := hash, salt
	h2 -= h1
	h1 -= h2
	h1, h2 = unfmix(h1), unfmix(h2)
	h2 -= h1
	h1 -= h2
	h1 ^= 16
	h2 ^= 16
	i5 := inv(5)
	h2 = (h2 - 0x38495ab5) * i5
	h2 -= h1
	h2 = bits.RotateLeft64(h2, -31)
	k2 := h2 * inv(mc1)
	k2 = bits.RotateLeft64(k2, -33)
	k2 *= inv(mc2)
	h1 = (h1 - 0x52dce729) * i5
	h1 = bits.RotateLeft64(h1, -27)
	k1 := h1 * inv(mc2)
	k1 = bits.RotateLeft64(k1, -31)
	k1 *= inv(mc1)
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:], k1)
	binary.LittleEndian.PutUint64(b[8:], k2)
	return string(b[:])
}

// Ent is the value of a directory entry.
type Ent struct {
	Cid  cid.Cid
	Size uint64
}

// Entries is the model of a directory.
type Entries map[string]Ent

// Copy returns a copy.
func (e Entries) Copy() Entries {
	o := Entries{}
	for k, v := range e {
		o[k] = v
	}
	return o
}

// Names returns the sorted names.
func (e Entries) Names() []string {
	var out []string
	for k := range e {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// RefShard is a node of an independently computed sharded directory.
type RefShard struct {
	Cid   cid.Cid
	Tsize uint64
	Block []byte
	Depth int
	Subs  map[int]*RefShard
}

// Digits returns the positions a name takes at each level for the width.
func Digits(name string, width int) []int {
	lg := bits.TrailingZeros(uint(width))
	h := Murmur(name)
	var out []int
	for c := 0; c+lg <= 64; c += lg {
		out = append(out, int(h>>(64-c-lg))&(width-1))
	}
	return out
}

// Prefix is the prefix of the link names at the position.
func Prefix(pos, width int) string {
	return fmt.Sprintf("%0*X", len(fmt.Sprintf("%X", width-1)), pos)
}

// HAMT computes the sharded directory. It returns nil if two names can't be
// told apart.
func (e Entries) HAMT(width int, h Hash) *RefShard {
	return hamtRef(e.Names(), e, width, h, 0, nil)
}

// LooseHAMT is like HAMT for trees of other implementations: well-formed, but
// with sub-shards of a single entry or none, as often as pick(n) returns 0.
func (e Entries) LooseHAMT(width int, h Hash, pick func(n int) int) *RefShard {
	return hamtRef(e.Names(), e, width, h, 0, pick)
}

func hamtRef(names []string, e Entries, width int, h Hash, level int, pick func(n int) int) *RefShard {
	groups := make([][]string, width)
	for _, n := range names {
		d := Digits(n, width)
		if level >= len(d) {
			return nil
		}
		groups[d[level]] = append(groups[d[level]], n)
	}
	r := &RefShard{Depth: level, Subs: map[int]*RefShard{}}
	var links []Link
	bf := make([]byte, width/8)
	for i, g := range groups {
		// Keep the deepest level for entries that need it.
		loose := pick != nil && level+2 < 64/bits.TrailingZeros(uint(width))
		if len(g) == 0 && (!loose || pick(4*width) != 0) {
			continue
		}
		bf[len(bf)-1-i/8] |= 1 << (i % 8)
		if len(g) == 1 && (!loose || pick(4) != 0) {
			v := e[g[0]]
			links = append(links, Link{Prefix(i, width) + g[0], v.Cid, v.Size})
			r.Tsize += v.Size
			continue
		}
		s := hamtRef(g, e, width, h, level+1, pick)
		if s == nil {
			return nil
		}
		r.Subs[i] = s
		links = append(links, Link{Prefix(i, width), s.Cid, s.Tsize})
		r.Tsize += s.Tsize
	}
	for len(bf) > 0 && bf[0] == 0 {
		bf = bf[1:]
	}
	if len(bf) == 0 {
		bf = nil
	}
	pb := &PB{Type: PBHAMTShard, Data: bf, HashType: U64(0x22), Fanout: U64(uint64(width))}
	r.Block = EncodeDagPB(links, pb.Encode())
	r.Cid = h.Cid(cid.DagProtobuf, r.Block)
	r.Tsize += uint64(len(r.Block))
	return r
}

// Walk calls f for all the shards, parents first.
func (r *RefShard) Walk(f func(*RefShard)) {
	f(r)
	for i := 0; i < 1<<12; i++ {
		if s := r.Subs[i]; s != nil {
			s.Walk(f)
		}
	}
}

// Path returns the shards on the path of the name.
func (r *RefShard) Path(name string, width int) []*RefShard {
	out := []*RefShard{r}
	for _, d := range Digits(name, width) {
		s := r.Subs[d]
		if s == nil {
			break
		}
		out = append(out, s)
		r = s
	}
	return out
}

// Basic computes the block of the basic directory.
func (e Entries) Basic(h Hash) (cid.Cid, []byte) {
	var links []Link
	for _, n := range e.Names() {
		links = append(links, Link{n, e[n].Cid, e[n].Size})
	}
	b := EncodeDagPB(links, (&PB{Type: PBDirectory}).Encode())
	return h.Cid(cid.DagProtobuf, b), b
}

// EstSize is the estimated size of the directory.
func (e Entries) EstSize() int {
	n := 0
	for k, v := range e {
		n += len(k) + v.Cid.ByteLen()
	}
	return n
}

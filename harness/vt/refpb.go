package vt

import (
	"encoding/binary"
	"errors"
	"sort"

	cid "github.com/ipfs/go-cid"
	mh "github.com/multiformats/go-multihash"
)

// The types of UnixFS nodes.
const (
	PBRaw = iota
	PBDirectory
	PBFile
	PBMetadata
	PBSymlink
	PBHAMTShard
)

// PB is an independent model of the UnixFS protobuf message.
type PB struct {
	Type       uint64
	Data       []byte // nil if absent
	Filesize   *uint64
	Blocksizes []uint64
	HashType   *uint64
	Fanout     *uint64
}

// U64 returns a pointer to v.
func U64(v uint64) *uint64 { return &v }

func tag(b []byte, field, wire int) []byte { return binary.AppendUvarint(b, uint64(field<<3|wire)) }

func appendBytes(b []byte, field int, d []byte) []byte {
	b = tag(b, field, 2)
	b = binary.AppendUvarint(b, uint64(len(d)))
	return append(b, d...)
}

func appendVarint(b []byte, field int, v uint64) []byte {
	return binary.AppendUvarint(tag(b, field, 0), v)
}

// Encode returns the canonical encoding of the message.
func (p *PB) Encode() []byte {
	b := appendVarint(nil, 1, p.Type)
	if p.Data != nil {
		b = appendBytes(b, 2, p.Data)
	}
	if p.Filesize != nil {
		b = appendVarint(b, 3, *p.Filesize)
	}
	for _, s := range p.Blocksizes {
		b = appendVarint(b, 4, s)
	}
	if p.HashType != nil {
		b = appendVarint(b, 5, *p.HashType)
	}
	if p.Fanout != nil {
		b = appendVarint(b, 6, *p.Fanout)
	}
	return b
}

var errPB = errors.New("malformed message")

// DecodePB decodes any valid encoding of the message.
func DecodePB(b []byte) (*PB, error) {
	p := &PB{}
	hasType := false
	for len(b) > 0 {
		k, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, errPB
		}
		b = b[n:]
		field, wire := k>>3, int(k&7)
		if field == 0 {
			return nil, errPB
		}
		var v uint64
		var d []byte
		switch wire {
		case 0:
			v, n = binary.Uvarint(b)
			if n <= 0 {
				return nil, errPB
			}
			b = b[n:]
		case 1:
			if len(b) < 8 {
				return nil, errPB
			}
			b = b[8:]
		case 2:
			l, n := binary.Uvarint(b)
			if n <= 0 || l > uint64(len(b)-n) {
				return nil, errPB
			}
			d = b[n : n+int(l)]
			b = b[n+int(l):]
		case 5:
			if len(b) < 4 {
				return nil, errPB
			}
			b = b[4:]
		default:
			return nil, errPB
		}
		switch {
		case field == 1 && wire == 0:
			p.Type, hasType = v, true
		case field == 2 && wire == 2:
			p.Data = append([]byte{}, d...)
		case field == 3 && wire == 0:
			p.Filesize = U64(v)
		case field == 4 && wire == 0:
			p.Blocksizes = append(p.Blocksizes, v)
		case field == 4 && wire == 2:
			for len(d) > 0 {
				v, n := binary.Uvarint(d)
				if n <= 0 {
					return nil, errPB
				}
				p.Blocksizes = append(p.Blocksizes, v)
				d = d[n:]
			}
		case field == 5 && wire == 0:
			p.HashType = U64(v)
		case field == 6 && wire == 0:
			p.Fanout = U64(v)
		}
	}
	if !hasType {
		return nil, errPB
	}
	return p, nil
}

// Size is the file size by the rules of the format.
func (p *PB) Size() uint64 {
	if p.Filesize == nil {
		return 0
	}
	return *p.Filesize
}

// Link is a link of a dag-pb node.
type Link struct {
	Name  string
	Cid   cid.Cid
	Tsize uint64
}

// EncodeDagPB encodes a dag-pb node, with the links sorted by name (stably).
func EncodeDagPB(links []Link, data []byte) []byte {
	ls := append([]Link(nil), links...)
	sort.SliceStable(ls, func(i, j int) bool { return ls[i].Name < ls[j].Name })
	var b []byte
	for _, l := range ls {
		lb := appendBytes(nil, 1, l.Cid.Bytes())
		lb = appendBytes(lb, 2, []byte(l.Name))
		lb = appendVarint(lb, 3, l.Tsize)
		b = appendBytes(b, 2, lb)
	}
	if data != nil {
		b = appendBytes(b, 1, data)
	}
	return b
}

// DecodeDagPB decodes a dag-pb node.
func DecodeDagPB(b []byte) (links []Link, data []byte, err error) {
	for len(b) > 0 {
		k, n := binary.Uvarint(b)
		if n <= 0 || k&7 != 2 {
			return nil, nil, errPB
		}
		b = b[n:]
		l, n := binary.Uvarint(b)
		if n <= 0 || l > uint64(len(b)-n) {
			return nil, nil, errPB
		}
		d := b[n : n+int(l)]
		b = b[n+int(l):]
		switch k >> 3 {
		case 1:
			data = d
		case 2:
			var lk Link
			for len(d) > 0 {
				k, n := binary.Uvarint(d)
				if n <= 0 {
					return nil, nil, errPB
				}
				d = d[n:]
				v, n := binary.Uvarint(d)
				if n <= 0 {
					return nil, nil, errPB
				}
				d = d[n:]
				switch k {
				case 1<<3 | 2, 2<<3 | 2:
					if v > uint64(len(d)) {
						return nil, nil, errPB
					}
					if k>>3 == 1 {
						if lk.Cid, err = cid.Cast(d[:v]); err != nil {
							return nil, nil, err
						}
					} else {
						lk.Name = string(d[:v])
					}
					d = d[v:]
				case 3 << 3:
					lk.Tsize = v
				default:
					return nil, nil, errPB
				}
			}
			links = append(links, lk)
		default:
			return nil, nil, errPB
		}
	}
	return links, data, nil
}

// Hash is a configuration for CIDs.
type Hash struct {
	Name    string
	Builder cid.Builder // nil for the default
	V0      bool
	MhType  uint64
	MhLen   int
}

// Cid computes the CID of a block independently.
func (h Hash) Cid(codec uint64, b []byte) cid.Cid {
	m, err := mh.Sum(b, h.MhType, h.MhLen)
	if err != nil {
		panic(err)
	}
	if h.V0 && codec == cid.DagProtobuf {
		return cid.NewCidV0(m)
	}
	return cid.NewCidV1(codec, m)
}

// Hashes are the CID configurations used by the checks.
var Hashes = []Hash{
	{"nil", nil, true, mh.SHA2_256, -1},
	{"v0", cid.V0Builder{}, true, mh.SHA2_256, -1},
	{"v0prefix", cid.Prefix{Version: 0, Codec: cid.DagProtobuf, MhType: mh.SHA2_256, MhLength: -1}, true, mh.SHA2_256, -1},
	{"v1", cid.V1Builder{Codec: cid.DagProtobuf, MhType: mh.SHA2_256}, false, mh.SHA2_256, -1},
	{"v1prefix", cid.Prefix{Version: 1, Codec: cid.DagProtobuf, MhType: mh.SHA2_256, MhLength: -1}, false, mh.SHA2_256, -1},
	{"blake2b", cid.Prefix{Version: 1, Codec: cid.DagProtobuf, MhType: mh.BLAKE2B_MIN + 31, MhLength: -1}, false, mh.BLAKE2B_MIN + 31, -1},
	{"sha512", cid.V1Builder{Codec: cid.DagProtobuf, MhType: mh.SHA2_512}, false, mh.SHA2_512, -1},
	{"trunc20", cid.Prefix{Version: 1, Codec: cid.DagProtobuf, MhType: mh.SHA2_256, MhLength: 20}, false, mh.SHA2_256, 20},
}

// SortCids sorts by bytes.
func SortCids(cs []cid.Cid) {
	sort.Slice(cs, func(i, j int) bool { return cs[i].KeyString() < cs[j].KeyString() })
}

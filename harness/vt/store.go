package vt

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sync"

	blocks "github.com/ipfs/go-block-format"
	cid "github.com/ipfs/go-cid"
	pi "github.com/ipfs/go-ipfs-posinfo"
	ipld "github.com/ipfs/go-ipld-format"
	_ "github.com/ipfs/go-merkledag" // registers the decoders
)

// ErrInjected is the error of the injected faults.
var ErrInjected = errors.New("injected storage fault")

// Store is an in-memory DAGService. Nodes are stored encoded and decoded anew
// every time they are fetched, as a real block store would do.
type Store struct {
	mu     sync.Mutex
	blocks map[string][]byte

	// OnGet and OnAdd are called for every block fetched or stored and may
	// return an error. They are called with the lock held.
	OnGet func(c cid.Cid) error
	OnAdd func(n ipld.Node) error
	// Stored is called, with the lock held, for every block that was stored.
	// With has it can look up blocks.
	Stored func(n ipld.Node, has func(cid.Cid) bool)
	// Missing has the blocks that can't be found.
	Missing map[string]bool
	// Hang makes the fetch of a missing block wait for the context.
	Hang bool
	// OnHang is called, without the lock, when a fetch starts to wait.
	OnHang  func()
	waiting int
	// Rand is the state of the generator that chooses the order in which
	// blocks arrive, 0 for the order requested.
	Rand uint64
	// Ctx makes fetching and storing fail if the context is done.
	Ctx bool

	GetCount, AddCount int
	Fetched            []cid.Cid
	Pos                []*pi.FilestoreNode
}

// NewStore returns an empty store.
func NewStore() *Store {
	return &Store{blocks: map[string][]byte{}, Missing: map[string]bool{}, Ctx: true}
}

// Clone returns a store with the same blocks and no faults.
func (s *Store) Clone() *Store {
	s.mu.Lock()
	defer s.mu.Unlock()
	o := NewStore()
	for k, v := range s.blocks {
		o.blocks[k] = v
	}
	return o
}

func (s *Store) next(n int) int {
	s.Rand ^= s.Rand << 13
	s.Rand ^= s.Rand >> 7
	s.Rand ^= s.Rand << 17
	return int(s.Rand % uint64(n))
}

// Len is the number of blocks.
func (s *Store) Len() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.blocks)
}

// Cids returns the CIDs of all the blocks, sorted.
func (s *Store) Cids() []cid.Cid {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []cid.Cid
	for k := range s.blocks {
		c, err := cid.Cast([]byte(k))
		if err != nil {
			panic(err)
		}
		out = append(out, c)
	}
	SortCids(out)
	return out
}

// Has tells whether the block was stored.
func (s *Store) Has(c cid.Cid) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	_, ok := s.blocks[c.KeyString()]
	return ok
}

// Raw returns the bytes of a block, nil if it isn't there.
func (s *Store) Raw(c cid.Cid) []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.blocks[c.KeyString()]
}

// PutRaw stores a block.
func (s *Store) PutRaw(c cid.Cid, b []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.blocks[c.KeyString()] = b
}

// SetMissing hides or restores a block.
func (s *Store) SetMissing(c cid.Cid, missing bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if missing {
		s.Missing[c.KeyString()] = true
	} else {
		delete(s.Missing, c.KeyString())
	}
}

// Heal removes all the faults.
func (s *Store) Heal() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Missing = map[string]bool{}
	s.OnGet, s.OnAdd = nil, nil
}

// SetHang makes the fetches of missing blocks wait for their context.
func (s *Store) SetHang(on bool, onHang func()) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Hang, s.OnHang = on, onHang
}

// Waiting tells how many fetches wait.
func (s *Store) Waiting() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.waiting
}

// hang waits for the context if fetches of missing blocks have to.
func (s *Store) hang(ctx context.Context) bool {
	s.mu.Lock()
	on, f := s.Hang, s.OnHang
	if on {
		s.waiting++
	}
	s.mu.Unlock()
	if !on {
		return false
	}
	if f != nil {
		f()
	}
	<-ctx.Done()
	s.mu.Lock()
	s.waiting--
	s.mu.Unlock()
	return true
}

// SetOnGet replaces the hook.
func (s *Store) SetOnGet(f func(cid.Cid) error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.OnGet = f
}

// SetOnAdd replaces the hook.
func (s *Store) SetOnAdd(f func(ipld.Node) error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.OnAdd = f
}

// Snapshot returns a copy of all the blocks.
func (s *Store) Snapshot() map[string]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := map[string]string{}
	for k, v := range s.blocks {
		out[k] = string(v)
	}
	return out
}

func decode(c cid.Cid, b []byte) (ipld.Node, error) {
	cp := append([]byte(nil), b...)
	odd := c.Prefix().Codec == OddCodec
	if odd {
		c = cid.NewCidV1(cid.DagProtobuf, c.Hash())
	}
	blk, err := blocks.NewBlockWithCid(cp, c)
	if err != nil {
		return nil, err
	}
	n, err := ipld.Decode(blk)
	if err == nil && odd {
		return &Odd{n}, nil
	}
	return n, err
}

// OddCodec is the codec of nodes of a foreign format, whose blocks look like
// those of protobuf nodes.
const OddCodec = cid.DagCBOR

// Odd is a node that is neither a protobuf nor a raw node.
type Odd struct{ ipld.Node }

// Cid implements ipld.Node.
func (o *Odd) Cid() cid.Cid { return cid.NewCidV1(OddCodec, o.Node.Cid().Hash()) }

// String implements ipld.Node.
func (o *Odd) String() string { return o.Cid().String() }

// Loggable implements ipld.Node.
func (o *Odd) Loggable() map[string]interface{} { return map[string]interface{}{"node": o.String()} }

// Copy implements ipld.Node.
func (o *Odd) Copy() ipld.Node { return &Odd{o.Node.Copy()} }

// fetch returns the block and whether it was found.
func (s *Store) fetch(c cid.Cid) (ipld.Node, bool, error) {
	s.mu.Lock()
	s.GetCount++
	s.Fetched = append(s.Fetched, c)
	if s.OnGet != nil {
		if err := s.OnGet(c); err != nil {
			s.mu.Unlock()
			return nil, true, err
		}
	}
	b, ok := s.blocks[c.KeyString()]
	if ok && s.Missing[c.KeyString()] {
		ok = false
	}
	s.mu.Unlock()
	if !ok {
		return nil, false, nil
	}
	n, err := decode(c, b)
	return n, true, err
}

// Get implements ipld.NodeGetter.
func (s *Store) Get(ctx context.Context, c cid.Cid) (ipld.Node, error) {
	if s.Ctx && ctx.Err() != nil {
		return nil, ctx.Err()
	}
	s.mu.Lock()
	count := s.GetCount
	s.mu.Unlock()
	n, ok, err := s.fetch(c)
	if err != nil {
		// As DAG services and their sessions do.
		if err == ipld.ErrNotFound || count%2 == 0 {
			return nil, err
		}
		return nil, fmt.Errorf("failed to get block for %s: %w", c, err)
	}
	if !ok {
		if s.hang(ctx) {
			return nil, ctx.Err()
		}
		return nil, ipld.ErrNotFound
	}
	return n, nil
}

// GetMany implements ipld.NodeGetter.
func (s *Store) GetMany(ctx context.Context, cids []cid.Cid) <-chan *ipld.NodeOption {
	set := cid.NewSet()
	var keys []cid.Cid
	for _, c := range cids {
		if set.Visit(c) {
			keys = append(keys, c)
		}
	}
	out := make(chan *ipld.NodeOption, len(keys)+1)
	s.mu.Lock()
	shuffled := s.Rand != 0
	yields := 0
	if shuffled {
		for i := len(keys) - 1; i > 0; i-- {
			j := s.next(i + 1)
			keys[i], keys[j] = keys[j], keys[i]
		}
		yields = s.next(4)
	}
	s.mu.Unlock()
	go func() {
		defer close(out)
		missing := 0
		for _, c := range keys {
			for i := 0; i < yields; i++ {
				runtime.Gosched()
			}
			if s.Ctx && ctx.Err() != nil {
				out <- &ipld.NodeOption{Err: ctx.Err()}
				return
			}
			n, ok, err := s.fetch(c)
			if err != nil {
				out <- &ipld.NodeOption{Err: err}
				return
			}
			if !ok {
				missing++
				continue
			}
			out <- &ipld.NodeOption{Node: n}
		}
		if missing > 0 {
			if s.hang(ctx) {
				out <- &ipld.NodeOption{Err: ctx.Err()}
				return
			}
			out <- &ipld.NodeOption{Err: fmt.Errorf("failed to fetch all nodes")}
		}
	}()
	return out
}

// Add implements ipld.DAGService.
func (s *Store) Add(ctx context.Context, n ipld.Node) error {
	if s.Ctx && ctx.Err() != nil {
		return ctx.Err()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.AddCount++
	if s.OnAdd != nil {
		if err := s.OnAdd(n); err != nil {
			return err
		}
	}
	if fn, ok := n.(*pi.FilestoreNode); ok {
		s.Pos = append(s.Pos, fn)
	}
	s.blocks[n.Cid().KeyString()] = append([]byte(nil), n.RawData()...)
	if s.Stored != nil {
		s.Stored(n, func(c cid.Cid) bool {
			_, ok := s.blocks[c.KeyString()]
			return ok
		})
	}
	return nil
}

// AddMany implements ipld.DAGService.
func (s *Store) AddMany(ctx context.Context, ns []ipld.Node) error {
	for _, n := range ns {
		if err := s.Add(ctx, n); err != nil {
			return err
		}
	}
	return nil
}

// Remove implements ipld.DAGService.
func (s *Store) Remove(ctx context.Context, c cid.Cid) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.blocks, c.KeyString())
	return nil
}

// RemoveMany implements ipld.DAGService.
func (s *Store) RemoveMany(ctx context.Context, cs []cid.Cid) error {
	for _, c := range cs {
		s.Remove(ctx, c)
	}
	return nil
}

var _ ipld.DAGService = (*Store)(nil)

// TakeFetched returns the blocks fetched since the last call.
func (s *Store) TakeFetched() []cid.Cid {
	s.mu.Lock()
	defer s.mu.Unlock()
	f := s.Fetched
	s.Fetched = nil
	return f
}

// CountFetched tells how many different blocks have been fetched.
func (s *Store) CountFetched() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	set := cid.NewSet()
	for _, c := range s.Fetched {
		set.Add(c)
	}
	return set.Len()
}

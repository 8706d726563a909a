package harness

import (
	"context"
	"sync"

	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

// refStore is the harness's own transactional key store: it can be cloned, so a history can be forked.
type refStore struct {
	mu sync.Mutex
	ns map[string]map[string][]byte
}

func newRefStore() *refStore { return &refStore{ns: map[string]map[string][]byte{}} }

func (s *refStore) Clone() *refStore {
	s.mu.Lock()
	defer s.mu.Unlock()
	rv := newRefStore()
	for n, m := range s.ns {
		c := make(map[string][]byte, len(m))
		for k, v := range m {
			c[k] = v
		}
		rv.ns[n] = c
	}
	return rv
}

type refTxn struct {
	base  map[string][]byte
	write map[string][]byte // nil value: deleted
}

func (x *refTxn) Get(ctx context.Context, key []byte, value proto.Message) error {
	v, ok := x.write[string(key)]
	if !ok {
		v, ok = x.base[string(key)]
	}
	if !ok || v == nil {
		return verifiable.ErrNoSuchKey
	}
	return proto.Unmarshal(v, value)
}

func (x *refTxn) Set(ctx context.Context, key []byte, value proto.Message) error {
	if value == nil {
		x.write[string(key)] = nil
		return nil
	}
	b, err := proto.Marshal(value)
	if err != nil {
		return err
	}
	if b == nil {
		b = []byte{}
	}
	x.write[string(key)] = b
	return nil
}

func (s *refStore) ExecuteReadOnly(ctx context.Context, namespace []byte, f func(ctx context.Context, db verifiable.KeyReader) error) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	return f(ctx, &refTxn{base: s.ns[string(namespace)], write: map[string][]byte{}})
}

func (s *refStore) ExecuteUpdate(ctx context.Context, namespace []byte, f func(ctx context.Context, db verifiable.KeyWriter) error) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	x := &refTxn{base: s.ns[string(namespace)], write: map[string][]byte{}}
	if err := f(ctx, x); err != nil {
		return err
	}
	m := s.ns[string(namespace)]
	if m == nil {
		m = map[string][]byte{}
		s.ns[string(namespace)] = m
	}
	for k, v := range x.write {
		if v == nil {
			delete(m, k)
		} else {
			m[k] = v
		}
	}
	return nil
}

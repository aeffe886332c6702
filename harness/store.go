package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	btreeassociated "github.com/DanLavine/willow/internal/datastructures/btree_associated"
	btreeonetomany "github.com/DanLavine/willow/internal/datastructures/btree_one_to_many"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

func init() { drivers["store"] = storeDriver }

func toKVs(kv KV) datatypes.KeyValues {
	r := datatypes.KeyValues{}
	for k, v := range kv {
		r[k] = toValue(v)
	}
	return r
}

func fromKVs(kvs datatypes.KeyValues) KV {
	r := KV{}
	for k, v := range kvs {
		r[k] = fromValue(v)
	}
	return r
}

func (q *Q) code() *queryassociatedaction.AssociatedActionQuery {
	b, err := json.Marshal(q.wire())
	must(err)
	r := &queryassociatedaction.AssociatedActionQuery{}
	must(json.Unmarshal(b, r))
	return r
}

func (m *M) code() *querymatchaction.MatchActionQuery {
	b, err := json.Marshal(m.wire())
	must(err)
	r := &querymatchaction.MatchActionQuery{}
	must(json.Unmarshal(b, r))
	return r
}

// a store of objects: the associated tree, or one-to-many tree with several groups
type storeIf interface {
	create(one string, kv KV, make func() any) (string, error)
	cof(one string, kv KV, make func() any, found func(row R)) (string, error)
	del(one string, kv KV, can func(row R) bool) error
	delID(one, id string, can func(row R) bool) error
	destroyID(one, id string, can func(row R) bool) error
	destroyAll(one string, can func(row R) bool) error
	query(one string, q *queryassociatedaction.AssociatedActionQuery, f func(row R) bool) error
	match(one string, m *querymatchaction.MatchActionQuery, f func(row R) bool) error
}

type assocStore struct{ t btreeassociated.BTreeAssociated }

func assocRow(i btreeassociated.AssociatedKeyValues) R {
	v, _ := i.Value().(int)
	return R{"id": i.AssociatedID(), "kv": fromKVs(i.KeyValues()), "v": v}
}

func assocRemove(can func(row R) bool) func(i btreeassociated.AssociatedKeyValues) bool {
	return func(i btreeassociated.AssociatedKeyValues) bool { return can(assocRow(i)) }
}

func (s assocStore) create(one string, kv KV, mk func() any) (string, error) {
	return s.t.Create(toKVs(kv), mk)
}
func (s assocStore) cof(one string, kv KV, mk func() any, found func(row R)) (string, error) {
	return s.t.CreateOrFind(toKVs(kv), mk, func(i btreeassociated.AssociatedKeyValues) { found(assocRow(i)) })
}
func (s assocStore) del(one string, kv KV, can func(row R) bool) error {
	return s.t.Delete(toKVs(kv), assocRemove(can))
}
func (s assocStore) delID(one, id string, can func(row R) bool) error {
	return s.t.DeleteByAssociatedID(id, assocRemove(can))
}
func (s assocStore) destroyID(one, id string, can func(row R) bool) error {
	return s.t.DestroyByAssociatedID(id, assocRemove(can))
}
func (s assocStore) destroyAll(one string, can func(row R) bool) error {
	return s.t.DestroyTree(assocRemove(can))
}
func (s assocStore) query(one string, q *queryassociatedaction.AssociatedActionQuery, f func(row R) bool) error {
	return s.t.QueryAction(q, assocRemove(f))
}
func (s assocStore) match(one string, m *querymatchaction.MatchActionQuery, f func(row R) bool) error {
	return s.t.MatchAction(m, assocRemove(f))
}

type manyStore struct{ t btreeonetomany.BTreeOneToMany }

func manyRow(i btreeonetomany.OneToManyItem) R {
	v, _ := i.Value().(int)
	return R{"id": i.ManyID(), "kv": fromKVs(i.ManyKeyValues()), "v": v, "one": i.OneID()}
}

func manyRemove(can func(row R) bool) func(i btreeonetomany.OneToManyItem) bool {
	return func(i btreeonetomany.OneToManyItem) bool { return can(manyRow(i)) }
}

func (s manyStore) create(one string, kv KV, mk func() any) (string, error) {
	panic("not offered")
}
func (s manyStore) cof(one string, kv KV, mk func() any, found func(row R)) (string, error) {
	return s.t.CreateOrFind(one, toKVs(kv), mk, func(i btreeonetomany.OneToManyItem) { found(manyRow(i)) })
}
func (s manyStore) del(one string, kv KV, can func(row R) bool) error {
	return s.t.DeleteOneOfManyByKeyValues(one, toKVs(kv), manyRemove(can))
}
func (s manyStore) delID(one, id string, can func(row R) bool) error {
	return s.t.DestroyOneOfManyByID(one, id, manyRemove(can))
}
func (s manyStore) destroyID(one, id string, can func(row R) bool) error {
	return s.t.DestroyOneOfManyByID(one, id, manyRemove(can))
}
func (s manyStore) destroyAll(one string, can func(row R) bool) error {
	return s.t.DestroyOne(one, manyRemove(can))
}
func (s manyStore) query(one string, q *queryassociatedaction.AssociatedActionQuery, f func(row R) bool) error {
	return s.t.QueryAction(one, q, manyRemove(f))
}
func (s manyStore) match(one string, m *querymatchaction.MatchActionQuery, f func(row R) bool) error {
	return s.t.MatchAction(one, m, manyRemove(f))
}

func stErr(err error) string {
	switch err {
	case nil:
		return "ok"
	case btreeassociated.ErrorKeyValuesAlreadyExists, btreeonetomany.ErrorManyKeyValuesAlreadyExist:
		return "exists"
	case btreeassociated.ErrorTreeItemDestroying, btreeonetomany.ErrorManyIDDestroying, btreeonetomany.ErrorManyKeyValuesDestroying:
		return "itemDestroying"
	case btreeassociated.ErrorTreeDestroying, btreeonetomany.ErrorOneIDDestroying:
		return "groupDestroying"
	}
	return "err: " + err.Error()
}

type storeRun struct {
	h    *Hist
	s    storeIf
	many bool
	g    *Gen
	ones []string
	pool []KV
	next atomic.Int64
	slow bool

	mu  sync.Mutex
	ids []string // ids the clients know of
}

func (s *storeRun) know(id string) {
	if id == "" {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.ids = append(s.ids, id)
	if len(s.ids) > 12 {
		s.ids = s.ids[1:]
	}
}

func (s *storeRun) someID(r *rand.Rand) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.ids) == 0 || r.Intn(15) == 0 {
		return "00000000-0000-4000-8000-000000000001"
	}
	return s.ids[r.Intn(len(s.ids))]
}

func (s *storeRun) knownIDs() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string{}, s.ids...)
}

func (s *storeRun) jit(r *rand.Rand) {
	if s.slow {
		jitter(r.Int63())
	}
}

func (s *storeRun) create(r *rand.Rand, one string, kv KV, fail bool) {
	v := int(s.next.Add(1))
	op := s.h.Inv("create", R{"one": one, "kv": kv, "v": v, "fail": fail})
	called := false
	id, err := s.s.create(one, kv, func() any {
		called = true
		s.jit(r)
		if fail {
			return nil
		}
		return v
	})
	if !fail {
		s.know(id)
	}
	op.Res(R{"st": stErr(err), "called": called, "found": false, "id": id})
}

func (s *storeRun) cof(r *rand.Rand, one string, kv KV, fail bool) {
	v := int(s.next.Add(1))
	op := s.h.Inv("cof", R{"one": one, "kv": kv, "v": v, "fail": fail})
	called, found, fv := false, false, any(0)
	id, err := s.s.cof(one, kv, func() any {
		called = true
		s.jit(r)
		if fail {
			return nil
		}
		return v
	}, func(row R) {
		found = true
		fv = row["v"]
		s.jit(r)
	})
	if !fail || found {
		s.know(id)
	}
	op.Res(R{"st": stErr(err), "called": called, "found": found, "id": id, "v": fv})
}

func (s *storeRun) asked(r *rand.Rand, can bool) (func(row R) bool, func(err error) R) {
	n, a := 0, R{"id": "", "kv": KV{}, "v": 0}
	f := func(row R) bool {
		n++
		if n > 1 { // asked twice
			a = R{"id": "twice", "kv": KV{}, "v": -1}
			return false
		}
		a = row
		s.jit(r)
		return can
	}
	return f, func(err error) R { return R{"st": stErr(err), "called": n > 0, "asked": a} }
}

func (s *storeRun) del(r *rand.Rand, one string, kv KV, can bool) {
	op := s.h.Inv("del", R{"one": one, "kv": kv, "can": can})
	f, res := s.asked(r, can)
	err := s.s.del(one, kv, f)
	op.Res(res(err))
}

func (s *storeRun) delID(r *rand.Rand, one, id string, can bool) {
	op := s.h.Inv("delId", R{"one": one, "id": id, "can": can})
	f, res := s.asked(r, can)
	err := s.s.delID(one, id, f)
	op.Res(res(err))
}

func (s *storeRun) destroyID(r *rand.Rand, one, id string, can bool) {
	op := s.h.Inv("destroyId", R{"one": one, "id": id, "can": can})
	f, res := s.asked(r, can)
	err := s.s.destroyID(one, id, f)
	op.Res(res(err))
}

func (s *storeRun) destroyAll(r *rand.Rand, one string, refuse []int) {
	op := s.h.Inv("destroyAll", R{"one": one, "refuse": refuse})
	asked := []R{}
	err := s.s.destroyAll(one, func(row R) bool {
		if row["v"].(int) < 0 { // an object of the hammering clients
			return true
		}
		asked = append(asked, row)
		s.jit(r)
		for _, x := range refuse {
			if row["v"] == x {
				return false
			}
		}
		return true
	})
	op.Res(R{"st": stErr(err), "called": len(asked) > 0, "asked": asked})
}

// hammer: a client creates, finds and deletes an object of its own, as fast as it can, for the given time
func (s *storeRun) hammer(one string, kv KV, d time.Duration) {
	op := s.h.Inv("hammer", R{"one": one})
	seen := map[string]bool{}
	mk := func() any { return -1 }
	yes := func(R) bool { return true }
	for end := time.Now().Add(d); time.Now().Before(end); {
		id, err := s.s.cof(one, kv, mk, func(R) {})
		seen[stErr(err)] = true
		if err == nil && !s.many {
			seen[stErr(s.s.delID(one, id, yes))] = true
		}
		seen[stErr(s.s.del(one, kv, yes))] = true
	}
	for s.s.del(one, kv, yes) != nil { // leave nothing behind
		time.Sleep(10 * time.Microsecond)
	}
	l := []string{}
	for k := range seen {
		l = append(l, k)
	}
	op.Res(R{"st": "ok", "answers": l})
}

func (s *storeRun) rows(r *rand.Rand, n int, f func(f func(row R) bool) error) R {
	rows := []R{}
	err := f(func(row R) bool {
		if row["v"].(int) < 0 {
			return true
		}
		rows = append(rows, row)
		s.jit(r)
		return len(rows) < n
	})
	return R{"st": stErr(err), "called": len(rows) > 0, "rows": rows}
}

func (s *storeRun) get(r *rand.Rand, one string, kv KV) {
	op := s.h.Inv("get", R{"one": one, "kv": kv})
	q := queryassociatedaction.KeyValuesToExactAssociatedActionQuery(toKVs(kv))
	op.Res(s.rows(r, 100, func(f func(row R) bool) error { return s.s.query(one, q, f) }))
}

func (s *storeRun) getID(r *rand.Rand, one, id string) {
	op := s.h.Inv("getId", R{"one": one, "id": id})
	q := queryassociatedaction.StringToAssociatedActionQuery(id)
	op.Res(s.rows(r, 100, func(f func(row R) bool) error { return s.s.query(one, q, f) }))
}

func (s *storeRun) query(r *rand.Rand, one string, q *Q, n int) {
	op := s.h.Inv("query", R{"one": one, "q": q.spec(), "n": n})
	c := q.code()
	op.Res(s.rows(r, n, func(f func(row R) bool) error { return s.s.query(one, c, f) }))
}

func (s *storeRun) match(r *rand.Rand, one string, m *M, n int) {
	op := s.h.Inv("match", R{"one": one, "q": m.spec(), "n": n})
	c := m.code()
	op.Res(s.rows(r, n, func(f func(row R) bool) error { return s.s.match(one, c, f) }))
}


// tags evaluates a query on key values alone, the way waiting consumers are matched to channels
func (s *storeRun) tags(q *Q, kv KV) {
	op := s.h.Inv("tags", R{"q": q.spec(), "kv": kv})
	yes := q.code().MatchTags(toKVs(kv))
	op.Res(R{"st": "ok", "yes": yes})
}

func storeDriver(c *Conf) {
	parallel(c.N, 8, func(i int) {
		rng := rand.New(rand.NewSource(c.Seed*1000003 + int64(i)))
		h := guard(40*time.Second, func(keep func(*Hist) *Hist) { storeHistory(c, i, rng, keep) })
		c.Out.Write(h)
	})
}

// related draws names that share key values with each other
func (g *Gen) related(n int) []KV {
	base := []KV{}
	seen := map[string]bool{}
	for tries := 0; len(base) < n && tries < 10*n; tries++ {
		var kv KV
		if len(base) == 0 || g.r.Intn(3) == 0 {
			kv = g.kv(1, len(g.keys))
		} else { // a neighbour: one key more, less or another value
			kv = pick(g.r, base).clone()
			k := pick(g.r, g.keys)
			if _, ok := kv[k]; ok && len(kv) > 1 && g.r.Intn(2) == 0 {
				delete(kv, k)
			} else {
				kv[k] = g.storedVal()
			}
		}
		if !seen[kv.key()] {
			seen[kv.key()] = true
			base = append(base, kv)
		}
	}
	return base
}

const all = 1 << 20

func (s *storeRun) some(r *rand.Rand) int {
	if r.Intn(5) == 0 {
		return 1 + r.Intn(3)
	}
	return all
}

// step is one random operation
func (s *storeRun) step(r *rand.Rand, names []KV, reads float64, kinds string) {
	one := pick(r, s.ones)
	kv := pick(r, names)
	if r.Float64() < reads {
		g := s.g.with(r)
		g.ids = s.knownIDs()
		switch kinds {
		case "match":
			s.match(r, one, g.match(), s.some(r))
		case "query":
			q := g.query(r.Intn(3))
			s.query(r, one, q, s.some(r))
			if r.Intn(2) == 0 {
				s.tags(q, pick(r, s.pool))
			}
		default:
			switch r.Intn(5) {
			case 0:
				s.query(r, one, g.query(1), s.some(r))
			case 1:
				s.match(r, one, g.match(), s.some(r))
			case 2:
				s.getID(r, one, s.someID(r))
			default:
				s.get(r, one, kv)
			}
		}
		return
	}
	fail, can := r.Intn(8) == 0, r.Intn(7) > 0
	switch y := r.Intn(100); {
	case y < 25 && !s.many:
		s.create(r, one, kv, fail)
	case y < 50:
		s.cof(r, one, kv, fail)
	case y < 72:
		s.del(r, one, kv, can)
	case y < 84 && !s.many:
		s.delID(r, one, s.someID(r), can)
	default:
		s.destroyID(r, one, s.someID(r), can)
	}
}

func storeHistory(c *Conf, i int, rng *rand.Rand, keep func(*Hist) *Hist) *Hist {
	many := i%3 == 2
	mode := pick(rng, []string{"seq", "conc", "conc", "conc", "part"})
	kinds, reads := "", 0.2
	switch c.Prop {
	case "query":
		mode, kinds = pick(rng, []string{"seq", "seq", "seq", "conc"}), "query"
	case "match":
		mode, kinds = pick(rng, []string{"seq", "seq", "conc"}), "match"
	}
	if c.Prop == "destroy" && i%5 == 3 {
		mode = "hammer"
	}
	if kinds != "" && i%4 == 1 {
		mode = "churn"
	}
	g := newGen(rng, 2+rng.Intn(3), 3+rng.Intn(5))
	if rng.Intn(2) == 0 {
		g.any = 0.25
	}
	s := &storeRun{g: g, many: many, ones: []string{""}}
	tree := "assoc"
	if many {
		tree = "many"
		s.ones = []string{"x", "y"}[:1+rng.Intn(2)]
		s.s = manyStore{btreeonetomany.NewThreadSafe()}
	} else {
		s.s = assocStore{btreeassociated.NewThreadSafe()}
	}
	s.h = keep(NewHist(fmt.Sprintf("store-%s-%s-%s-%d-%d", c.Prop, tree, mode, c.Seed, i), R{}))
	s.h.vals = g.vals
	np := 2 + rng.Intn(7)
	if kinds != "" {
		np = 4 + rng.Intn(12)
	}
	s.pool = g.related(np)
	run := func(clients, steps int, f func(r *rand.Rand, c int)) {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for k := 0; k < clients; k++ {
			wg.Add(1)
			rr := rand.New(rand.NewSource(rng.Int63()))
			go func(k int) {
				defer wg.Done()
				<-start
				for x := 0; x < steps; x++ {
					f(rr, k)
				}
			}(k)
		}
		close(start)
		if !waitOr(&wg, 15*time.Second) {
			s.h.Stuck()
		}
	}
	whole := c.Prop == "destroy"
	p := pick(rng, []float64{0, 0.4, 0.8})
	if kinds != "" {
		p = 0.8
	}
	fill := func() {
		for _, kv := range s.pool {
			for _, one := range s.ones {
				if rng.Float64() < p {
					s.cof(rng, one, kv, false)
				}
			}
		}
	}
	fill()
	switch mode {
	case "seq":
		if kinds != "" {
			for x := 0; x < 30; x++ {
				s.step(rng, s.pool, 0.85, kinds)
			}
			break
		}
		for x := 0; x < 50; x++ {
			if rng.Intn(30) == 0 || (whole && rng.Intn(8) == 0) {
				s.destroyAll(rng, pick(rng, s.ones), s.refuse(rng, rng.Intn(3)))
			} else {
				s.step(rng, s.pool, reads, kinds)
			}
		}
	case "conc":
		s.slow = rng.Intn(4) > 0
		names := s.pool[:min(len(s.pool), 1+rng.Intn(4))]
		rd := reads
		if kinds != "" {
			names, rd = s.pool, 0.4
		}
		run(3+rng.Intn(3), 6, func(r *rand.Rand, k int) {
			if k == 0 && whole && r.Intn(3) == 0 {
				s.destroyAll(r, pick(r, s.ones), s.refuse(r, r.Intn(2)))
			} else {
				s.step(r, names, rd, kinds)
			}
		})
	case "churn":
		// some create and delete, without a pause, what the others ask for
		if len(s.pool) > 7 {
			s.pool = s.pool[:7]
		}
		run(5, 12, func(r *rand.Rand, k int) {
			g := s.g.with(r)
			one := pick(r, s.ones)
			if k < 3 {
				kv := s.pool[(k+3*r.Intn(2))%len(s.pool)]
				s.cof(r, one, kv, false)
				s.del(r, one, kv, true)
				return
			}
			if kinds == "match" {
				s.match(r, one, g.near(pick(r, s.pool)), all)
				return
			}
			s.query(r, one, g.split(pick(r, s.pool)), all)
		})
	case "hammer":
		var wg sync.WaitGroup
		for k := 0; k < 3; k++ {
			wg.Add(1)
			kv := KV{g.keys[0]: fmt.Sprintf("13:hammer %d", k), g.keys[1]: "13:hammer"}
			go func(one string) { defer wg.Done(); s.hammer(one, kv, 12*time.Millisecond) }(s.ones[k%len(s.ones)])
		}
		r2 := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for x := 0; x < 15; x++ {
				s.step(r2, s.pool, reads, kinds)
			}
		}()
		for x := 0; x < 25; x++ {
			s.destroyAll(rng, pick(rng, s.ones), s.refuse(rng, rng.Intn(2)))
			time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
		}
		if !waitOr(&wg, 15*time.Second) {
			s.h.Stuck()
		}
	case "part":
		// everybody has names of its own, which share key values with the names of others
		clients := min(len(s.pool), 3+rng.Intn(4))
		run(clients, 30, func(r *rand.Rand, k int) {
			own := []KV{}
			for j := k; j < len(s.pool); j += clients {
				own = append(own, s.pool[j])
			}
			kv, one := pick(r, own), s.ones[k%len(s.ones)]
			switch y := r.Intn(10); {
			case y < 4:
				if s.many {
					s.cof(r, one, kv, r.Intn(10) == 0)
				} else {
					s.create(r, one, kv, r.Intn(10) == 0)
				}
			case y < 7:
				s.del(r, one, kv, true)
			default:
				s.get(r, one, kv)
			}
		})
	}
	s.slow = false
	fin := make(chan struct{})
	go func() {
		defer close(fin)
		for _, one := range s.ones {
			s.query(rng, one, newQ(), all)
			for _, kv := range s.pool {
				s.get(rng, one, kv)
			}
			for _, id := range s.knownIDs() {
				s.getID(rng, one, id)
			}
		}
		// everything can be deleted and created again: nothing was left behind
		if rng.Intn(3) == 0 || whole {
			one := pick(rng, s.ones)
			if whole || rng.Intn(2) == 0 {
				s.destroyAll(rng, one, []int{})
			} else {
				for _, kv := range s.pool {
					s.del(rng, one, kv, true)
				}
			}
			s.query(rng, one, newQ(), all)
			s.cof(rng, one, s.pool[0], false)
			s.get(rng, one, s.pool[0])
			g.ids = s.knownIDs()
			for x := 0; x < 3; x++ {
				s.query(rng, one, g.query(1), all)
				s.match(rng, one, g.match(), all)
			}
		}
	}()
	select {
	case <-fin:
	case <-time.After(15 * time.Second):
		hung.Add(1)
		s.h.Stuck()
	}
	return s.h
}

func (s *storeRun) refuse(r *rand.Rand, n int) []int {
	out := []int{}
	for i := 0; i < n; i++ {
		out = append(out, 1+r.Intn(int(s.next.Load()+1)))
	}
	return out
}

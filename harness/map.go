package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/DanLavine/willow/internal/datastructures/btree"
	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

func init() { drivers["map"] = mapDriver }

// toValue builds the typed value the way a client does, from its JSON form
func toValue(v string) datatypes.EncapsulatedValue {
	b, err := json.Marshal(wireVal(v))
	must(err)
	var e datatypes.EncapsulatedValue
	must(json.Unmarshal(b, &e))
	return e
}

func fromValue(e datatypes.EncapsulatedValue) string {
	b, err := json.Marshal(e)
	if err != nil {
		return "0:" + err.Error()
	}
	var m any
	must(json.Unmarshal(b, &m))
	return unwireVal(m)
}

// jitter runs inside callbacks: the structure holds locks and other goroutines get their turn
func jitter(x int64) {
	switch x % 8 {
	case 0, 1, 2:
		runtime.Gosched()
	case 3:
		for i := int64(0); i < x%2000; i++ {
			_ = i
		}
	case 4:
		time.Sleep(time.Duration(x%150) * time.Microsecond)
	}
}

type mapRun struct {
	h    *Hist
	t    btree.BTree
	g    *Gen
	keys []string
	vals map[string]datatypes.EncapsulatedValue
	next atomic.Int64
	slow bool
}

func (m *mapRun) jit(r *rand.Rand) {
	if m.slow {
		jitter(r.Int63())
	}
}

func btErr(err error) string {
	switch err {
	case nil:
		return "ok"
	case btree.ErrorKeyAlreadyExists:
		return "exists"
	case btree.ErrorKeyDestroying:
		return "keyDestroying"
	case btree.ErrorTreeDestroying:
		return "treeDestroying"
	}
	return "err: " + err.Error()
}

func (m *mapRun) create(r *rand.Rand, k string, fail bool) {
	v := int(m.next.Add(1))
	op := m.h.Inv("create", R{"k": k, "v": v, "fail": fail})
	called := false
	err := m.t.Create(m.vals[k], func() any {
		called = true
		m.jit(r)
		if fail {
			return nil
		}
		return v
	})
	op.Res(R{"st": btErr(err), "called": called})
}

func (m *mapRun) cof(r *rand.Rand, k string, fail bool) {
	v := int(m.next.Add(1))
	op := m.h.Inv("cof", R{"k": k, "v": v, "fail": fail})
	called, found, fv := false, false, 0
	err := m.t.CreateOrFind(m.vals[k], func() any {
		called = true
		m.jit(r)
		if fail {
			return nil
		}
		return v
	}, func(item any) {
		found = true
		fv, _ = item.(int)
		m.jit(r)
	})
	op.Res(R{"st": btErr(err), "called": called, "found": found, "v": fv})
}

func (m *mapRun) remove(r *rand.Rand, kind, k string, can bool) {
	op := m.h.Inv(kind, R{"k": k, "can": can})
	called, v := false, 0
	f := func(key datatypes.EncapsulatedValue, item any) bool {
		if called || fromValue(key) != k { // asked twice, or about another key
			v = -1
			return false
		}
		called = true
		v, _ = item.(int)
		m.jit(r)
		return can
	}
	var err error
	if kind == "del" {
		err = m.t.Delete(m.vals[k], f)
	} else {
		err = m.t.Destroy(m.vals[k], f)
	}
	op.Res(R{"st": btErr(err), "called": called, "v": v})
}

func (m *mapRun) iter(r *rand.Rand, c, k string, lo, hi, n int) {
	op := m.h.Inv("iter", R{"c": c, "k": k, "min": lo, "max": hi, "n": n})
	rows := []R{}
	key := toValue(k)
	tr := v1common.TypeRestrictions{MinDataType: datatypes.DataType(lo), MaxDataType: datatypes.DataType(hi)}
	f := func(key datatypes.EncapsulatedValue, item any) bool {
		v, _ := item.(int)
		if v < 0 { // a key of the hammering clients
			return true
		}
		rows = append(rows, R{"k": fromValue(key), "v": v})
		m.jit(r)
		return len(rows) < n
	}
	var err error
	switch c {
	case "=", "any":
		err = m.t.Find(key, tr, f)
	case "!=":
		err = m.t.FindNotEqual(key, tr, f)
	case "<":
		err = m.t.FindLessThan(key, tr, f)
	case "<=":
		err = m.t.FindLessThanOrEqual(key, tr, f)
	case ">":
		err = m.t.FindGreaterThan(key, tr, f)
	case ">=":
		err = m.t.FindGreaterThanOrEqual(key, tr, f)
	}
	op.Res(R{"st": btErr(err), "called": len(rows) > 0, "rows": rows})
}

func (m *mapRun) get(r *rand.Rand, k string) {
	t, _ := splitVal(k)
	if t == 1024 {
		m.iter(r, "any", k, 1024, 1024, 1<<20)
		return
	}
	m.iter(r, "=", k, t, t, 1<<20)
}

func (m *mapRun) all(r *rand.Rand) { m.iter(r, "any", "1024:", 1, 1024, 1<<20) }

func (m *mapRun) someIter(r *rand.Rand) {
	c := pick(r, []string{"=", "any", "!=", "<", "<=", ">", ">="})
	k := pick(r, m.keys)
	if r.Intn(3) == 0 {
		k = m.g.vals.add(pick(r, m.g.pool))
	}
	t, _ := splitVal(k)
	if t == 1024 {
		c = "any"
	}
	if c == "any" {
		k = "1024:"
	}
	if t == 1024 {
		t = pick(r, allTypes)
	}
	lo, hi := m.g.with(r).typeRange(t)
	n := 1 << 20
	if r.Intn(3) == 0 {
		n = 1 + r.Intn(4)
	}
	m.iter(r, c, k, lo, hi, n)
}

func (m *mapRun) destroyAll(r *rand.Rand, refuse []string) {
	op := m.h.Inv("destroyAll", R{"refuse": nz(refuse)})
	asked := []R{}
	no := map[string]bool{}
	for _, k := range refuse {
		no[k] = true
	}
	err := m.t.DestroyAll(func(key datatypes.EncapsulatedValue, item any) bool {
		v, _ := item.(int)
		if v < 0 {
			return true
		}
		k := fromValue(key)
		asked = append(asked, R{"k": k, "v": v})
		m.jit(r)
		return !no[k]
	})
	op.Res(R{"st": btErr(err), "called": len(asked) > 0, "asked": asked})
}

// hammer: a client creates, finds and deletes keys of its own, as fast as it can, for the given time
func (m *mapRun) hammer(keys []datatypes.EncapsulatedValue, d time.Duration) {
	op := m.h.Inv("hammer", R{})
	seen := map[string]bool{}
	mk := func() any { return -1 }
	one := func(any) {}
	it := func(datatypes.EncapsulatedValue, any) bool { return true }
	for end := time.Now().Add(d); time.Now().Before(end); {
		for _, k := range keys {
			tr := v1common.TypeRestrictions{MinDataType: k.Type, MaxDataType: k.Type}
			seen[btErr(m.t.CreateOrFind(k, mk, one))] = true
			seen[btErr(m.t.Find(k, tr, it))] = true
			seen[btErr(m.t.Delete(k, it))] = true
		}
	}
	for _, k := range keys { // leave nothing behind
		for m.t.Delete(k, it) != nil {
			runtime.Gosched()
		}
	}
	l := []string{}
	for k := range seen {
		l = append(l, k)
	}
	op.Res(R{"st": "ok", "answers": l})
}

func (m *mapRun) empty() {
	op := m.h.Inv("empty", R{})
	e := m.t.Empty()
	op.Res(R{"st": "ok", "empty": e})
}

func mapDriver(c *Conf) {
	parallel(c.N, 8, func(i int) {
		rng := rand.New(rand.NewSource(c.Seed*1000003 + int64(i)))
		h := guard(40*time.Second, func(keep func(*Hist) *Hist) { mapHistory(c, i, rng, keep) })
		c.Out.Write(h)
	})
}

// mapKeys are the keys of a history: integers of one type, or a mix of types, or everything
func mapKeys(g *Gen, r *rand.Rand, n int) []string {
	set := map[string]bool{}
	keys := []string{}
	add := func(k string) {
		if !set[k] {
			set[k] = true
			keys = append(keys, g.vals.add(k))
		}
	}
	kind := r.Intn(3)
	for tries := 0; len(keys) < n && tries < n*20; tries++ {
		switch kind {
		case 0:
			add(fmt.Sprintf("10:%d", r.Intn(2*n)))
		case 1:
			add(fmt.Sprintf("%d:%d", pick(r, []int{1, 6, 10, 12, 13}), r.Intn(n)))
		default:
			t := pick(r, allTypes)
			if r.Intn(2) == 0 {
				add(fmt.Sprintf("%d:%s", t, pick(r, valPools[t])))
			} else {
				add(fmt.Sprintf("%d:%d", t, r.Intn(100)))
			}
		}
	}
	if kind > 0 || r.Intn(3) == 0 {
		add("1024:")
	}
	return keys
}

func mapHistory(c *Conf, i int, rng *rand.Rand, keep func(*Hist) *Hist) *Hist {
	g := newGen(rng, 2, 6)
	mode := pick(rng, []string{"seq", "conc", "conc", "conc", "part"})
	if c.Prop == "ranges" {
		mode = pick(rng, []string{"seq", "seq", "conc"})
	}
	if c.Prop == "destroy" && i%4 == 3 {
		mode = "hammer"
	}
	size := 2 + rng.Intn(4)
	t, err := btree.NewThreadSafe(size)
	must(err)
	m := &mapRun{t: t, g: g, vals: map[string]datatypes.EncapsulatedValue{}}
	m.h = keep(NewHist(fmt.Sprintf("map-%s-%s-%d-%d", c.Prop, mode, c.Seed, i), R{"size": size}))
	m.h.vals = g.vals
	nk := pick(rng, []int{3, 6, 10, 16, 30})
	m.keys = mapKeys(g, rng, nk)
	g.pool = append(g.pool, m.keys...)
	for _, k := range g.pool {
		if t, _ := splitVal(k); t == 1024 {
			g.vals.add(k)
		}
		m.vals[k] = toValue(k)
	}
	pool := []string{}
	for _, k := range g.pool {
		if t, _ := splitVal(k); t != 1024 {
			pool = append(pool, k)
		}
	}
	g.pool = pool
	// some keys are there from the beginning
	ini := []R{}
	p := pick(rng, []float64{0, 0.3, 0.7, 1})
	for _, k := range m.keys {
		if rng.Float64() < p {
			v := int(m.next.Add(1))
			must(t.Create(m.vals[k], func() any { return v }))
			ini = append(ini, R{"k": k, "v": v})
		}
	}
	m.h.Cfg["init"] = ini
	run := func(clients, steps int, f func(r *rand.Rand, c int)) {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for k := 0; k < clients; k++ {
			wg.Add(1)
			rr := rand.New(rand.NewSource(rng.Int63()))
			go func(k int) {
				defer wg.Done()
				<-start
				for s := 0; s < steps; s++ {
					f(rr, k)
				}
			}(k)
		}
		close(start)
		if !waitOr(&wg, 15*time.Second) {
			m.h.Stuck()
		}
	}
	whole := c.Prop == "destroy"
	iters := 0.15
	if c.Prop == "ranges" {
		iters = 0.6
	}
	hot := m.keys
	step := func(r *rand.Rand, k string) {
		x := r.Float64()
		if x < iters {
			if c.Prop == "ranges" || r.Intn(2) == 0 {
				m.someIter(r)
			} else {
				m.get(r, k)
			}
			return
		}
		switch y := r.Intn(100); {
		case y < 30:
			m.create(r, k, r.Intn(8) == 0)
		case y < 50:
			m.cof(r, k, r.Intn(8) == 0)
		case y < 80:
			m.remove(r, "del", k, r.Intn(6) > 0)
		case y < 92:
			m.remove(r, "destroy", k, r.Intn(6) > 0)
		case y < 95 && mode != "hammer": // the hammering clients' keys count as well
			m.empty()
		default:
			m.get(r, k)
		}
	}
	switch mode {
	case "seq":
		n := 60
		for s := 0; s < n; s++ {
			if rng.Intn(40) == 0 || (whole && rng.Intn(10) == 0) {
				m.destroyAll(rng, m.refuse(rng, rng.Intn(3)))
			} else {
				step(rng, pick(rng, m.keys))
			}
		}
	case "conc":
		m.slow = rng.Intn(4) > 0
		hot = nil
		for _, j := range rng.Perm(len(m.keys))[:min(len(m.keys), 2+rng.Intn(6))] {
			hot = append(hot, m.keys[j])
		}
		clients, steps := 3+rng.Intn(3), 6
		run(clients, steps, func(r *rand.Rand, k int) {
			if k == 0 && whole && r.Intn(3) == 0 {
				m.destroyAll(r, m.refuse(r, r.Intn(2)))
			} else {
				step(r, pick(r, hot))
			}
		})
	case "hammer":
		var wg sync.WaitGroup
		for k := 0; k < 3; k++ {
			wg.Add(1)
			own := []datatypes.EncapsulatedValue{datatypes.String(fmt.Sprintf("hammer %d", k)), datatypes.Int(100000 + k)}
			go func() { defer wg.Done(); m.hammer(own, 12*time.Millisecond) }()
		}
		r2 := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for x := 0; x < 15; x++ {
				step(r2, pick(r2, m.keys))
			}
		}()
		for x := 0; x < 25; x++ {
			m.destroyAll(rng, m.refuse(rng, rng.Intn(2)))
			time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
		}
		if !waitOr(&wg, 15*time.Second) {
			m.h.Stuck()
		}
	case "part":
		// every client has its own keys: what it sees is determined, whatever the others do to the tree
		clients := min(len(m.keys), 4+rng.Intn(5))
		run(clients, 60, func(r *rand.Rand, k int) {
			own := []string{}
			for j := k; j < len(m.keys); j += clients {
				own = append(own, m.keys[j])
			}
			key := pick(r, own)
			switch y := r.Intn(10); {
			case y < 4:
				m.create(r, key, false)
			case y < 7:
				m.remove(r, "del", key, true)
			default:
				m.get(r, key)
			}
		})
	}
	// the end of the story: everything can be found in every way
	m.slow = false
	fin := make(chan struct{})
	go func() {
		defer close(fin)
		m.all(rng)
		for _, k := range m.keys {
			m.get(rng, k)
		}
		for k := 0; k < 4; k++ {
			m.someIter(rng)
		}
		m.empty()
		if whole || rng.Intn(4) == 0 {
			m.destroyAll(rng, nil)
			m.empty()
			m.create(rng, m.keys[0], false)
			m.all(rng)
		}
	}()
	select {
	case <-fin:
	case <-time.After(15 * time.Second):
		hung.Add(1)
		m.h.Stuck()
	}
	return m.h
}

func (m *mapRun) refuse(r *rand.Rand, n int) []string {
	out := []string{}
	for i := 0; i < n; i++ {
		out = append(out, pick(r, m.keys))
	}
	return out
}

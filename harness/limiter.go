package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"time"

	"github.com/DanLavine/urlrouter"
	"github.com/DanLavine/willow/internal/limiter/api/v1/handlers"
	limitrouter "github.com/DanLavine/willow/internal/limiter/api/v1/router"
	"github.com/DanLavine/willow/internal/limiter/counters"
	"github.com/DanLavine/willow/internal/limiter/overrides"
	"github.com/DanLavine/willow/internal/limiter/rules"
	"github.com/DanLavine/willow/pkg/clients"
)

func init() { drivers["limiter"] = limiterDriver }

// newLimiterService is the limiter service, as cmd/limiter builds it, without the TCP listener
func newLimiterService(ctx context.Context, lockerURL string) http.Handler {
	oc, err := overrides.NewOverrideConstructor("memory")
	must(err)
	ov := overrides.NewDefaultOverridesClientLocal(oc)
	rc, err := rules.NewRuleConstructor("memory")
	must(err)
	ru := rules.NewLocalRulesClient(rc, ov)
	cc, err := counters.NewCountersConstructor("memory")
	must(err)
	ct := counters.NewCountersClientLocal(cc, ru)
	mux := urlrouter.New()
	limitrouter.AddV1LimiterRoutes(newLogger(), mux, handlers.NewGroupRuleHandler(ctx, &clients.Config{URL: lockerURL}, ru, ct))
	return mux
}

type limRun struct {
	h   *Hist
	mux http.Handler
	g   *Gen
	mu  sync.Mutex

	rules []string
	rkv   map[string]KV
	ovs   map[string][]string
}

func st(code int) string {
	switch code {
	case 200, 201, 204:
		return "ok"
	case 400:
		return "bad"
	case 404:
		return "missing"
	case 409:
		return "conflict"
	}
	return fmt.Sprintf("http%d", code)
}

func (l *limRun) do(kind string, args R, method, path string, body any, ok func(out map[string]any, raw []byte) R) (string, map[string]any) {
	op := l.h.Inv(kind, args)
	code, out, raw := call(context.Background(), l.mux, method, path, body)
	s := st(code)
	r := R{"st": s}
	if s == "ok" && ok != nil {
		for k, v := range ok(out, raw) {
			r[k] = v
		}
	}
	if code >= 500 {
		r["msg"] = string(raw[:min(len(raw), 300)])
		if code == 500 && kind == "ctr.add" && maxStall() > 150_000 {
			r["st"] = "stalled"
		}
	}
	op.Res(r)
	return s, out
}

const noID = "00000000-0000-4000-8000-0000000000ff"

func num(x any) int {
	f, _ := x.(float64)
	return int(f)
}

func limRow(m map[string]any) R {
	return R{"id": digs(m, "State", "ID"), "kv": unwireKV(dig(m, "Spec", "DBDefinition", "GroupByKeyValues")), "limit": num(dig(m, "Spec", "Properties", "Limit"))}
}

func limRows(raw []byte) R {
	var ls []map[string]any
	if err := json.Unmarshal(raw, &ls); err != nil {
		return R{"st": "badjson"}
	}
	rows := []R{}
	for _, m := range ls {
		rows = append(rows, limRow(m))
	}
	return R{"rows": rows}
}

func (l *limRun) createRule(kv KV, limit int) {
	s, out := l.do("rule.create", R{"kv": kv, "limit": limit}, "POST", "/v1/limiter/rules",
		R{"Spec": R{"DBDefinition": R{"GroupByKeyValues": kv.wire()}, "Properties": R{"Limit": limit}}},
		func(out map[string]any, raw []byte) R { return R{"id": digs(out, "State", "ID")} })
	if s == "ok" {
		l.mu.Lock()
		id := digs(out, "State", "ID")
		l.rules = append(l.rules, id)
		l.rkv[id] = kv
		l.mu.Unlock()
	}
}

func (l *limRun) someRule(r *rand.Rand) string {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.rules) == 0 || r.Intn(25) == 0 {
		return noID
	}
	if r.Intn(3) == 0 {
		return pick(r, l.rules)
	}
	return l.rules[len(l.rules)-1-r.Intn(min(3, len(l.rules)))]
}

func (l *limRun) someOv(r *rand.Rand, rule string) string {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.ovs[rule]) == 0 || r.Intn(20) == 0 {
		for _, o := range l.ovs { // an override of another rule
			if len(o) > 0 && r.Intn(2) == 0 {
				return o[0]
			}
		}
		return noID
	}
	return pick(r, l.ovs[rule])
}

func (l *limRun) createOv(rule string, kv KV, limit int) {
	s, out := l.do("ov.create", R{"rule": rule, "kv": kv, "limit": limit}, "POST", "/v1/limiter/rules/"+rule+"/overrides",
		R{"Spec": R{"DBDefinition": R{"GroupByKeyValues": kv.wire()}, "Properties": R{"Limit": limit}}},
		func(out map[string]any, raw []byte) R { return R{"id": digs(out, "State", "ID")} })
	if s == "ok" {
		l.mu.Lock()
		l.ovs[rule] = append(l.ovs[rule], digs(out, "State", "ID"))
		l.mu.Unlock()
	}
}

// ovKV draws key values for an override of the rule: mostly the rule's keys plus something
func (l *limRun) ovKV(r *rand.Rand, rule string) KV {
	l.mu.Lock()
	base := l.rkv[rule]
	l.mu.Unlock()
	kv := l.g.kv(0, 2)
	if r.Intn(10) > 0 {
		for k, v := range base {
			if _, ok := kv[k]; !ok || r.Intn(2) == 0 {
				kv[k] = v
				if r.Intn(3) == 0 {
					kv[k] = l.g.storedVal()
				}
			}
		}
	}
	if len(kv) == 0 {
		kv = l.g.kv(1, 2)
	}
	return kv
}

func (l *limRun) counter(kv KV, n int) {
	l.do("ctr.add", R{"kv": kv, "n": n}, "PUT", "/v1/limiter/counters",
		R{"Spec": R{"DBDefinition": R{"KeyValues": kv.wire()}, "Properties": R{"Counters": n}}}, nil)
}

func (l *limRun) setCounter(kv KV, n int) {
	l.do("ctr.set", R{"kv": kv, "n": n}, "PUT", "/v1/limiter/counters/set",
		R{"Spec": R{"DBDefinition": R{"KeyValues": kv.wire()}, "Properties": R{"Counters": n}}}, nil)
}

func (l *limRun) queryCounters(q *Q) {
	l.do("ctr.query", R{"q": q.spec()}, "GET", "/v1/limiter/counters/query", q.wire(), func(_ map[string]any, raw []byte) R {
		var ls []map[string]any
		if err := json.Unmarshal(raw, &ls); err != nil {
			return R{"st": "badjson"}
		}
		rows := []R{}
		for _, m := range ls {
			rows = append(rows, R{"kv": unwireKV(dig(m, "Spec", "DBDefinition", "KeyValues")), "n": num(dig(m, "Spec", "Properties", "Counters"))})
		}
		return R{"rows": rows}
	})
}

// burst: many clients change a few counters at the same time, as fast as they can.  When decs is set every client
// takes back what it added, or a part of it, and no rule may apply.
func (l *limRun) burst(kvs []KV, clients, per int, decs bool) {
	op := l.h.Inv("ctr.burst", R{"clients": clients, "per": per, "decs": decs})
	type cell struct{ acc, ref, net, bad int }
	cells := make([][]cell, clients)
	bodies := map[int][][]byte{}
	for _, n := range []int{1, -1} {
		for _, kv := range kvs {
			b, err := json.Marshal(R{"Spec": R{"DBDefinition": R{"KeyValues": kv.wire()}, "Properties": R{"Counters": n}}})
			must(err)
			bodies[n] = append(bodies[n], b)
		}
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for c := 0; c < clients; c++ {
		wg.Add(1)
		cells[c] = make([]cell, len(kvs))
		rr := rand.New(rand.NewSource(int64(c) + l.g.r.Int63()))
		go func(c int) {
			defer wg.Done()
			<-start
			one := func(k, n int) {
				code, _, raw := call(context.Background(), l.mux, "PUT", "/v1/limiter/counters", bodies[n][k])
				switch {
				case code < 300:
					if n > 0 {
						cells[c][k].acc++
					}
					cells[c][k].net += n
				case code == 409 && n > 0:
					cells[c][k].ref++
				case code == 500 && maxStall() > 150_000 && strings.Contains(string(raw), "nternal"): // a lost lock
				default:
					cells[c][k].bad++
				}
			}
			for s := 0; s < per; s++ {
				k := rr.Intn(len(kvs))
				one(k, 1)
				if decs && (s%2 == 0 || rr.Intn(2) == 0) {
					one(k, -1)
				}
			}
		}(c)
	}
	close(start)
	if !waitOr(&wg, 60*time.Second) {
		return
	}
	rows := []R{}
	st := "ok"
	for k, kv := range kvs {
		t := cell{}
		for c := range cells {
			t.acc += cells[c][k].acc
			t.ref += cells[c][k].ref
			t.net += cells[c][k].net
			t.bad += cells[c][k].bad
		}
		if t.bad > 0 {
			st = "failed"
		}
		rows = append(rows, R{"kv": kv, "acc": t.acc, "ref": t.ref, "net": t.net})
	}
	op.Res(R{"st": st, "rows": rows})
}

// counterKV draws key values of a counter: no Any
func (l *limRun) counterKV(r *rand.Rand) KV {
	a := l.g.any
	l.g.any = 0
	kv := l.g.kv(1, len(l.g.keys))
	l.g.any = a
	return kv
}

func limit(r *rand.Rand) int { return pick(r, []int{-1, 0, 1, 2, 3, 4, 5, 7, 10}) }

func (l *limRun) storeStep(r *rand.Rand) {
	rule := l.someRule(r)
	rowOf := func(out map[string]any, _ []byte) R { return R{"row": limRow(out)} }
	rows := func(_ map[string]any, raw []byte) R { return limRows(raw) }
	switch r.Intn(16) {
	case 0, 1, 2:
		l.createRule(l.g.kv(1, 3), limit(r))
	case 3, 4, 5:
		l.createOv(rule, l.ovKV(r, rule), limit(r))
	case 6:
		l.do("rule.get", R{"id": rule}, "GET", "/v1/limiter/rules/"+rule, nil, rowOf)
	case 7:
		q := l.g.query(2)
		l.do("rule.query", R{"q": q.spec()}, "GET", "/v1/limiter/rules/query", q.wire(), rows)
	case 8:
		m := l.g.match()
		l.do("rule.match", R{"m": m.spec()}, "GET", "/v1/limiter/rules/match", m.wire(), rows)
	case 9:
		n := limit(r)
		l.do("rule.update", R{"id": rule, "limit": n}, "PUT", "/v1/limiter/rules/"+rule, R{"Limit": n}, nil)
	case 10:
		if r.Intn(3) > 0 {
			l.do("rule.delete", R{"id": rule}, "DELETE", "/v1/limiter/rules/"+rule, nil, nil)
			if len(l.rules) > 1 && r.Intn(2) == 0 { // same key values again
				l.createRule(l.rkvOf(rule, l.g.kv(1, 2)), limit(r))
			}
		}
	case 11:
		o := l.someOv(r, rule)
		l.do("ov.get", R{"rule": rule, "id": o}, "GET", "/v1/limiter/rules/"+rule+"/overrides/"+o, nil, rowOf)
	case 12:
		q := l.g.query(1)
		l.do("ov.query", R{"rule": rule, "q": q.spec()}, "GET", "/v1/limiter/rules/"+rule+"/overrides/query", q.wire(), rows)
	case 13:
		m := l.g.match()
		l.do("ov.match", R{"rule": rule, "m": m.spec()}, "GET", "/v1/limiter/rules/"+rule+"/overrides/match", m.wire(), rows)
	case 14:
		n, o := limit(r), l.someOv(r, rule)
		l.do("ov.update", R{"rule": rule, "id": o, "limit": n}, "PUT", "/v1/limiter/rules/"+rule+"/overrides/"+o, R{"Limit": n}, nil)
	case 15:
		o := l.someOv(r, rule)
		l.do("ov.delete", R{"rule": rule, "id": o}, "DELETE", "/v1/limiter/rules/"+rule+"/overrides/"+o, nil, nil)
	}
	l.mu.Lock()
	l.g.ids = append([]string{}, l.rules...)
	for _, o := range l.ovs[rule] {
		l.g.ids = append(l.g.ids, o)
	}
	l.mu.Unlock()
}

func (l *limRun) rkvOf(rule string, def KV) KV {
	l.mu.Lock()
	defer l.mu.Unlock()
	if kv, ok := l.rkv[rule]; ok {
		return kv
	}
	return def
}

func (l *limRun) counterStep(r *rand.Rand, pool []KV) {
	kv := pick(r, pool)
	switch x := r.Float64(); {
	case x < 0.55:
		l.counter(kv, 1+r.Intn(3))
	case x < 0.8:
		l.counter(kv, -r.Intn(4))
	case x < 0.88:
		l.setCounter(kv, r.Intn(6)-1)
	default:
		if r.Intn(2) == 0 {
			l.queryCounters(newQ())
		} else {
			l.queryCounters(l.g.query(2))
		}
	}
}

func limiterDriver(c *Conf) {
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	// all histories share a real locker service over TCP; their counters never meet there, because every
	// history uses its own key names
	parallel(c.N, 8, func(i int) {
		rng := rand.New(rand.NewSource(c.Seed*1000003 + int64(i)))
		lock := httptest.NewServer(newLockerService(ctx, time.Second))
		h := guard(40*time.Second, func(keep func(*Hist) *Hist) { limiterHistory(c, i, rng, lock.URL, keep) })
		c.Out.Write(h)
		lock.CloseClientConnections()
		go lock.Close()
	})
}

func limiterHistory(c *Conf, i int, rng *rand.Rand, lockURL string, keep func(*Hist) *Hist) *Hist {
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	g := newGen(rng, 2+rng.Intn(3), 2+rng.Intn(3))
	g.any = 0.3
	l := &limRun{mux: newLimiterService(ctx, lockURL), g: g, rkv: map[string]KV{}, ovs: map[string][]string{}}
	mode := "seq"
	if i%2 == 1 {
		mode = "conc"
	}
	if (c.Prop == "limits" || c.Prop == "counters") && i%8 == 5 {
		mode = "burst"
	}
	l.h = keep(NewHist(fmt.Sprintf("limiter-%s-%s-%d-%d", c.Prop, mode, c.Seed, i), R{}))
	l.h.vals = g.vals
	var pool []KV
	for n := 3 + rng.Intn(3); n > 0; n-- {
		pool = append(pool, l.counterKV(rng))
	}
	if len(pool) > 1 && len(pool[0]) < len(g.keys) { // one that extends another
		kv := pool[0].clone()
		for _, k := range g.keys {
			if _, ok := kv[k]; !ok {
				kv[k] = pick(rng, g.pool)
				g.vals.add(kv[k])
				break
			}
		}
		pool = append(pool, kv)
	}
	if mode == "burst" {
		if c.Prop == "limits" {
			for k := 0; k < 2; k++ {
				l.rulesFor(rng, pool, k == 1)
			}
		}
		for k := 0; k < 4; k++ {
			kvs := []KV{}
			for _, j := range rng.Perm(len(pool))[:1+rng.Intn(min(3, len(pool)))] {
				dup := false
				for _, kv := range kvs {
					dup = dup || kv.key() == pool[j].key()
				}
				if !dup {
					kvs = append(kvs, pool[j])
				}
			}
			if c.Prop == "limits" {
				l.burst(kvs, 3+rng.Intn(4), 3, false)
				l.queryCounters(newQ())
				l.counter(pick(rng, pool), -3)
			} else {
				l.burst(kvs, 8, 100, k%2 == 0)
				l.queryCounters(newQ())
				if k > 0 {
					l.setCounter(kvs[0], rng.Intn(3)-1)
				}
			}
		}
		return l.h
	}
	switch c.Prop {
	case "limits", "applies":
		nr := 1 + rng.Intn(3)
		if c.Prop == "applies" {
			nr = 2 + rng.Intn(3)
		}
		for k := 0; k < nr; k++ {
			l.rulesFor(rng, pool, c.Prop == "applies")
		}
		if mode == "seq" || c.Prop == "applies" {
			for s := 0; s < 40; s++ {
				if x := rng.Intn(10); x == 0 {
					l.storeStep(rng)
				} else if x == 1 {
					l.rulesFor(rng, pool, true)
				} else {
					l.counterStep(rng, pool)
				}
			}
		} else {
			l.concurrentCounters(rng, pool, true)
		}
		l.queryCounters(newQ())
	case "counters":
		if rng.Intn(3) == 0 {
			l.rulesFor(rng, pool, false)
		}
		if mode == "seq" {
			for s := 0; s < 50; s++ {
				l.counterStep(rng, pool)
			}
		} else {
			l.concurrentCounters(rng, pool, false)
		}
		l.queryCounters(newQ())
	case "store":
		if mode == "seq" {
			for s := 0; s < 45; s++ {
				l.storeStep(rng)
			}
		} else {
			l.concurrentStore(rng)
		}
		l.finalStore()
	}
	return l.h
}

// rulesFor creates a rule that concerns some of the counters, and some overrides
func (l *limRun) rulesFor(r *rand.Rand, pool []KV, many bool) {
	target := pick(r, pool)
	kv := KV{}
	for k, v := range target {
		if len(kv) == 0 || r.Intn(2) == 0 {
			kv[k] = v
			if r.Intn(2) == 0 {
				kv[k] = l.g.vals.add("1024:")
			}
		}
	}
	n := 2 + r.Intn(6)
	if r.Intn(8) == 0 {
		n = pick(r, []int{-1, 0})
	}
	before := len(l.rules)
	l.createRule(kv, n)
	if len(l.rules) == before {
		return
	}
	rule := l.rules[len(l.rules)-1]
	p := 0.4
	if many {
		p = 0.75
	}
	for r.Float64() < p {
		o := kv.clone()
		for k, v := range target {
			if r.Intn(2) == 0 {
				o[k] = v
				if r.Intn(4) == 0 {
					o[k] = l.g.vals.add("1024:")
				}
			}
		}
		l.createOv(rule, o, limit(r))
	}
}

// concurrentCounters: clients add and remove counters under fixed rules, at the same time
func (l *limRun) concurrentCounters(r *rand.Rand, pool []KV, limited bool) {
	nc := 3 + r.Intn(3)
	var wg sync.WaitGroup
	for k := 0; k < nc; k++ {
		wg.Add(1)
		rr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer wg.Done()
			for s := 0; s < 3+rr.Intn(3); s++ {
				kv := pick(rr, pool)
				switch x := rr.Float64(); {
				case x < 0.7:
					l.counter(kv, 1+rr.Intn(3))
				case x < 0.95:
					l.counter(kv, -1-rr.Intn(2))
				default:
					if limited {
						l.counter(kv, 1)
					} else {
						l.setCounter(kv, rr.Intn(4))
					}
				}
			}
		}()
	}
	waitOr(&wg, 40*time.Second)
}

// concurrentStore: rules and overrides of the same key values are created and deleted by several clients
func (l *limRun) concurrentStore(r *rand.Rand) {
	var kvs []KV
	for n := 1 + r.Intn(3); n > 0; n-- {
		kvs = append(kvs, l.g.kv(1, 2))
	}
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		rr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer wg.Done()
			for s := 0; s < 5; s++ {
				rule := l.someRule(rr)
				rowOf := func(out map[string]any, _ []byte) R { return R{"row": limRow(out)} }
				switch rr.Intn(9) {
				case 0, 1, 2:
					l.createRule(pick(rr, kvs), limit(rr))
				case 3:
					l.do("rule.delete", R{"id": rule}, "DELETE", "/v1/limiter/rules/"+rule, nil, nil)
				case 4:
					l.do("rule.get", R{"id": rule}, "GET", "/v1/limiter/rules/"+rule, nil, rowOf)
				case 5, 6:
					l.createOv(rule, pick(rr, kvs), limit(rr))
				case 7:
					o := l.someOv(rr, rule)
					l.do("ov.delete", R{"rule": rule, "id": o}, "DELETE", "/v1/limiter/rules/"+rule+"/overrides/"+o, nil, nil)
				case 8:
					o := l.someOv(rr, rule)
					n := limit(rr)
					l.do("ov.update", R{"rule": rule, "id": o, "limit": n}, "PUT", "/v1/limiter/rules/"+rule+"/overrides/"+o, R{"Limit": n}, nil)
				}
			}
		}()
	}
	waitOr(&wg, 20*time.Second)
}

func (l *limRun) finalStore() {
	rows := func(_ map[string]any, raw []byte) R { return limRows(raw) }
	l.do("rule.query", R{"q": newQ().spec()}, "GET", "/v1/limiter/rules/query", R{}, rows)
	l.mu.Lock()
	rs := append([]string{}, l.rules...)
	l.mu.Unlock()
	for _, r := range rs {
		l.do("ov.query", R{"rule": r, "q": newQ().spec()}, "GET", "/v1/limiter/rules/"+r+"/overrides/query", R{}, rows)
	}
}

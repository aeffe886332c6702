package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/DanLavine/urlrouter"
	"github.com/DanLavine/willow/internal/willow/api/v1/handlers"
	v1router "github.com/DanLavine/willow/internal/willow/api/v1/router"
	queuechannels "github.com/DanLavine/willow/internal/willow/brokers/queue_channels"
	"github.com/DanLavine/willow/internal/willow/brokers/queue_channels/constructor"
	"github.com/DanLavine/willow/internal/willow/brokers/queues"
	"github.com/DanLavine/willow/pkg/clients"
	limiterclient "github.com/DanLavine/willow/pkg/clients/limiter_client"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

func init() { drivers["willow"] = willowDriver }

// newWillowService is the queue service, as cmd/willow builds it, without the TCP listener
func newWillowService(ctx context.Context, lc limiterclient.LimiterClient, ruleID string) http.Handler {
	qcc, err := constructor.NewQueueChannelConstructor("memory", lc)
	must(err)
	channels := queuechannels.NewLocalQueueChannelsClient(qcc)
	go channels.Execute(ctx)
	qc, err := queues.NewQueueConstructor("memory", lc)
	must(err)
	mux := urlrouter.New()
	v1router.AddV1WillowRoutes(newLogger(), mux, handlers.NewV1QueueHandler(queues.NewLocalQueueClient(qc, channels, ruleID), ruleID))
	return mux
}

// willowRule is the rule the service sets up when it starts
func willowRule(lc limiterclient.LimiterClient) string {
	return mkRule(lc, KV{"_willow_queue_name": "1024:", "_willow_enqueued": "1024:"}, 0)
}

func mkRule(lc limiterclient.LimiterClient, kv KV, limit int) string {
	rule := &v1limiter.Rule{}
	reJSON(R{"Spec": R{"DBDefinition": R{"GroupByKeyValues": kv.wire()}, "Properties": R{"Limit": limit}}}, rule)
	resp, err := lc.CreateRule(context.Background(), rule)
	must(err)
	return resp.State.ID
}

func reJSON(in, out any) {
	b, err := json.Marshal(in)
	must(err)
	must(json.Unmarshal(b, out))
}

func kvOf(x datatypes.KeyValues) KV {
	var m any
	reJSON(x, &m)
	return unwireKV(m)
}

// ------------------------------------------------------------------ a limiter inside the process
type fakeOv struct {
	id    string
	kv    KV
	limit int
}
type fakeRule struct {
	fakeOv
	ovs []*fakeOv
}

// fakeLimiter does what Limiter.tla says, and takes its time now and then
type fakeLimiter struct {
	limiterclient.LimiterClient
	mu    sync.Mutex
	ids   int
	rules []*fakeRule
	ctr   map[string]int
	kvs   map[string]KV
	slow  atomic.Int64 // at most that many microseconds
	seed  atomic.Int64
}

func newFakeLimiter() *fakeLimiter { return &fakeLimiter{ctr: map[string]int{}, kvs: map[string]KV{}} }

func (f *fakeLimiter) delay() {
	if s := f.slow.Load(); s > 0 {
		n := rand.Int63n(s * 3)
		if n < s {
			time.Sleep(time.Duration(n) * time.Microsecond)
		}
	}
}

func fits(kv, given KV) bool {
	for k, v := range kv {
		if g, ok := given[k]; !ok || (v != g && v != "1024:") {
			return false
		}
	}
	return true
}

func (f *fakeLimiter) total(keys, kv KV) int {
	n := 0
next:
	for id, c := range f.kvs {
		for k := range keys {
			if v, ok := c[k]; !ok || v != kv[k] {
				continue next
			}
		}
		n += f.ctr[id]
	}
	return n
}

func (f *fakeLimiter) allowed(kv KV, n int) bool {
	within := func(o *fakeOv) bool { return o.limit == -1 || f.total(o.kv, kv)+n <= o.limit }
	for _, r := range f.rules {
		if !fits(r.kv, kv) {
			continue
		}
		some := false
		for _, o := range r.ovs {
			if fits(o.kv, kv) {
				some = true
				if !within(o) {
					return false
				}
			}
		}
		if !some && !within(&r.fakeOv) {
			return false
		}
	}
	return true
}

func (f *fakeLimiter) set(kv KV, n int) {
	if n > 0 {
		f.ctr[kv.key()], f.kvs[kv.key()] = n, kv
	} else {
		delete(f.ctr, kv.key())
		delete(f.kvs, kv.key())
	}
}

func (f *fakeLimiter) UpdateCounter(_ context.Context, c *v1limiter.Counter) error {
	kv, n := kvOf(c.Spec.DBDefinition.KeyValues), int(*c.Spec.Properties.Counters)
	f.delay()
	defer f.delay()
	f.mu.Lock()
	defer f.mu.Unlock()
	old, ok := f.ctr[kv.key()]
	if n > 0 {
		if !f.allowed(kv, n) {
			return errors.New("limit reached")
		}
	} else if !ok {
		return nil
	}
	f.set(kv, old+n)
	return nil
}

func (f *fakeLimiter) SetCounters(_ context.Context, c *v1limiter.Counter) error {
	f.delay()
	f.mu.Lock()
	defer f.mu.Unlock()
	f.set(kvOf(c.Spec.DBDefinition.KeyValues), int(*c.Spec.Properties.Counters))
	return nil
}

func (f *fakeLimiter) id() string {
	f.ids++
	return fmt.Sprintf("00000000-0000-4000-8000-1%011d", f.ids)
}

func (f *fakeLimiter) CreateRule(_ context.Context, rule *v1limiter.Rule) (*v1limiter.Rule, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	r := &fakeRule{fakeOv: fakeOv{id: f.id(), kv: kvOf(rule.Spec.DBDefinition.GroupByKeyValues), limit: int(*rule.Spec.Properties.Limit)}}
	f.rules = append(f.rules, r)
	out := &v1limiter.Rule{}
	reJSON(r.wire(), out)
	return out, nil
}

func (o *fakeOv) wire() R {
	return R{"Spec": R{"DBDefinition": R{"GroupByKeyValues": o.kv.wire()}, "Properties": R{"Limit": o.limit}}, "State": R{"ID": o.id}}
}

func (f *fakeLimiter) rule(id string) (*fakeRule, error) {
	for _, r := range f.rules {
		if r.id == id {
			return r, nil
		}
	}
	return nil, errors.New("no such rule")
}

func (f *fakeLimiter) DeleteRule(_ context.Context, id string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	for i, r := range f.rules {
		if r.id == id {
			f.rules = append(f.rules[:i:i], f.rules[i+1:]...)
			return nil
		}
	}
	return errors.New("no such rule")
}

func (f *fakeLimiter) MatchRules(_ context.Context, m *querymatchaction.MatchActionQuery) (v1limiter.Rules, error) {
	f.delay()
	f.mu.Lock()
	defer f.mu.Unlock()
	given, l := matchKV(m), []R{}
	for _, r := range f.rules {
		if fits(r.kv, given) {
			l = append(l, r.wire())
		}
	}
	out := v1limiter.Rules{}
	reJSON(l, &out)
	return out, nil
}

func matchKV(m *querymatchaction.MatchActionQuery) KV {
	kv := datatypes.KeyValues{}
	for k, v := range m.KeyValues {
		kv[k] = v.Value
	}
	return kvOf(kv)
}

func (f *fakeLimiter) MatchOverrides(_ context.Context, rule string, m *querymatchaction.MatchActionQuery) (v1limiter.Overrides, error) {
	f.delay()
	f.mu.Lock()
	defer f.mu.Unlock()
	r, err := f.rule(rule)
	if err != nil {
		return nil, err
	}
	given, l := matchKV(m), []R{}
	for _, o := range r.ovs {
		if fits(o.kv, given) {
			l = append(l, o.wire())
		}
	}
	out := v1limiter.Overrides{}
	reJSON(l, &out)
	return out, nil
}

// selects understands selections by equality
func selects(q *queryassociatedaction.AssociatedActionQuery, kv KV) bool {
	s := q.Selection
	if s == nil {
		return true
	}
	if (s.MinNumberOfKeyValues != nil && len(kv) < *s.MinNumberOfKeyValues) || (s.MaxNumberOfKeyValues != nil && len(kv) > *s.MaxNumberOfKeyValues) {
		return false
	}
	for k, c := range s.KeyValues {
		v, ok := kv[k]
		if !ok {
			return false
		}
		t, _ := splitVal(v)
		want := kvOf(datatypes.KeyValues{"x": c.Value})["x"]
		if t < int(c.TypeRestrictions.MinDataType) || t > int(c.TypeRestrictions.MaxDataType) || (v != want && v != "1024:" && want != "1024:") {
			return false
		}
	}
	return true
}

func (f *fakeLimiter) QueryOverrides(_ context.Context, rule string, q *queryassociatedaction.AssociatedActionQuery) (v1limiter.Overrides, error) {
	f.delay()
	f.mu.Lock()
	defer f.mu.Unlock()
	r, err := f.rule(rule)
	if err != nil {
		return nil, err
	}
	l := []R{}
	for _, o := range r.ovs {
		if selects(q, o.kv) {
			l = append(l, o.wire())
		}
	}
	out := v1limiter.Overrides{}
	reJSON(l, &out)
	return out, nil
}

func (f *fakeLimiter) QueryCounters(_ context.Context, q *queryassociatedaction.AssociatedActionQuery) (v1limiter.Counters, error) {
	f.delay()
	f.mu.Lock()
	defer f.mu.Unlock()
	l := []R{}
	for id, kv := range f.kvs {
		if selects(q, kv) {
			l = append(l, R{"Spec": R{"DBDefinition": R{"KeyValues": kv.wire()}, "Properties": R{"Counters": f.ctr[id]}}, "State": R{"ID": "x"}})
		}
	}
	out := v1limiter.Counters{}
	reJSON(l, &out)
	return out, nil
}

func (f *fakeLimiter) CreateOverride(_ context.Context, rule string, ov *v1limiter.Override) (*v1limiter.Override, error) {
	f.delay()
	f.mu.Lock()
	defer f.mu.Unlock()
	r, err := f.rule(rule)
	if err != nil {
		return nil, err
	}
	o := &fakeOv{id: f.id(), kv: kvOf(ov.Spec.DBDefinition.GroupByKeyValues), limit: int(*ov.Spec.Properties.Limit)}
	if o.limit < -1 {
		return nil, errors.New("bad limit")
	}
	for _, x := range r.ovs {
		if x.kv.key() == o.kv.key() {
			return nil, errors.New("exists")
		}
	}
	r.ovs = append(r.ovs, o)
	out := &v1limiter.Override{}
	reJSON(o.wire(), out)
	return out, nil
}

func (f *fakeLimiter) UpdateOverride(_ context.Context, rule, id string, p *v1limiter.OverrideProperties) error {
	f.delay()
	f.mu.Lock()
	defer f.mu.Unlock()
	r, err := f.rule(rule)
	if err != nil {
		return err
	}
	if *p.Limit < -1 {
		return errors.New("bad limit")
	}
	for _, o := range r.ovs {
		if o.id == id {
			o.limit = int(*p.Limit)
			return nil
		}
	}
	return errors.New("no such override")
}

func (f *fakeLimiter) DeleteOverride(_ context.Context, rule, id string) error {
	f.delay()
	f.mu.Lock()
	defer f.mu.Unlock()
	r, err := f.rule(rule)
	if err != nil {
		return err
	}
	for i, o := range r.ovs {
		if o.id == id {
			r.ovs = append(r.ovs[:i:i], r.ovs[i+1:]...)
			return nil
		}
	}
	return errors.New("no such override")
}

// ------------------------------------------------------------------ the workloads
type wilPlan struct {
	queues, chans, producers, consumers, admins, per, phases int

	up, fail, lost, cancel, short, keep float64 // how often
	retries                             int
	max                                 []int
	query                               float64 // other queries than all and exactly one
	waiters                             int     // consumers that wait as long as it takes
	rules                               bool    // limits of the user on running items
	queueOps, chanOps                   bool
	real                                bool // with the real limiter and the real locker
}

type wilRun struct {
	h    *Hist
	p    wilPlan
	mux  http.Handler
	lc   limiterclient.LimiterClient
	fake *fakeLimiter
	lmux http.Handler // of the real limiter
	g    *Gen
	qs   []string
	chs  []KV

	mu    sync.Mutex
	n     int
	shown bool
	open  []func() // cancel the waiters
	live  sync.WaitGroup
	held  []wilItem
	done  []wilItem
	rules []struct{ id, kv string }
}

type wilItem struct {
	q  string
	kv KV
	id string
	to int
}

func (w *wilRun) do(kind string, args R, method, path string, body any, ok func(out map[string]any, raw []byte) R) string {
	op := w.h.Inv(kind, args)
	code, out, raw := call(context.Background(), w.mux, method, path, body)
	r := R{"st": st(code)}
	if code < 300 && ok != nil {
		for k, v := range ok(out, raw) {
			r[k] = v
		}
	}
	if code >= 500 {
		r["msg"] = string(raw[:min(len(raw), 600)])
	}
	op.Res(r)
	return st(code)
}

func (w *wilRun) createQueue(q string, max int) {
	w.do("createQueue", R{"q": q, "max": max}, "POST", "/v1/queues",
		R{"Spec": R{"DBDefinition": R{"Name": q}, "Properties": R{"MaxItems": max}}}, nil)
}

func queueRow(m map[string]any) R {
	return R{"q": digs(m, "Spec", "DBDefinition", "Name"), "max": num(dig(m, "Spec", "Properties", "MaxItems"))}
}

func (w *wilRun) enqueue(r *rand.Rand, q string, kv KV) {
	w.mu.Lock()
	w.n++
	d := fmt.Sprintf("d%d", w.n)
	w.mu.Unlock()
	up, ra, pos, to := r.Float64() < w.p.up, r.Intn(w.p.retries+1), pick(r, []string{"front", "back"}), 60_000_000
	if r.Float64() < w.p.short {
		to = pick(r, []int{30_000, 60_000, 120_000})
	}
	w.do("enqueue", R{"q": q, "kv": kv, "d": d, "up": up, "ra": ra, "pos": pos, "to": to}, "POST", "/v1/queues/"+q+"/channels/items",
		R{"Spec": R{"DBDefinition": R{"KeyValues": kv.wire()}, "Properties": R{"Data": base64.StdEncoding.EncodeToString([]byte(d)),
			"Updateable": up, "RetryAttempts": ra, "RetryPosition": pos, "TimeoutDuration": to * 1000}}}, nil)
}

// brokenWriter is the connection of a client that went away without notice
type brokenWriter struct{ *httptest.ResponseRecorder }

func (b brokenWriter) Write(p []byte) (int, error) {
	b.ResponseRecorder.Body.Write(p)
	return 0, errors.New("connection reset")
}

// dequeue waits for an item, at most d (0: until cancelled)
func (w *wilRun) dequeue(q string, qq *Q, d time.Duration, lost bool) (it wilItem, ok bool) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if d > 0 {
		t := time.AfterFunc(d, cancel)
		defer t.Stop()
	} else {
		w.mu.Lock()
		w.open = append(w.open, cancel)
		w.mu.Unlock()
	}
	body, err := json.Marshal(qq.wire())
	must(err)
	req, err := http.NewRequestWithContext(ctx, "GET", "/v1/queues/"+q+"/channels/items", bytes.NewReader(body))
	must(err)
	req.RequestURI = req.URL.Path
	req.Header.Set("Content-Type", "application/json")
	rec := httptest.NewRecorder()
	var rw http.ResponseWriter = rec
	if lost {
		rw = brokenWriter{rec}
	}
	op := w.h.Inv("dequeue", R{"q": q, "query": qq.spec()})
	panicked := ""
	func() {
		defer func() {
			if p := recover(); p != nil {
				panicked = fmt.Sprint(p)
			}
		}()
		w.mux.ServeHTTP(rw, req)
	}()
	r := R{"st": st(rec.Code)}
	switch {
	case panicked != "":
		r = R{"st": "http599", "msg": panicked}
	case rec.Code == 200:
		var m map[string]any
		if err := json.Unmarshal(rec.Body.Bytes(), &m); err != nil {
			r["st"] = "badjson"
			break
		}
		p := dig(m, "Spec", "Properties")
		data, _ := base64.StdEncoding.DecodeString(digs(p, "Data"))
		up, _ := dig(p, "Updateable").(bool)
		it = wilItem{q: q, kv: unwireKV(dig(m, "Spec", "DBDefinition", "KeyValues")), id: digs(m, "State", "ID"), to: num(dig(p, "TimeoutDuration")) / 1000}
		r = R{"st": "ok", "kv": it.kv, "id": it.id, "d": string(data), "up": up, "ra": num(dig(p, "RetryAttempts")), "pos": digs(p, "RetryPosition"), "to": it.to}
		ok = true
		if lost {
			r["st"] = "lost"
			ok = false
		}
	case rec.Code == 409 && ctx.Err() != nil:
		r["st"] = "gone"
	case rec.Code >= 500:
		r["msg"] = rec.Body.String()
	}
	op.Res(r)
	return it, ok
}

func (w *wilRun) ack(it wilItem, passed bool) {
	w.do("ack", R{"q": it.q, "kv": it.kv, "id": it.id, "passed": passed}, "POST", "/v1/queues/"+it.q+"/channels/items/ack",
		R{"ItemID": it.id, "KeyValues": it.kv.wire(), "Passed": passed}, nil)
	w.mu.Lock()
	w.done = append(w.done, it)
	w.mu.Unlock()
}

func (w *wilRun) heartbeat(it wilItem) string {
	return w.do("heartbeat", R{"q": it.q, "kv": it.kv, "id": it.id}, "POST", "/v1/queues/"+it.q+"/channels/items/heartbeat",
		R{"ItemID": it.id, "KeyValues": it.kv.wire()}, nil)
}

func (w *wilRun) query(r *rand.Rand) *Q {
	if r.Float64() < w.p.query {
		g := w.g.with(r)
		if r.Intn(2) == 0 {
			return g.split(pick(r, w.chs))
		}
		return g.query(1)
	}
	if r.Intn(3) > 0 {
		return newQ()
	}
	return w.g.with(r).exact(pick(r, w.chs))
}

// process does with an item what consumers do
func (w *wilRun) process(r *rand.Rand, it wilItem) {
	if r.Float64() < w.p.keep {
		w.mu.Lock()
		w.held = append(w.held, it)
		w.mu.Unlock()
		return
	}
	if it.to < 1_000_000 { // a short time-out
		for r.Intn(4) > 0 {
			if r.Intn(5) == 0 {
				sleepMs(context.Background(), float64(it.to)/1000+float64(r.Intn(20))-5) // just about, or too late
			} else {
				sleepMs(context.Background(), float64(r.Intn(it.to))/1500)
			}
			w.heartbeat(it)
		}
		if r.Intn(3) == 0 {
			sleepMs(context.Background(), float64(it.to)/1000+float64(r.Intn(10))-5)
		}
	} else {
		if r.Intn(4) == 0 {
			sleepMs(context.Background(), r.Float64()*3)
		}
		if r.Intn(8) == 0 {
			w.heartbeat(it)
		}
	}
	switch r.Intn(14) {
	case 0: // somebody else's item
		w.ack(wilItem{q: it.q, kv: pick(r, w.chs), id: noID}, r.Intn(2) == 0)
	case 1:
		w.ack(wilItem{q: it.q, kv: pick(r, w.chs), id: it.id}, r.Intn(2) == 0)
	}
	passed := r.Float64() >= w.p.fail
	if r.Intn(12) == 0 { // twice at the same time
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			p := passed != (r.Intn(3) == 0)
			go func() { defer wg.Done(); w.ack(it, p) }()
		}
		wg.Wait()
		return
	}
	w.ack(it, passed)
	if r.Intn(10) == 0 {
		w.heartbeat(it)
	}
	if r.Intn(10) == 0 {
		w.mu.Lock()
		old := pick(r, w.done)
		w.mu.Unlock()
		w.ack(old, r.Intn(2) == 0)
	}
}

func (w *wilRun) channels(q string, qq *Q) {
	w.do("channels", R{"q": q, "query": qq.spec()}, "GET", "/v1/queues/"+q+"/channels", qq.wire(), func(_ map[string]any, raw []byte) R {
		return R{"rows": chanRows(raw)}
	})
}

func chanRows(raw []byte) []KV {
	var l []map[string]any
	if err := json.Unmarshal(raw, &l); err != nil {
		return []KV{{"bad": "13:json"}}
	}
	rows := []KV{}
	for _, m := range l {
		rows = append(rows, unwireKV(dig(m, "Spec", "DBDefinition", "KeyValues")))
	}
	return rows
}

func (w *wilRun) listQueues() {
	w.do("listQueues", R{"q": ""}, "GET", "/v1/queues", nil, func(_ map[string]any, raw []byte) R {
		var l []map[string]any
		if err := json.Unmarshal(raw, &l); err != nil {
			return R{"st": "badjson"}
		}
		rows := []R{}
		for _, m := range l {
			rows = append(rows, queueRow(m))
		}
		return R{"rows": rows}
	})
}

func (w *wilRun) delChannel(q string, kv KV) {
	w.do("delChannel", R{"q": q, "kv": kv}, "DELETE", "/v1/queues/"+q+"/channels", kv.wire(), nil)
}

func (w *wilRun) getQueue(q string) {
	w.do("getQueue", R{"q": q}, "GET", "/v1/queues/"+q, nil, func(out map[string]any, _ []byte) R { return R{"row": queueRow(out)} })
}

func (w *wilRun) updateQueue(q string, max int) {
	w.do("updateQueue", R{"q": q, "max": max}, "PUT", "/v1/queues/"+q, R{"MaxItems": max}, nil)
}

func (w *wilRun) delQueue(q string) {
	w.do("delQueue", R{"q": q}, "DELETE", "/v1/queues/"+q, nil, nil)
}

// admin changes one queue
func (w *wilRun) admin(r *rand.Rand, q string) {
	switch n := r.Intn(12); {
	case n < 3 && w.p.chanOps:
		w.delChannel(q, pick(r, w.chs))
	case n < 5 && w.p.chanOps:
		w.channels(q, w.query(r))
	case n < 6 && w.p.queueOps:
		w.createQueue(q, pick(r, append([]int{-2}, w.p.max...)))
	case n < 7 && w.p.queueOps:
		w.getQueue(q)
	case n < 8 && w.p.queueOps:
		w.updateQueue(q, pick(r, append([]int{-3}, w.p.max...)))
	case n < 9 && w.p.queueOps:
		w.delQueue(q)
		if r.Intn(3) > 0 {
			w.createQueue(q, pick(r, w.p.max))
		}
	case n < 11 && w.p.queueOps:
		w.listQueues()
	default:
		w.channels(q, newQ())
	}
}

func (w *wilRun) rule(r *rand.Rand) {
	kv := KV{}
	for k, v := range pick(r, w.chs) {
		if len(kv) == 0 || r.Intn(3) == 0 {
			kv[k] = v
			if r.Intn(2) == 0 {
				kv[k] = "1024:"
			}
		}
	}
	if r.Intn(3) == 0 {
		kv["_willow_running"] = "13:true"
	}
	if r.Intn(3) == 0 {
		kv["_willow_queue_name"] = pick(r, []string{"1024:", "13:" + pick(r, w.qs)})
	}
	limit := pick(r, []int{0, 1, 1, 1, 2, 2, 3})
	for _, have := range w.rulesKV() {
		if have == kv.key() {
			return
		}
	}
	op := w.h.Inv("rule", R{"kv": kv, "limit": limit})
	id := mkRule(w.lc, kv, limit)
	op.Res(R{"st": "ok", "id": id})
	w.mu.Lock()
	w.rules = append(w.rules, struct{ id, kv string }{id, kv.key()})
	w.mu.Unlock()
	if r.Intn(2) == 0 {
		okv := kv.clone()
		for k, v := range pick(r, w.chs) {
			if _, has := okv[k]; !has || r.Intn(2) == 0 {
				okv[k] = v
			}
		}
		limit := pick(r, []int{-1, 0, 1, 2, 3})
		op := w.h.Inv("override", R{"rule": id, "kv": okv, "limit": limit})
		ov := &v1limiter.Override{}
		reJSON(R{"Spec": R{"DBDefinition": R{"GroupByKeyValues": okv.wire()}, "Properties": R{"Limit": limit}}}, ov)
		resp, err := w.lc.CreateOverride(context.Background(), id, ov)
		must(err)
		op.Res(R{"st": "ok", "id": resp.State.ID})
	}
}

func (w *wilRun) rulesKV() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	l := []string{}
	for _, s := range w.rules {
		l = append(l, s.kv)
	}
	return l
}

func (w *wilRun) delRule(r *rand.Rand) {
	w.mu.Lock()
	if len(w.rules) == 0 {
		w.mu.Unlock()
		return
	}
	i := r.Intn(len(w.rules))
	id := w.rules[i].id
	w.rules = append(w.rules[:i:i], w.rules[i+1:]...)
	w.mu.Unlock()
	op := w.h.Inv("delRule", R{"rule": id})
	must(w.lc.DeleteRule(context.Background(), id))
	op.Res(R{"st": "ok"})
}

// ------------------------------------------------------------------ what is there, when nothing happens
func (w *wilRun) snapshot() (R, string) {
	rows, chans := []R{}, []R{}
	if w.fake != nil {
		w.fake.mu.Lock()
		for id, kv := range w.fake.kvs {
			rows = append(rows, R{"kv": kv, "n": w.fake.ctr[id]})
		}
		w.fake.mu.Unlock()
	} else {
		code, _, raw := call(context.Background(), w.lmux, "GET", "/v1/limiter/counters/query", newQ().wire())
		var ls []map[string]any
		if err := json.Unmarshal(raw, &ls); err != nil || code != 200 {
			rows = append(rows, R{"kv": KV{"bad": "13:counters"}, "n": code})
		}
		for _, m := range ls {
			rows = append(rows, R{"kv": unwireKV(dig(m, "Spec", "DBDefinition", "KeyValues")), "n": num(dig(m, "Spec", "Properties", "Counters"))})
		}
	}
	for _, q := range w.qs {
		code, _, raw := call(context.Background(), w.mux, "GET", "/v1/queues/"+q+"/channels", newQ().wire())
		if code == 200 {
			for _, kv := range chanRows(raw) {
				chans = append(chans, R{"q": q, "kv": kv})
			}
		}
	}
	byText := func(l []R) {
		sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
	}
	byText(rows)
	byText(chans)
	return R{"counted": true, "rows": rows, "shown": true, "chans": chans}, fmt.Sprint(rows, chans)
}

func (h *Hist) size() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	return len(h.Evs)
}

// settle gives the service time until nothing happens any more, and records what is there
func (w *wilRun) settle() {
	ms := 120.0
	if w.p.short > 0 {
		ms += 130
	}
	if w.p.rules { // a channel that reached a limit tries again every five seconds
		ms += 5300
	}
	for try := 0; try < 12; try++ {
		sleepMs(context.Background(), ms+5*float64(maxStall())/1000)
		n := w.h.size()
		_, a := w.snapshot()
		sleepMs(context.Background(), 40)
		ev, b := w.snapshot()
		if a == b && w.h.size() == n {
			w.h.Event("quiet", ev)
			return
		}
	}
}

func (w *wilRun) waiter(r *rand.Rand) {
	q, qq := pick(r, w.qs), w.query(r)
	w.live.Add(1)
	go func() {
		defer w.live.Done()
		if it, ok := w.dequeue(q, qq, 0, false); ok {
			w.process(r, it)
		}
	}()
}

func (w *wilRun) phase(r *rand.Rand) {
	var wg sync.WaitGroup
	source := func() *rand.Rand { return rand.New(rand.NewSource(r.Int63())) }
	if w.p.rules {
		for i := 0; i < 1+r.Intn(2); i++ {
			w.rule(r)
		}
	}
	for i := 0; i < w.p.waiters; i++ {
		if r.Intn(2) == 0 {
			w.waiter(source())
		}
	}
	for i := 0; i < w.p.producers; i++ {
		wg.Add(1)
		r := source()
		go func() {
			defer wg.Done()
			for k := 0; k < w.p.per; k++ {
				w.enqueue(r, pick(r, w.qs), pick(r, w.chs))
				if r.Intn(4) == 0 {
					sleepMs(context.Background(), r.Float64()*4)
				}
			}
		}()
	}
	for i := 0; i < w.p.consumers; i++ {
		wg.Add(1)
		r := source()
		go func() {
			defer wg.Done()
			for k := 0; k < w.p.per; k++ {
				d := 25 + r.Float64()*40
				if w.p.rules && r.Intn(3) == 0 {
					d = 300
				}
				if r.Float64() < w.p.cancel {
					d = r.Float64() * 4
				}
				it, ok := w.dequeue(pick(r, w.qs), w.query(r), time.Duration(d*float64(time.Millisecond)), r.Float64() < w.p.lost)
				if ok {
					w.process(r, it)
				}
			}
		}()
	}
	for i := 0; i < w.p.admins; i++ {
		wg.Add(1)
		r := source()
		go func() {
			defer wg.Done()
			for k := 0; k < w.p.per; k++ {
				w.admin(r, w.qs[i%len(w.qs)])
				sleepMs(context.Background(), r.Float64()*6)
			}
		}()
	}
	wg.Wait()
}

func (w *wilRun) run(r *rand.Rand) {
	for _, q := range w.qs {
		if !w.p.queueOps || r.Intn(3) > 0 {
			w.createQueue(q, pick(r, w.p.max))
		}
	}
	for i := 0; i < w.p.phases; i++ {
		w.phase(r)
		w.settle()
		if w.p.rules && r.Intn(2) == 0 {
			w.delRule(r)
			w.settle()
		}
	}
	// finish what is still being processed
	w.mu.Lock()
	held := w.held
	w.held = nil
	w.mu.Unlock()
	for _, it := range held {
		w.ack(it, r.Float64() >= w.p.fail)
	}
	if len(held) > 0 {
		w.settle()
	}
	w.mu.Lock()
	open := w.open
	w.mu.Unlock()
	for _, c := range open {
		c()
	}
	w.live.Wait()
	w.settle()
}

var wilPlans = map[string]func(r *rand.Rand) wilPlan{
	"take": func(r *rand.Rand) wilPlan {
		return wilPlan{queues: 1 + r.Intn(2), chans: 2, producers: 2, consumers: 3, per: 4 + r.Intn(4), phases: 1 + r.Intn(2),
			fail: 0.1, lost: 0.2, cancel: 0.25, keep: 0.05, retries: 1, max: []int{-1, 100}, query: 0.1, waiters: r.Intn(3)}
	},
	"retry": func(r *rand.Rand) wilPlan {
		return wilPlan{queues: 1, chans: 1 + r.Intn(2), producers: 1 + r.Intn(2), consumers: 2, per: 4 + r.Intn(5), phases: 2,
			fail: 0.6, lost: 0.1, retries: 3, max: []int{-1, 50}, up: 0.1, keep: 0.1, waiters: r.Intn(2)}
	},
	"order": func(r *rand.Rand) wilPlan {
		return wilPlan{queues: 1, chans: 1 + r.Intn(2), producers: 1, consumers: 1, per: 8 + r.Intn(8), phases: 2,
			fail: 0.25, lost: 0.15, retries: 2, max: []int{-1}, up: 0.05, keep: 0.2}
	},
	"replace": func(r *rand.Rand) wilPlan {
		return wilPlan{queues: 1, chans: 1 + r.Intn(2), producers: 2, consumers: 1 + r.Intn(2), per: 5 + r.Intn(5), phases: 2,
			fail: 0.5, lost: 0.3, up: 0.6, retries: 2, max: []int{-1, 3, 5}, keep: 0.2, short: 0.1}
	},
	"expiry": func(r *rand.Rand) wilPlan {
		return wilPlan{queues: 1, chans: 1 + r.Intn(2), producers: 1, consumers: 2, per: 4 + r.Intn(4), phases: 1 + r.Intn(2),
			fail: 0.2, lost: 0.1, up: 0.2, retries: 2, max: []int{-1}, short: 0.9, keep: 0.3, waiters: r.Intn(2)}
	},
	"count": func(r *rand.Rand) wilPlan {
		return wilPlan{queues: 1 + r.Intn(2), chans: 3, producers: 2, consumers: 2, admins: r.Intn(2), per: 4 + r.Intn(4), phases: 2,
			fail: 0.4, lost: 0.15, cancel: 0.1, up: 0.3, retries: 2, max: []int{1, 2, 3, 4, 6}, keep: 0.2, short: 0.1, chanOps: true, real: r.Intn(3) == 0}
	},
	"limits": func(r *rand.Rand) wilPlan {
		return wilPlan{queues: 1 + r.Intn(2), chans: 3, producers: 2, consumers: 3, per: 3 + r.Intn(3), phases: 2,
			fail: 0.2, lost: 0.1, cancel: 0.1, retries: 1, max: []int{-1}, keep: 0.4, rules: true, waiters: 2, query: 0.1, real: r.Intn(2) == 0}
	},
	"query": func(r *rand.Rand) wilPlan {
		return wilPlan{queues: 1, chans: 4, producers: 1 + r.Intn(2), consumers: 2, admins: 1, per: 4 + r.Intn(3), phases: 2,
			fail: 0.1, cancel: 0.1, retries: 1, max: []int{-1}, query: 0.8, waiters: 4, chanOps: true, keep: 0.1}
	},
	"life": func(r *rand.Rand) wilPlan {
		return wilPlan{queues: 2, chans: 2, producers: 2, consumers: 2, admins: 1 + r.Intn(2), per: 5 + r.Intn(4), phases: 2,
			fail: 0.2, lost: 0.1, cancel: 0.1, up: 0.1, retries: 1, max: []int{-1, 0, 2, 5}, keep: 0.15, waiters: 2, queueOps: true, chanOps: true, real: r.Intn(3) == 0}
	},
}

func willowDriver(c *Conf) {
	plan := wilPlans[c.Prop]
	if plan == nil {
		must(fmt.Errorf("no workload %s", c.Prop))
	}
	par := 16
	if c.Prop == "limits" {
		par = 48
	}
	parallel(c.N, par, func(i int) {
		seed := c.Seed*1_000_003 + int64(i)
		r := rand.New(rand.NewSource(seed))
		p := plan(r)
		timeouts := p.short > 0
		var h *Hist
		h = guard(75*time.Second, func(keep func(*Hist) *Hist) {
			g := newGen(r, 2, 3)
			h := keep(NewHist(fmt.Sprintf("willow-%s-%d", c.Prop, seed), R{"slack": 1_200_000, "timeouts": timeouts}))
			h.vals = g.vals
			w := &wilRun{h: h, p: p, g: g}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			if p.real {
				locker := httptest.NewServer(newLockerService(ctx, 5*time.Second))
				defer locker.Close()
				w.lmux = newLimiterService(ctx, locker.URL)
				limiter := httptest.NewServer(w.lmux)
				defer limiter.Close()
				lc, err := limiterclient.NewLimiterClient(&clients.Config{URL: limiter.URL})
				must(err)
				w.lc = lc
			} else {
				w.fake = newFakeLimiter()
				w.fake.slow.Store(int64(pick(r, []int{0, 300, 1500})))
				w.lc = w.fake
			}
			w.mux = newWillowService(ctx, w.lc, willowRule(w.lc))
			for i := 1; i <= p.queues; i++ {
				w.qs = append(w.qs, fmt.Sprintf("q%d", i))
				g.vals.add(fmt.Sprintf("13:q%d", i))
			}
			for _, v := range []string{"13:true", "1024:"} {
				g.vals.add(v)
			}
			seen := map[string]bool{}
			for tries := 0; len(w.chs) < p.chans && tries < 50; tries++ {
				if kv := g.kv(1, 2); !seen[kv.key()] {
					seen[kv.key()] = true
					w.chs = append(w.chs, kv)
				}
			}
			w.run(r)
		})
		h.mu.Lock()
		h.Cfg["slack"] = 1_200_000 + 20*maxStall()
		h.mu.Unlock()
		c.Out.Write(h)
	})
}

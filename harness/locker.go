package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"sync"
	"time"

	"github.com/DanLavine/urlrouter"
	"github.com/DanLavine/willow/internal/config"
	"github.com/DanLavine/willow/internal/locker/api/v1/handlers"
	lockrouter "github.com/DanLavine/willow/internal/locker/api/v1/router"
	lockmanager "github.com/DanLavine/willow/internal/locker/lock_manager"
)

func init() { drivers["locker"] = lockerDriver }

// newLockerService is the locker service, as cmd/locker builds it, without the TCP listener
func newLockerService(ctx context.Context, defaultTimeout time.Duration) http.Handler {
	mux := urlrouter.New()
	d := defaultTimeout
	cfg := &config.LockerConfig{LockDefaultTimeout: &d}
	el := lockmanager.NewExclusiveLocker()
	go func() { _ = el.Execute(ctx) }()
	lockrouter.AddV1LockerRoutes(newLogger(), mux, handlers.NewLockHandler(cfg, el))
	return mux
}

type lockerSess struct{ id, sess, key string }

type lockerRun struct {
	h    *Hist
	mux  http.Handler
	mu   sync.Mutex
	seen []lockerSess // every (lock id, session) that was ever granted
	keys map[string]KV
	kn   []string
}

func (lr *lockerRun) obtain(ctx context.Context, key string, toUs int) (lockerSess, bool) {
	body := R{"Spec": R{"DBDefinition": R{"KeyValues": lr.keys[key].wire()}, "Properties": R{"Timeout": toUs * 1000}}}
	if toUs == 0 {
		delete(body["Spec"].(R), "Properties")
	}
	op := lr.h.Inv("obtain", R{"k": key, "to": toUs})
	code, out, _ := call(ctx, lr.mux, "POST", "/v1/locks", body)
	switch code {
	case 200:
		s := lockerSess{digs(out, "State", "LockID"), digs(out, "State", "SessionID"), key}
		lr.mu.Lock()
		lr.seen = append(lr.seen, s)
		lr.mu.Unlock()
		op.Res(R{"st": "ok", "id": s.id, "s": s.sess})
		return s, true
	case 503:
		st := "gone"
		if ctx.Err() == nil {
			st = "refused"
		}
		op.Res(R{"st": st})
	default:
		op.Res(R{"st": fmt.Sprintf("http%d", code)})
	}
	return lockerSess{}, false
}

func (lr *lockerRun) claim(kind string, id, sess string) bool {
	op := lr.h.Inv(kind, R{"id": id, "s": sess})
	var code int
	if kind == "hb" {
		code, _, _ = call(context.Background(), lr.mux, "POST", "/v1/locks/"+id+"/heartbeat", R{"SessionID": sess})
	} else {
		code, _, _ = call(context.Background(), lr.mux, "DELETE", "/v1/locks/"+id, R{"SessionID": sess})
	}
	switch {
	case code == 200 || code == 204:
		op.Res(R{"st": "ok"})
	case code == 404:
		op.Res(R{"st": "missing"})
	case code == 409:
		op.Res(R{"st": "conflict"})
	default:
		op.Res(R{"st": fmt.Sprintf("http%d", code)})
	}
	return code == 200 || code == 204
}

func (lr *lockerRun) keyName(kv KV) string {
	for n, k := range lr.keys {
		if len(k) == len(kv) {
			same := true
			for a, b := range k {
				if kv[a] != b {
					same = false
				}
			}
			if same {
				return n
			}
		}
	}
	return "?"
}

func (lr *lockerRun) query(sel any) {
	op := lr.h.Inv("list", nil)
	code, _, raw := call(context.Background(), lr.mux, "GET", "/v1/locks", R{})
	if code != 200 {
		op.Res(R{"st": fmt.Sprintf("http%d", code)})
		return
	}
	var ls []map[string]any
	if err := json.Unmarshal(raw, &ls); err != nil {
		op.Res(R{"st": "badjson"})
		return
	}
	rows := []R{}
	for _, l := range ls {
		n, _ := dig(l, "State", "LocksHeldOrWaiting").(float64)
		to, _ := dig(l, "Spec", "Properties", "Timeout").(float64)
		left, _ := dig(l, "State", "TimeTillExipre").(float64)
		rows = append(rows, R{
			"k": lr.keyName(unwireKV(dig(l, "Spec", "DBDefinition", "KeyValues"))), "s": digs(l, "State", "SessionID"),
			"id": digs(l, "State", "LockID"), "n": int(n), "to": int(to / 1000), "left": int(left / 1000)})
	}
	op.Res(R{"st": "ok", "rows": rows})
}

var lockerKeySets = []map[string]KV{
	{"A": {"a": "13:x"}},
	{"A": {"a": "13:x"}, "B": {"a": "13:x", "b": "13:x"}},
	{"A": {"a": "13:1"}, "B": {"a": "10:1"}, "C": {"a": "9:1"}},
	{"A": {"a": "13:x", "b": "13:y"}, "B": {"a": "13:y", "b": "13:x"}, "C": {"b": "13:y", "c": "12:1.5"}},
	{"A": {"a": "1:1", "b": "1:2", "c": "1:3"}, "B": {"a": "1:1", "b": "1:2"}, "C": {"b": "1:2", "c": "1:3"}, "D": {"c": "1:3"}},
}

func lockerDriver(c *Conf) {
	var mu sync.Mutex
	stuck := 0
	parallel(c.N, 48, func(i int) {
		mu.Lock()
		st := stuck
		mu.Unlock()
		if st >= 6 { // enough evidence: do not spend the budget waiting
			return
		}
		rng := rand.New(rand.NewSource(c.Seed*1000003 + int64(i)))
		h := lockerHistory(c, i, rng)
		if h.Pending() > 0 {
			mu.Lock()
			stuck++
			mu.Unlock()
		}
		h.Stuck()
		h.Cfg["slack"] = 1_200_000 + 20*maxStall()
		c.Out.Write(h)
	})
}

// wedge: a holder that gives the lock back, waiters that go away at that very moment, and somebody who
// keeps sending claims of old sessions for the same lock
func (lr *lockerRun) wedge(rng *rand.Rand) {
	var wg sync.WaitGroup
	for round := 0; round < 4; round++ {
		key := pick(rng, lr.kn)
		s, ok := lr.obtain(context.Background(), key, 20_000_000)
		if !ok {
			return
		}
		waiters := 1 + rng.Intn(2)
		var cancels []context.CancelFunc
		for w := 0; w < waiters; w++ {
			ctx, cancel := context.WithCancel(context.Background())
			cancels = append(cancels, cancel)
			wg.Add(1)
			go func() {
				defer wg.Done()
				if s, ok := lr.obtain(ctx, key, 20_000_000); ok {
					lr.claim("rel", s.id, s.sess)
				}
			}()
		}
		time.Sleep(time.Duration(500+rng.Intn(1500)) * time.Microsecond)
		for b := 0; b < 2; b++ {
			wg.Add(1)
			kind, n := pick(rng, []string{"hb", "rel"}), 6+rng.Intn(10)
			go func() {
				defer wg.Done()
				for i := 0; i < n; i++ {
					lr.claim(kind, s.id, "5d3f0a57-0000-4000-8000-000000000000")
				}
			}()
		}
		jitter := time.Duration(rng.Intn(60)) * time.Microsecond
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(jitter)
			lr.claim("rel", s.id, s.sess)
		}()
		time.Sleep(time.Duration(rng.Intn(60)) * time.Microsecond)
		for _, cancel := range cancels {
			cancel()
			if rng.Intn(2) == 0 {
				time.Sleep(time.Duration(rng.Intn(30)) * time.Microsecond)
			}
		}
		wg.Wait()
	}
}

func lockerHistory(c *Conf, i int, rng *rand.Rand) *Hist {
	svcCtx, stop := context.WithCancel(context.Background())
	lr := &lockerRun{mux: newLockerService(svcCtx, 90*time.Millisecond)}
	lr.keys = pick(rng, lockerKeySets)
	for k := range lr.keys {
		lr.kn = append(lr.kn, k)
	}
	sortStrings(lr.kn)
	if c.Prop == "mutex" && rng.Intn(2) == 0 {
		lr.kn = lr.kn[:1]
	}
	nCli := 2 + rng.Intn(4)
	steps := 4 + rng.Intn(7)

	// workload profile
	pCancel, pShort, pStale, pAbandon, pQuery := 0.15, 0.3, 0.15, 0.15, 0.05
	switch c.Prop {
	case "mutex":
		pStale = 0.1
	case "owner":
		pStale, pCancel = 0.45, 0.1
	case "expiry":
		pShort, pAbandon, pStale, pCancel = 0.85, 0.3, 0.1, 0.05
	case "progress":
		pCancel, pStale, pAbandon, pShort = 0.4, 0.25, 0.15, 0.3
	case "list":
		pQuery = 0.4
	}
	lr.h = NewHist(fmt.Sprintf("locker-%s-%d-%d", c.Prop, c.Seed, i), R{"keys": lr.kn, "def": 90000})

	var wg sync.WaitGroup
	if c.Prop == "progress" && i%2 == 0 {
		wg.Add(1)
		go func(r *rand.Rand) { defer wg.Done(); lr.wedge(r) }(rand.New(rand.NewSource(rng.Int63())))
		nCli = 0
	}
	for cl := 0; cl < nCli; cl++ {
		wg.Add(1)
		go func(r *rand.Rand) {
			defer wg.Done()
			var held *lockerSess
			var ttl int
			for s := 0; s < steps; s++ {
				if r.Float64() < pQuery {
					lr.query(nil)
				}
				if r.Float64() < pStale {
					lr.stale(r)
				}
				if held == nil {
					to := 20_000_000
					if r.Float64() < pShort {
						to = pick(r, []int{40_000, 60_000, 80_000, 120_000, 0})
						if c.Prop == "expiry" && r.Intn(12) == 0 {
							to = 1_500_000
						}
					}
					ctx, cancel := context.WithCancel(context.Background())
					if r.Float64() < pCancel {
						d := r.Float64() * 40
						if r.Intn(3) == 0 {
							d = r.Float64() * 0.2
						}
						time.AfterFunc(time.Duration(d*float64(time.Millisecond)), cancel)
					}
					ls, ok := lr.obtain(ctx, pick(r, lr.kn), to)
					cancel()
					if ok {
						held, ttl = &ls, to
						if ttl == 0 {
							ttl = 90_000
						}
					}
					continue
				}
				x := r.Float64()
				switch {
				case x < pAbandon && ttl < 2_000_000:
					// stop heartbeating: the lock must expire
					if r.Intn(2) == 0 && ttl < 1_000_000 {
						sleepMs(context.Background(), float64(ttl)/1000*(0.8+r.Float64()*0.6))
					}
					held = nil
				case x < 0.55:
					if ttl == 1_500_000 && r.Intn(2) == 0 {
						sleepMs(context.Background(), 300)
						lr.claim("hb", held.id, held.sess)
						held = nil // one beat, then silence
					} else if ttl < 1_000_000 {
						// keep it alive for several heartbeats
						n := 1 + r.Intn(3)
						for b := 0; b < n; b++ {
							sleepMs(context.Background(), float64(ttl)/1000*(0.3+r.Float64()*0.6))
							if !lr.claim("hb", held.id, held.sess) {
								held = nil
								break
							}
						}
					} else {
						if r.Intn(2) == 0 {
							sleepMs(context.Background(), r.Float64()*3)
						}
						if !lr.claim("hb", held.id, held.sess) {
							held = nil
						}
					}
				case x < 0.65:
					sleepMs(context.Background(), r.Float64()*5)
				default:
					lr.claim("rel", held.id, held.sess)
					held = nil
				}
			}
			if held != nil {
				lr.claim("rel", held.id, held.sess)
			}
		}(rand.New(rand.NewSource(rng.Int63())))
	}
	if waitOr(&wg, 20*time.Second) {
		// everything was released or will expire: a last round shows that nothing is wedged
		fin := make(chan struct{})
		go func() {
			defer close(fin)
			for _, k := range lr.kn {
				if s, ok := lr.obtain(context.Background(), k, 20_000_000); ok {
					lr.claim("rel", s.id, s.sess)
				}
			}
			lr.query(nil)
		}()
		select {
		case <-fin:
		case <-time.After(10 * time.Second):
		}
	}
	lr.h.mu.Lock()
	lr.h.mu.Unlock()
	defer stop()
	return lr.h
}

// stale sends a heartbeat or a release with something else than the current session
func (lr *lockerRun) stale(r *rand.Rand) {
	lr.mu.Lock()
	id, sess := "4d3f0a57-0000-4000-8000-000000000000", "5d3f0a57-0000-4000-8000-000000000000"
	if n := len(lr.seen); n > 0 {
		a := lr.seen[r.Intn(n)]
		b := lr.seen[n-1-r.Intn(min(n, 3))]
		switch r.Intn(4) {
		case 0:
			id, sess = a.id, a.sess
		case 1:
			id, sess = b.id, a.sess // lock id of one, session of another
		case 2:
			id = b.id // live lock, session never issued
		case 3:
			id, sess = b.id, b.sess
			if len(lr.seen) > 1 {
				// an old session of the same lock, if any
				for _, x := range lr.seen[:n-1] {
					if x.id == b.id {
						sess = x.sess
					}
				}
			}
			if sess == b.sess {
				sess = b.sess + "0"
			}
		}
	}
	// never act on behalf of a current holder by accident: the specification would allow it, but the
	// holder's own script would then be confused; that is fine as well, it only sees refused calls.
	lr.mu.Unlock()
	kind := "hb"
	if r.Intn(2) == 0 {
		kind = "rel"
	}
	lr.claim(kind, id, sess)
}

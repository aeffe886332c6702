// Package main is the conformance driver of the verification machinery.  It is compiled *inside* the
// willow module through `go build -overlay` (see bin/vcommon.py), so it can reach internal packages
// without touching /repo.  Every driver runs the real code on generated workloads and records the
// invocation / response history of every operation; the histories are judged by TLC against the
// TLA+ trace specifications in /verif/specs - the driver itself never decides a verdict.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

// R is a JSON record.
type R map[string]any

// Hist is one recorded history: a totally ordered list of events plus the table of operations.
type Hist struct {
	mu     sync.Mutex
	t0     time.Time
	Name   string
	Cfg    R
	Evs    []R
	Ops    []R // 1-based in TLA+: operation o is Ops[o-1]
	status []int
	closed bool
	vals   *Vals // the values in use, ordered
}

func NewHist(name string, cfg R) *Hist {
	if cfg == nil {
		cfg = R{"x": 0}
	}
	return &Hist{t0: time.Now(), Name: name, Cfg: cfg}
}

// now is in microseconds since the start of the history
func (h *Hist) now() int { return int(time.Since(h.t0) / time.Microsecond) }

func (h *Hist) Now() int { return h.now() }

type Op struct {
	h *Hist
	n int
}

// Inv records the invocation of an operation.  args must hold everything the specification needs.
func (h *Hist) Inv(kind string, args R) *Op {
	h.mu.Lock()
	defer h.mu.Unlock()
	a := R{"op": kind}
	for k, v := range args {
		a[k] = v
	}
	if h.closed {
		return &Op{h: h, n: -1}
	}
	h.Ops = append(h.Ops, a)
	h.status = append(h.status, 0)
	n := len(h.Ops)
	a["r"] = R{"st": "none", "called": false, "found": false, "yes": false, "empty": false, "answers": []string{}, "rows": []R{}, "asked": []R{}}
	a["tinv"] = h.now()
	h.Evs = append(h.Evs, R{"e": "inv", "o": n, "t": h.now()})
	return &Op{h: h, n: n}
}

// Res records the response of the operation.
func (o *Op) Res(res R) {
	o.h.mu.Lock()
	defer o.h.mu.Unlock()
	if o.n < 0 || o.h.closed {
		return
	}
	if o.h.status[o.n-1] != 0 {
		return
	}
	o.h.status[o.n-1] = 1
	o.h.Ops[o.n-1]["r"] = res
	o.h.Ops[o.n-1]["tres"] = o.h.now()
	o.h.Evs = append(o.h.Evs, R{"e": "res", "o": o.n, "t": o.h.now()})
}

// Set adds a field to the operation (used for data only known later, e.g. "cancelled").
func (o *Op) Set(k string, v any) {
	o.h.mu.Lock()
	defer o.h.mu.Unlock()
	if o.n < 0 || o.h.closed {
		return
	}
	o.h.Ops[o.n-1][k] = v
}

// Note records a free event (e.g. "cancel") of operation o
func (o *Op) Note(kind string) {
	o.h.mu.Lock()
	defer o.h.mu.Unlock()
	if o.n < 0 || o.h.closed {
		return
	}
	o.h.Evs = append(o.h.Evs, R{"e": kind, "o": o.n, "t": o.h.now()})
}

// Event records an event which does not belong to an operation.
func (h *Hist) Event(kind string, args R) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.closed {
		return
	}
	ev := R{"e": kind, "o": 0, "t": h.now()}
	for k, v := range args {
		ev[k] = v
	}
	h.Evs = append(h.Evs, ev)
}

// Stuck closes the history; every operation still pending is recorded in a "stuck" event: it had all
// the time it needs (the caller waited), and did not answer.
func (h *Hist) Stuck() {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.closed {
		return
	}
	for i := range h.Ops {
		if h.status[i] == 0 {
			h.Evs = append(h.Evs, R{"e": "stuck", "o": i + 1, "t": h.now()})
		}
	}
	h.closed = true
}

func (h *Hist) Pending() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	n := 0
	for i := range h.Ops {
		if h.status[i] == 0 {
			n++
		}
	}
	return n
}

// Out writes finished histories, one JSON object per line.
type Out struct {
	mu    sync.Mutex
	f     *os.File
	Count int
	Evts  int
	OpCnt map[string]int
}

func NewOut(path string) *Out {
	f, err := os.Create(path)
	must(err)
	return &Out{f: f, OpCnt: map[string]int{}}
}

func (o *Out) Write(h *Hist) {
	h.mu.Lock()
	h.closed = true
	if h.vals != nil {
		h.Cfg["vals"] = h.vals.table()
	}
	ops := h.Ops
	if len(ops) == 0 {
		ops = []R{}
	}
	b, err := json.Marshal(R{"name": h.Name, "cfg": h.Cfg, "ev": h.Evs, "ops": ops})
	n := len(h.Evs)
	h.mu.Unlock()
	must(err)
	o.mu.Lock()
	defer o.mu.Unlock()
	o.f.Write(append(b, '\n'))
	o.Count++
	o.Evts += n
	for _, op := range ops {
		o.OpCnt[op["op"].(string)]++
	}
}

func (o *Out) Close() {
	o.f.Close()
	b, _ := json.Marshal(R{"histories": o.Count, "events": o.Evts, "ops": o.OpCnt})
	fmt.Printf("DRIVER-DONE %s\n", b)
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", err)
		debug.PrintStack()
		os.Exit(3)
	}
}

// quiet logger: only fatal lines are printed, and they stop the process (as in production)
func newLogger() *zap.Logger {
	enc := zap.NewProductionEncoderConfig()
	core := zapcore.NewCore(zapcore.NewJSONEncoder(enc), zapcore.Lock(os.Stderr), zapcore.FatalLevel)
	return zap.New(core)
}

// call runs a request directly on the handler.  code 599: the handler panicked.
func call(ctx context.Context, mux http.Handler, method, path string, body any) (code int, out map[string]any, raw []byte) {
	return callH(ctx, mux, method, path, body, "application/json")
}

func callH(ctx context.Context, mux http.Handler, method, path string, body any, contentType string) (code int, out map[string]any, raw []byte) {
	var rd io.Reader
	switch b := body.(type) {
	case nil:
		rd = http.NoBody
	case string:
		rd = strings.NewReader(b)
	case []byte:
		rd = bytes.NewReader(b)
	default:
		data, err := json.Marshal(b)
		must(err)
		rd = bytes.NewReader(data)
	}
	req, err := http.NewRequestWithContext(ctx, method, path, rd)
	must(err)
	req.RequestURI = path
	if contentType != "" {
		req.Header.Set("Content-Type", contentType)
	}
	rec := httptest.NewRecorder()
	panicked := true
	func() {
		defer func() {
			if panicked {
				if p := recover(); p != nil {
					raw = []byte(fmt.Sprintf("panic: %v\n%s", p, debug.Stack()))
					atomic.AddInt64(&panics, 1)
					lastPanic.Store(string(raw))
				}
			}
		}()
		mux.ServeHTTP(rec, req)
		panicked = false
	}()
	if panicked {
		return 599, nil, raw
	}
	raw = rec.Body.Bytes()
	if len(raw) > 0 && raw[0] == '{' {
		_ = json.Unmarshal(raw, &out)
	}
	return rec.Code, out, raw
}

var panics int64
var lastPanic atomic.Value

// dig walks nested maps
func dig(m any, path ...string) any {
	for _, p := range path {
		mm, ok := m.(map[string]any)
		if !ok {
			return nil
		}
		m = mm[p]
	}
	return m
}

func digs(m any, path ...string) string {
	s, _ := dig(m, path...).(string)
	return s
}

// ------------------------------------------------------------------ values and key values
// A value is written "T:data" where T is the wire type number (e.g. "13:foo", "10:5", "1024:").

func wireVal(v string) R {
	i := strings.IndexByte(v, ':')
	var t int
	fmt.Sscanf(v[:i], "%d", &t)
	if t == 1024 {
		return R{"Type": t}
	}
	return R{"Type": t, "Data": v[i+1:]}
}

func unwireVal(x any) string {
	m, ok := x.(map[string]any)
	if !ok {
		return "?"
	}
	t, _ := m["Type"].(float64)
	if m["Data"] == nil {
		return fmt.Sprintf("%d:", int(t))
	}
	if int(t) == 11 || int(t) == 12 { // floats have several spellings
		if f, err := strconv.ParseFloat(fmt.Sprintf("%v", m["Data"]), 64); err == nil {
			return fmt.Sprintf("%d:%v", int(t), f)
		}
	}
	return fmt.Sprintf("%d:%v", int(t), m["Data"])
}

type KV map[string]string

func (kv KV) wire() R {
	r := R{}
	for k, v := range kv {
		r[k] = wireVal(v)
	}
	return r
}

func unwireKV(x any) KV {
	m, _ := x.(map[string]any)
	r := KV{}
	for k, v := range m {
		r[k] = unwireVal(v)
	}
	return r
}

// pick helpers
func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }

func sleepMs(ctx context.Context, ms float64) {
	t := time.NewTimer(time.Duration(ms * float64(time.Millisecond)))
	defer t.Stop()
	select {
	case <-t.C:
	case <-ctx.Done():
	}
}

// hung counts the histories in which something did not answer; a few of them are enough for a verdict
var hung atomic.Int64

var started = time.Now()

// parallel runs n jobs with at most w at the same time.  It stops early when several jobs hung, or after four
// minutes; the histories recorded so far are judged.
func parallel(n, w int, f func(i int)) {
	sem := make(chan struct{}, w)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		sem <- struct{}{}
		if hung.Load() >= 4 || time.Since(started) > 4*time.Minute {
			break
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			f(i)
		}(i)
	}
	wg.Wait()
}

// waitOr waits for wg, at most d.  Returns whether everything finished.
func waitOr(wg *sync.WaitGroup, d time.Duration) bool {
	ch := make(chan struct{})
	go func() { wg.Wait(); close(ch) }()
	select {
	case <-ch:
		return true
	case <-time.After(d):
		hung.Add(1)
		return false
	}
}

// guard runs one history; when it does not finish in time, what was recorded so far is judged.
func guard(d time.Duration, f func(keep func(*Hist) *Hist)) *Hist {
	var mu sync.Mutex
	var got *Hist
	done := make(chan struct{})
	go func() {
		defer close(done)
		f(func(h *Hist) *Hist {
			mu.Lock()
			defer mu.Unlock()
			got = h
			return h
		})
	}()
	select {
	case <-done:
	case <-time.After(d):
		hung.Add(1)
	}
	mu.Lock()
	defer mu.Unlock()
	if got == nil {
		panic("a history did not even start")
	}
	got.Stuck()
	return got
}

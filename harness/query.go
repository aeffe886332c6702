package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// The generators of values, key values, queries and matches all drivers share, and the table of values
// (type and rank in the total order) the specification Query.tla works with.  The rank is computed here,
// independently of the code under test.

// Vals are all values that occur in a history
type Vals struct {
	mu sync.Mutex
	m  map[string]bool
}

func (vs *Vals) add(v string) string {
	vs.mu.Lock()
	defer vs.mu.Unlock()
	vs.m[v] = true
	return v
}

func splitVal(v string) (int, string) {
	i := strings.IndexByte(v, ':')
	t, _ := strconv.Atoi(v[:i])
	return t, v[i+1:]
}

// valLess is the total order: by type, then by value
func valLess(a, b string) bool {
	ta, da := splitVal(a)
	tb, db := splitVal(b)
	if ta != tb {
		return ta < tb
	}
	switch {
	case ta >= 1 && ta <= 5:
		x, _ := strconv.ParseUint(da, 10, 64)
		y, _ := strconv.ParseUint(db, 10, 64)
		return x < y
	case ta >= 6 && ta <= 10:
		x, _ := strconv.ParseInt(da, 10, 64)
		y, _ := strconv.ParseInt(db, 10, 64)
		return x < y
	case ta == 11 || ta == 12:
		x, _ := strconv.ParseFloat(da, 64)
		y, _ := strconv.ParseFloat(db, 64)
		return x < y
	case ta == 13:
		return da < db
	}
	return false
}

func (vs *Vals) table() R {
	vs.mu.Lock()
	defer vs.mu.Unlock()
	l := []string{}
	for v := range vs.m {
		l = append(l, v)
	}
	sort.Slice(l, func(i, j int) bool { return valLess(l[i], l[j]) })
	r := R{}
	for i, v := range l {
		t, _ := splitVal(v)
		r[v] = R{"t": t, "n": i}
	}
	if len(r) == 0 {
		r["1024:"] = R{"t": 1024, "n": 0}
	}
	return r
}

var valPools = map[int][]string{
	1: {"0", "1", "2", "9", "255"}, 2: {"0", "1", "300", "65535"}, 3: {"1", "2", "4294967295"},
	4: {"1", "2", "10", "18446744073709551615"}, 5: {"0", "1", "2", "10"},
	6: {"-128", "-1", "0", "1", "127"}, 7: {"-300", "-1", "1", "32767"}, 8: {"-2", "1", "2147483647"},
	9: {"-9223372036854775808", "-1", "1", "2", "9223372036854775807"}, 10: {"-2", "-1", "0", "1", "2", "10"},
	11: {"-1.5", "0.5", "1", "2.25"}, 12: {"-2.5", "0.25", "1", "1.5", "10"},
	13: {"", "1", "10", "2", "a", "b", "B", "é", "x y"},
}

var allTypes = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}

// a Gen draws from a few keys and a few values, so that objects meet
type Gen struct {
	r    *rand.Rand
	keys []string
	pool []string // concrete values
	vals *Vals
	any  float64 // how often a stored value is Any
	ids  []string
}

func newGen(r *rand.Rand, nKeys, nVals int) *Gen {
	g := &Gen{r: r, vals: &Vals{m: map[string]bool{}}}
	names := []string{"a", "b", "c", "d", "key e", "ä"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	g.keys = names[:nKeys]
	// a few types, neighbours included
	types := []int{13}
	for len(types) < 3 {
		types = append(types, pick(r, allTypes))
	}
	for len(g.pool) < nVals {
		t := pick(r, types)
		v := fmt.Sprintf("%d:%s", t, pick(r, valPools[t]))
		g.pool = append(g.pool, v)
	}
	return g
}

// with is the same generator drawing from another source, for another goroutine
func (g *Gen) with(r *rand.Rand) *Gen {
	c := *g
	c.r = r
	return &c
}

func (g *Gen) val() string { return g.vals.add(pick(g.r, g.pool)) }

func (g *Gen) storedVal() string {
	if g.r.Float64() < g.any {
		return g.vals.add("1024:")
	}
	return g.val()
}

// kv draws key values with lo..hi keys
func (g *Gen) kv(lo, hi int) KV {
	n := lo + g.r.Intn(hi-lo+1)
	kv := KV{}
	for _, i := range g.r.Perm(len(g.keys)) {
		if len(kv) == n {
			break
		}
		kv[g.keys[i]] = g.storedVal()
	}
	return kv
}

func (kv KV) clone() KV {
	r := KV{}
	for k, v := range kv {
		r[k] = v
	}
	return r
}

func (kv KV) key() string { b, _ := json.Marshal(kv); return string(b) }

// typeRange draws type restrictions, sometimes around the type t
func (g *Gen) typeRange(t int) (int, int) {
	ts := append(append([]int{}, allTypes...), 1024)
	switch g.r.Intn(6) {
	case 0:
		return 1, 1024
	case 1:
		return 1, 13
	case 2:
		return t, t
	case 3:
		return t, 1024
	default:
		a, b := pick(g.r, ts), pick(g.r, ts)
		if g.r.Intn(2) == 0 {
			a = t
		}
		if a > b {
			a, b = b, a
		}
		return a, b
	}
}

type Q struct {
	Has    bool
	IDs    []string
	KVs    map[string]R // v c min max
	Mn, Mx int
	And    []*Q
	Or     []*Q
}

func (g *Gen) selection(q *Q) {
	q.Has = true
	for q.empty() {
		if g.r.Float64() < 0.2 {
			for i := 0; i <= g.r.Intn(3); i++ {
				if len(g.ids) > 0 && g.r.Intn(5) > 0 {
					q.IDs = append(q.IDs, pick(g.r, g.ids))
				} else {
					q.IDs = append(q.IDs, fmt.Sprintf("00000000-0000-4000-8000-%012d", g.r.Intn(4)))
				}
			}
		}
		if g.r.Float64() < 0.8 {
			n := 1 + g.r.Intn(2)
			if g.r.Intn(4) == 0 {
				n = 3
			}
			for i := 0; i < n; i++ {
				c := pick(g.r, []string{"=", "=", "!=", "<", "<=", ">", ">="})
				v := g.val()
				if (c == "=" || c == "!=") && g.r.Intn(5) == 0 {
					v = g.vals.add("1024:")
				}
				t, _ := splitVal(v)
				lo, hi := g.typeRange(t)
				k := pick(g.r, g.keys)
				if g.r.Intn(12) == 0 {
					k = "nokey"
				}
				q.KVs[k] = R{"v": v, "c": c, "min": lo, "max": hi}
			}
		}
		if g.r.Float64() < 0.2 {
			q.Mn = g.r.Intn(4)
		}
		if g.r.Float64() < 0.2 {
			q.Mx = g.r.Intn(4)
			if q.Mn > q.Mx {
				q.Mn, q.Mx = q.Mx, q.Mn
			}
		}
	}
}

func (q *Q) empty() bool { return len(q.IDs) == 0 && len(q.KVs) == 0 && q.Mn < 0 && q.Mx < 0 }

func newQ() *Q { return &Q{Mn: -1, Mx: -1, KVs: map[string]R{}} }

func (g *Gen) query(depth int) *Q {
	q := newQ()
	if g.r.Float64() < 0.8 {
		g.selection(q)
	}
	if depth > 0 {
		if g.r.Float64() < 0.4 {
			for i := 0; i <= g.r.Intn(2); i++ {
				q.And = append(q.And, g.query(depth-1))
			}
		}
		if g.r.Float64() < 0.4 {
			for i := 0; i <= g.r.Intn(2); i++ {
				q.Or = append(q.Or, g.query(depth-1))
			}
		}
	}
	return q
}

// split asks for some of these values, and for others not
func (g *Gen) split(kv KV) *Q {
	q := newQ()
	q.Has = true
	for k, v := range kv {
		c := pick(g.r, []string{"=", "!=", "!=", "<", "<=", ">", ">="})
		t, _ := splitVal(v)
		if t == 1024 && c != "=" && c != "!=" {
			c = "="
		}
		q.KVs[k] = R{"v": v, "c": c, "min": 1, "max": pick(g.r, []int{13, 1024})}
	}
	return q
}

// exact selects the objects with exactly these key values (plus Any values, which equal everything)
func (g *Gen) exact(kv KV) *Q {
	q := newQ()
	q.Has, q.Mn, q.Mx = true, len(kv), len(kv)
	for k, v := range kv {
		t, _ := splitVal(v)
		q.KVs[k] = R{"v": v, "c": "=", "min": t, "max": t}
	}
	return q
}

// spec is the query as the specification sees it
func (q *Q) spec() R {
	r := R{"has": q.Has, "ids": nz(q.IDs), "mn": q.Mn, "mx": q.Mx, "and": specs(q.And), "or": specs(q.Or)}
	r["kvs"] = q.KVs
	return r
}

func specs(qs []*Q) []R {
	r := []R{}
	for _, q := range qs {
		r = append(r, q.spec())
	}
	return r
}

func nz(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

// wire is the query as the services see it
func (q *Q) wire() R {
	r := R{}
	if q.Has {
		s := R{}
		if len(q.IDs) > 0 {
			s["IDs"] = q.IDs
		}
		if q.Mn >= 0 {
			s["MinNumberOfKeyValues"] = q.Mn
		}
		if q.Mx >= 0 {
			s["MaxNumberOfKeyValues"] = q.Mx
		}
		if len(q.KVs) > 0 {
			kvs := R{}
			for k, c := range q.KVs {
				kvs[k] = R{"Value": wireVal(c["v"].(string)), "Comparison": c["c"],
					"TypeRestrictions": R{"MinDataType": c["min"], "MaxDataType": c["max"]}}
			}
			s["KeyValues"] = kvs
		}
		r["Selection"] = s
	}
	if len(q.And) > 0 {
		l := []R{}
		for _, x := range q.And {
			l = append(l, x.wire())
		}
		r["And"] = l
	}
	if len(q.Or) > 0 {
		l := []R{}
		for _, x := range q.Or {
			l = append(l, x.wire())
		}
		r["Or"] = l
	}
	return r
}

type M struct {
	KVs    map[string]R
	Mn, Mx int
}

func (g *Gen) match() *M {
	m := &M{KVs: map[string]R{}, Mn: -1, Mx: -1}
	n := 1 + g.r.Intn(len(g.keys))
	for _, i := range g.r.Perm(len(g.keys))[:n] {
		v := g.val()
		if g.r.Intn(8) == 0 {
			v = g.vals.add("1024:")
		}
		t, _ := splitVal(v)
		lo, hi := g.typeRange(t)
		if g.r.Intn(2) == 0 {
			lo, hi = t, 1024
		}
		m.KVs[g.keys[i]] = R{"v": v, "min": lo, "max": hi}
	}
	if g.r.Float64() < 0.25 {
		m.Mn = g.r.Intn(4)
	}
	if g.r.Float64() < 0.25 {
		m.Mx = g.r.Intn(4)
		if m.Mn > m.Mx {
			m.Mn, m.Mx = m.Mx, m.Mn
		}
	}
	return m
}

// near matches a name and what it shares values with
func (g *Gen) near(kv KV) *M {
	m := &M{KVs: map[string]R{}, Mn: -1, Mx: -1}
	for k, v := range kv {
		m.KVs[k] = R{"v": v, "min": 1, "max": pick(g.r, []int{13, 1024})}
	}
	for len(m.KVs) < len(g.keys) && g.r.Intn(2) == 0 {
		m.KVs[pick(g.r, g.keys)] = R{"v": g.val(), "min": 1, "max": 1024}
	}
	return m
}

func (m *M) spec() R { return R{"kvs": m.KVs, "mn": m.Mn, "mx": m.Mx} }

func (m *M) wire() R {
	kvs := R{}
	for k, c := range m.KVs {
		kvs[k] = R{"Value": wireVal(c["v"].(string)), "TypeRestrictions": R{"MinDataType": c["min"], "MaxDataType": c["max"]}}
	}
	r := R{"KeyValues": kvs}
	if m.Mn >= 0 {
		r["MinNumberOfPermutationKeyValues"] = m.Mn
	}
	if m.Mx >= 0 {
		r["MaxNumberOfPermutationKeyValues"] = m.Mx
	}
	return r
}

package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"verifharness/core"
	"verifharness/sched"
)

// point is the occ-th execution of a statement by one thread.
type point struct {
	Site int `json:"s"`
	Occ  int `json:"o"`
}

func (p point) String() string {
	if p.Site < len(sched.Table) {
		return fmt.Sprintf("%s:%d (execution %d)", sched.Table[p.Site].File, sched.Table[p.Site].Line, p.Occ)
	}
	return fmt.Sprint(p.Site, p.Occ)
}

// change says that shared state changed between two points.
type change struct {
	From, To point
	What     string
}

// recording is one call alone, statement by statement.
type recording struct {
	Out     string
	First   []int          // statements in the order of their first execution
	Count   map[int]int    // executions of each
	Total   int64          // statements executed
	Changes []change       // of state shared between goroutines
	What    map[string]int // regions that changed
	Checks  int64          // comparisons of the shared state
}

// outcomeOf performs the call with its receiver on priv and everything else
// on shared.
type prepared struct {
	c     *call
	p     *pool
	res   []reflect.Value
	panic bool
}

func prepare(c *call, shared *pool) *prepared {
	p := shared
	if c.meth != "" && inPlace(c.meth) {
		own := concPool()
		q := &pool{objs: append([]*obj{}, shared.objs...)}
		q.objs[c.args[0]] = own.objs[c.args[0]]
		p = q
	}
	return &prepared{c: c, p: p}
}

func (x *prepared) run() { x.res, x.panic = x.c.invoke(x.p) }

// shown is the outcome; called after all threads have ended.
func (x *prepared) shown() (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "result that cannot be read: " + fmt.Sprint(r)
		}
	}()
	if x.panic {
		return "panic"
	}
	var o []string
	for _, r := range x.res {
		o = append(o, show(r))
	}
	s = strings.Join(o, " ; ")
	if x.c.meth != "" && inPlace(x.c.meth) {
		s += " => " + show(x.p.objs[x.c.args[0]].ptr)
	}
	return
}

// ---- shared memory

type region struct {
	name string
	now  []byte
	was  []byte
}

type watch struct {
	roots []sched.Var
	regs  []region
	keep  []interface{}
}

func newWatch(p *pool) *watch {
	w := &watch{roots: append([]sched.Var{}, sched.Globals...)}
	for _, o := range p.objs {
		w.roots = append(w.roots, sched.Var{Name: "argument " + o.name, Ptr: o.ptr.Interface()})
	}
	w.refresh()
	return w
}

// refresh finds the memory reachable from the roots and saves it.
func (w *watch) refresh() {
	w.regs = w.regs[:0]
	seen := map[[2]uintptr]bool{}
	var walk func(name string, v reflect.Value, depth int)
	add := func(name string, ptr unsafe.Pointer, n uintptr) bool {
		k := [2]uintptr{uintptr(ptr), n}
		if ptr == nil || n == 0 || seen[k] {
			return false
		}
		seen[k] = true
		b := (*[1 << 30]byte)(ptr)[:n:n]
		w.regs = append(w.regs, region{name, b, append([]byte{}, b...)})
		return true
	}
	walk = func(name string, v reflect.Value, depth int) {
		if depth > 12 {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || !add(name, unsafe.Pointer(v.Pointer()), v.Type().Elem().Size()) {
				return
			}
			walk(name, v.Elem(), depth+1)
		case reflect.Slice:
			if v.IsNil() || v.Cap() == 0 || !add(name, unsafe.Pointer(v.Pointer()), v.Type().Elem().Size()*uintptr(v.Cap())) {
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(name, v.Index(i), depth+1)
			}
		case reflect.Map:
			if v.IsNil() || !add(name, unsafe.Pointer(v.Pointer()), 48) {
				return
			}
			for it := v.MapRange(); it.Next(); {
				walk(name, it.Value(), depth+1)
			}
		case reflect.Chan:
			if !v.IsNil() {
				add(name, unsafe.Pointer(v.Pointer()), 24)
			}
		case reflect.Interface:
			if !v.IsNil() {
				walk(name, v.Elem(), depth+1)
			}
		case reflect.Struct:
			if flat(v.Type()) {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				walk(name, v.Field(i), depth+1)
			}
		case reflect.Array:
			if flat(v.Type().Elem()) {
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(name, v.Index(i), depth+1)
			}
		}
	}
	for _, r := range w.roots {
		walk(r.Name, reflect.ValueOf(r.Ptr), 0)
	}
}

var flatCache = map[reflect.Type]bool{}

// flat types hold no references.
func flat(t reflect.Type) (f bool) {
	if f, ok := flatCache[t]; ok {
		return f
	}
	f = true
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Chan, reflect.Interface, reflect.String, reflect.Func, reflect.UnsafePointer:
		f = false
	case reflect.Array:
		f = flat(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f = f && flat(t.Field(i).Type)
		}
	}
	flatCache[t] = f
	return
}

// changed lists the regions that differ from what was saved and saves anew.
func (w *watch) changed() (out []string) {
	for i := range w.regs {
		r := &w.regs[i]
		if !bytes.Equal(r.now, r.was) {
			out = append(out, r.name)
		}
	}
	if out != nil {
		w.refresh()
	}
	return
}

// ---- one call alone

// record performs a call alone and compares the shared state before every
// statement; often says how many executions of each statement are looked at
// before only every 61st is.
func record(c *call, often int) recording {
	shared := concPool()
	x := prepare(c, shared)
	r := recording{Count: map[int]int{}, What: map[string]int{}}
	if len(sched.Table) == 0 {
		return r
	}
	w := newWatch(shared)
	cnt := make([]int, len(sched.Table))
	var prev point
	look := func(now point) {
		r.Checks++
		for _, what := range w.changed() {
			r.What[what]++
			if len(r.Changes) < 400 {
				r.Changes = append(r.Changes, change{prev, now, what})
			}
		}
	}
	me := sched.G()
	sched.Hook = func(s int) {
		if sched.Goroutines && sched.G() != me {
			return
		}
		r.Total++
		cnt[s]++
		if cnt[s] == 1 {
			r.First = append(r.First, s)
		}
		now := point{s, cnt[s]}
		if cnt[s] <= often || cnt[s]%61 == 0 {
			look(now)
		}
		prev = now
	}
	x.run()
	sched.Hook = nil
	look(prev)
	for s, n := range cnt {
		if n > 0 {
			r.Count[s] = n
		}
	}
	r.Out = x.shown()
	return r
}

// ---- schedules

type seg struct {
	T  int   `json:"t"`
	At point `json:"at"` // run until this point; {-1,0}: to the end
}

type plan struct {
	Pre   []int `json:"pre"`   // calls made before, alone
	Calls []int `json:"calls"` // one per thread
	Segs  []seg `json:"segs"`
}

func (p plan) String() string {
	cs := allCalls()
	var s []string
	for _, k := range p.Pre {
		s = append(s, "first "+cs[k].String())
	}
	for i, k := range p.Calls {
		s = append(s, fmt.Sprintf("goroutine %d: %s", i, cs[k]))
	}
	for _, g := range p.Segs {
		if g.At.Site < 0 {
			s = append(s, fmt.Sprintf("%d runs to its end", g.T))
		} else {
			s = append(s, fmt.Sprintf("%d runs until %s", g.T, g.At))
		}
	}
	return strings.Join(s, "; ")
}

type thread struct {
	x       *prepared
	resume  chan struct{}
	cnt     []int
	stop    point
	done    bool
	blocked bool
	id      uintptr
}

type planResult struct {
	Outs   []string
	Reason string // deadlock
	Yields int64
	Used   int // preemptions that took place
}

// perform runs the threads of a plan one at a time, switching where it says.
func perform(p plan) (res planResult) {
	cs := allCalls()
	shared := concPool()
	for _, k := range p.Pre {
		prepare(cs[k], shared).run()
	}
	w := newWatch(shared)
	var ths []*thread
	for _, k := range p.Calls {
		ths = append(ths, &thread{x: prepare(cs[k], shared), resume: make(chan struct{}), cnt: make([]int, len(sched.Table)), stop: point{-1, 0}})
	}
	var cur atomic.Value // *thread
	cur.Store(ths[0])
	events := make(chan *thread, len(ths)*4)
	var loose int32
	mine := func() *thread {
		t := cur.Load().(*thread)
		if atomic.LoadInt32(&loose) != 0 || sched.Goroutines && sched.G() != t.id {
			return nil
		}
		return t
	}
	sched.Hook = func(s int) {
		t := mine()
		if t == nil {
			return
		}
		res.Yields++
		t.cnt[s]++
		if t.stop.Site == s && t.stop.Occ == t.cnt[s] {
			res.Used++
			t.stop.Site = -1
			events <- t
			<-t.resume
		}
	}
	sched.ControlHook = func() bool { return mine() != nil }
	sched.BlockHook = func() bool {
		t := mine()
		if t == nil {
			return false
		}
		t.blocked = true
		events <- t
		<-t.resume
		return atomic.LoadInt32(&loose) == 0
	}
	for _, t := range ths {
		t := t
		go func() {
			t.id = sched.G()
			<-t.resume
			t.x.run()
			t.done = true
			events <- t
		}()
	}
	// step lets a thread run until it stops, blocks or ends
	step := func(t *thread) bool {
		cur.Store(t)
		t.blocked = false
		select {
		case t.resume <- struct{}{}:
		case <-time.After(10 * time.Second):
			return false
		}
		select {
		case <-events:
			return true
		case <-time.After(10 * time.Second):
			return false
		}
	}
	stuck := false
	deadlock := false
	for _, g := range p.Segs {
		t := ths[g.T]
		if t.done || stuck {
			continue
		}
		t.stop = g.At
		if !step(t) {
			stuck = true
		}
	}
	idle := 0
	for k := 0; !stuck && idle <= len(ths); k++ {
		left := false
		t := ths[k%len(ths)]
		for _, u := range ths {
			left = left || !u.done
		}
		if !left {
			break
		}
		if t.done {
			continue
		}
		t.stop.Site = -1
		if !step(t) {
			stuck = true
			break
		}
		if t.blocked {
			idle++
		} else {
			idle = 0
		}
	}
	if idle > len(ths) {
		deadlock = true
	}
	if stuck {
		// something waits outside the scheduler's control: let all run
		atomic.StoreInt32(&loose, 1)
		end := time.After(25 * time.Second)
		n := 0
		for _, t := range ths {
			if t.done {
				continue
			}
			n++
			t := t
			go func() {
				select {
				case t.resume <- struct{}{}:
				case <-time.After(30 * time.Second):
				}
			}()
		}
		for i := 0; i < 100 && !allDone(ths); i++ {
			select {
			case <-events:
			case <-end:
				i = 100
			}
		}
		if !allDone(ths) {
			deadlock = true
		}
	}
	sched.Hook, sched.ControlHook, sched.BlockHook = nil, nil, nil
	if deadlock {
		res.Reason = "the goroutines wait for each other for ever"
		return
	}
	for _, t := range ths {
		res.Outs = append(res.Outs, t.x.shown())
	}
	args := false
	for _, what := range w.changed() {
		args = args || strings.HasPrefix(what, "argument ")
	}
	if args {
		if pristine == nil {
			pristine = concPool().showAll()
			// addresses are shown for some objects
			for i, s := range concPool().showAll() {
				if s != pristine[i] {
					pristine[i] = ""
				}
			}
		}
		for i, s := range shared.showAll() {
			if pristine[i] != "" && s != pristine[i] {
				res.Reason = fmt.Sprintf("%s has changed from %s to %s", shared.objs[i].name, clip(pristine[i]), clip(s))
			}
		}
	}
	return
}

var pristine []string

func allDone(ths []*thread) bool {
	for _, t := range ths {
		if !t.done {
			return false
		}
	}
	return true
}

var callsCache []*call

// concPool has the ordinary and the unusual objects.
func concPool() *pool { return newPool().join(edgePool()) }

func (p *pool) join(q *pool) *pool {
	p.objs = append(p.objs, q.objs...)
	for t, l := range q.byType {
		p.byType[t] = append(p.byType[t], l...)
	}
	return p
}

// allCalls are the calls on ordinary objects, then those on unusual ones.
func allCalls() []*call {
	if callsCache == nil {
		callsCache = calls()
		n := len(newPool().objs)
		for _, c := range callsOn(edgePool) {
			for i := range c.args {
				c.args[i] += n
			}
			c.mk = concPool
			callsCache = append(callsCache, c)
		}
	}
	return callsCache
}

// ---- child processes

type concJob struct {
	Record int   `json:"record"`
	Often  int   `json:"often"`
	Plan   *plan `json:"plan"`
}

// ConcChild does one job in a process of its own.
func ConcChild() {
	var j concJob
	if err := json.NewDecoder(os.Stdin).Decode(&j); err != nil {
		panic(err)
	}
	var out interface{}
	if j.Plan != nil {
		out = perform(*j.Plan)
	} else {
		out = record(allCalls()[j.Record], j.Often)
	}
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
}

func inChild(j concJob, out interface{}) error {
	b, _ := json.Marshal(j)
	ctx, cancel := context.WithTimeout(context.Background(), 350*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "-child", "conc")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stdin = bytes.NewReader(b)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Run(); err != nil {
		return fmt.Errorf("%v: %s", err, clip(se.String()))
	}
	return json.Unmarshal(so.Bytes(), out)
}

var recCache = map[int]*recording{}

// recordCold is a call made alone in a new process.
func recordCold(t *core.T, k int) *recording {
	if r, ok := recCache[k]; ok {
		return r
	}
	r := &recording{}
	if len(readDirty()) == 0 {
		// nothing is changed, so nothing depends on what ran before
		*r = record(allCalls()[k], 0)
		recCache[k] = r
		return r
	}
	if err := inChild(concJob{Record: k, Often: 8}, r); err != nil {
		t.Failf("%s alone in a new process: %v", allCalls()[k], err)
	}
	recCache[k] = r
	return r
}

// ---- selections of calls

func opOf(c *call) string {
	if c.meth != "" {
		return newPoolTypes()[c.args[0]] + "." + c.meth
	}
	return c.name[:strings.Index(c.name, "(")]
}

var poolTypes []string

func newPoolTypes() []string {
	if poolTypes == nil {
		for _, o := range concPool().objs {
			poolTypes = append(poolTypes, o.ptr.Type().String())
		}
	}
	return poolTypes
}

func heavyName(n string) bool {
	for _, w := range []string{"Pairing", "Verify", "Hash", "Sign", "Prepared", "Miller", "FinalExp", "ScaleByCofactor", "PrivToPub", "Subgroup", "Decompress", "Deserialize", "SWU", "SWEncode", "ClearH", "PointFromX", "Exp(", "Mul(", "MulFR(", "MulBig("} {
		if strings.Contains(n, w) {
			return true
		}
	}
	return false
}

// byOp groups the calls by operation, in order.
func byOp() (ops []string, of map[string][]int) {
	of = map[string][]int{}
	for k, c := range allCalls() {
		o := opOf(c)
		if of[o] == nil {
			ops = append(ops, o)
		}
		of[o] = append(of[o], k)
	}
	return
}

// some picks up to n of a list, spread over it.
func some(l []int, n int) []int {
	if len(l) <= n {
		return l
	}
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, l[i*len(l)/n])
	}
	return out
}

// ---- the spaces

// dirty is what the recordings found: calls that change shared state.
type dirty struct {
	Call    int
	What    []string
	Total   int64
	Changes []change
}

func noteDirty(d dirty) {
	f := os.Getenv("VERIF_NOTES")
	if f == "" {
		return
	}
	b, _ := json.Marshal(d)
	h, err := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err == nil {
		h.Write(append(b, '\n'))
		h.Close()
	}
}

var dirtyCache []dirty
var dirtyRead bool

func readDirty() (out []dirty) {
	if dirtyRead {
		return dirtyCache
	}
	dirtyRead = true
	defer func() { dirtyCache = out }()
	b, err := os.ReadFile(os.Getenv("VERIF_DIRTY"))
	if err != nil {
		return nil
	}
	best := map[int]dirty{}
	for _, l := range bytes.Split(b, []byte("\n")) {
		var d dirty
		if len(l) > 0 && json.Unmarshal(l, &d) == nil {
			if o, ok := best[d.Call]; !ok || len(o.Changes) < len(d.Changes) {
				best[d.Call] = d
			}
		}
	}
	for _, d := range best {
		out = append(out, d)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Total != out[j].Total {
			return out[i].Total < out[j].Total
		}
		return out[i].Call < out[j].Call
	})
	return
}

func alone(tier string) []core.Space {
	ops, of := byOp()
	var cold, warm []int
	for _, o := range ops {
		l := of[o]
		cold = append(cold, l[0])
		n := 80
		if heavyName(allCalls()[l[0]].name) {
			n = 14
		}
		if tier == "thorough" {
			n = len(l)
		}
		for _, k := range some(l, n+1) {
			if k != l[0] {
				warm = append(warm, k)
			}
		}
	}
	often := 64
	if tier == "thorough" {
		often = 5000
	}
	look := func(t *core.T, k int, r *recording) {
		t.State(r.Checks)
		t.Trans(r.Total)
		t.EvalN(r.Checks)
		if len(r.What) == 0 {
			return
		}
		d := dirty{Call: k, Total: r.Total, Changes: r.Changes}
		for w := range r.What {
			d.What = append(d.What, w)
		}
		sort.Strings(d.What)
		noteDirty(d)
	}
	return []core.Space{
		{Name: "each operation alone in a new process, shared memory compared before every statement", N: int64(len(cold)), Run: func(t *core.T, i int64) {
			r := &recording{}
			if err := inChild(concJob{Record: cold[i], Often: often}, r); err != nil {
				t.Failf("%s alone: %v", allCalls()[cold[i]], err)
			}
			look(t, cold[i], r)
			if t.WantSample() {
				t.Sample("%s: %d statements, shared memory compared %d times, changed: %v", allCalls()[cold[i]], r.Total, r.Checks, r.What)
			}
		}},
		{Name: "more calls, shared memory compared before every statement", N: int64(len(warm)), Run: func(t *core.T, i int64) {
			r := record(allCalls()[warm[i]], often)
			look(t, warm[i], &r)
		}},
	}
}

// points of a recording at which a preemption is tried.
func coarsePoints(r *recording, max int) (out []point) {
	var l []int
	for _, s := range r.First {
		if s >= sched.FirstSite {
			l = append(l, s)
		}
	}
	for _, s := range some(l, max) {
		out = append(out, point{s, 1})
	}
	return
}

func hotPoints(r *recording, d dirty, vars map[string]bool, max int) (out []point) {
	seen := map[point]bool{}
	put := func(p point) {
		if p.Site >= 0 && p.Occ > 0 && !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	ch := append(append([]change{}, r.Changes...), d.Changes...)
	for i, c := range ch {
		if i < max/4 {
			put(c.To)
			put(c.From)
		}
	}
	for _, occ := range []int{1, 2, 0, 3} {
		for _, s := range r.First {
			st := sched.Table[s]
			hot := st.Sync
			for _, v := range st.Vars {
				hot = hot || vars[v]
			}
			if !hot || len(out) >= max {
				continue
			}
			o := occ
			if o == 0 {
				o = r.Count[s]
			}
			if o <= r.Count[s] {
				put(point{s, o})
			}
		}
	}
	return
}

var toEnd = point{-1, 0}

func schedules(tier string) []core.Space {
	thorough := tier == "thorough"
	ops, of := byOp()
	cs := allCalls()
	type pair struct{ a, b int }
	var pairs []pair
	seen := map[pair]bool{}
	put := func(a, b int) {
		if !seen[pair{a, b}] {
			seen[pair{a, b}] = true
			pairs = append(pairs, pair{a, b})
		}
	}
	for i, o := range ops {
		l := of[o]
		put(l[0], l[len(l)-1])
		other := of[ops[(i*7+3)%len(ops)]]
		put(l[len(l)/2], other[len(other)/2])
	}
	if thin, _ := strconv.Atoi(os.Getenv("VERIF_THIN")); thin > 1 || len(readDirty()) > 0 {
		if thin < 4 && !thorough {
			thin = 4
		} else if thin < 1 {
			thin = 1
		}
		var few []pair
		for i := 0; i < len(pairs); i += thin {
			few = append(few, pairs[i])
		}
		pairs = few
	}
	ds := readDirty()
	vars := map[string]bool{}
	for _, d := range ds {
		for _, w := range d.What {
			vars[w] = true
		}
	}
	check := func(t *core.T, p plan, cold bool) {
		var r planResult
		if cold {
			if err := inChild(concJob{Plan: &p}, &r); err != nil {
				t.Failf("%s: %v", p, err)
			}
		} else {
			r = perform(p)
		}
		t.Eval(r.Used > 0)
		t.Trace(1)
		t.State(1)
		t.Trans(int64(r.Used) + int64(len(p.Calls)))
		if r.Reason != "" {
			t.Failf("%s: %s", p, r.Reason)
		}
		for i, k := range p.Calls {
			if want := recordCold(t, k).Out; r.Outs[i] != want {
				t.Failf("%s: goroutine %d gets %s, alone it gets %s", p, i, clip(r.Outs[i]), clip(want))
			}
		}
	}
	var sp []core.Space
	consts := constants()
	max := 10
	if thorough {
		max = 150
	}
	sp = append(sp, core.Space{Name: "pairs of operations, one preemption", N: int64(len(pairs)), Run: func(t *core.T, i int64) {
		p := pairs[i]
		for _, q := range []pair{p, {p.b, p.a}} {
			m := max
			if heavyName(cs[q.a].name) || heavyName(cs[q.b].name) {
				m = max / 2
			}
			for _, at := range coarsePoints(recordCold(t, q.a), m) {
				check(t, plan{Calls: []int{q.a, q.b}, Segs: []seg{{0, at}, {1, toEnd}, {0, toEnd}}}, false)
			}
		}
		checkConsts(t, consts, fmt.Sprintf("%s and %s together", cs[p.a], cs[p.b]))
		if t.WantSample() {
			t.Sample("%s preempted at %d points by %s, and the other way round", cs[p.a], max, cs[p.b])
		}
	}})
	if len(ds) == 0 {
		return sp
	}
	// calls that change shared state, with the calls that may notice
	type task struct {
		a, b int
		pre  []int
		rank int
	}
	var tasks []task
	info := map[int]dirty{}
	for _, d := range ds {
		info[d.Call] = d
	}
	perOp := map[string]int{}
	var chosen []dirty
	limit := 16
	if thorough {
		limit = 200
	}
	for _, d := range ds {
		o := opOf(cs[d.Call])
		if perOp[o] < 2 && len(chosen) < limit {
			perOp[o]++
			chosen = append(chosen, d)
		}
	}
	objs := concPool().objs
	for n, d := range chosen {
		rank := 0
		done := map[int]bool{}
		put := func(b int) {
			if done[b] {
				return
			}
			done[b] = true
			tasks = append(tasks, task{d.Call, b, nil, rank})
			if !inPlaceCall(cs[b]) && (rank < 2 || thorough) {
				tasks = append(tasks, task{d.Call, b, []int{b}, rank + 1})
			}
			rank++
		}
		same := of[opOf(cs[d.Call])]
		for _, k := range some(same, 3) {
			if k != d.Call {
				put(k)
			}
		}
		put(d.Call)
		// readers of a changed argument
		got := map[string]bool{}
		readers := 0
		for _, w := range d.What {
			if !strings.HasPrefix(w, "argument ") {
				continue
			}
			for _, heavy := range []bool{false, true} {
				for k, c := range cs {
					if heavyName(c.name) != heavy || got[opOf(c)] || readers >= 8 || strings.Contains(c.name, "String") {
						continue
					}
					for x, a := range c.args {
						if "argument "+objs[a].name == w && !(x == 0 && inPlaceCall(c)) {
							got[opOf(c)] = true
							readers++
							put(k)
							break
						}
					}
				}
			}
		}
		for j := 1; j <= 3 && j < len(chosen); j++ {
			put(chosen[(n+j)%len(chosen)].Call)
		}
	}
	sort.SliceStable(tasks, func(i, j int) bool { return tasks[i].rank < tasks[j].rank })
	nh, nc, nx, two := 24, 12, 8, 8
	if thorough {
		nh, nc, nx, two = 120, 200, 60, 40
	}
	run := func(t *core.T, i int64) {
		k := tasks[i]
		ra, rb := recordCold(t, k.a), recordCold(t, k.b)
		ha, hb := hotPoints(ra, info[k.a], vars, nh), hotPoints(rb, info[k.b], vars, nh)
		calls := []int{k.a, k.b}
		first := func(l []point, n int) []point {
			if len(l) > n {
				return l[:n]
			}
			return l
		}
		for _, cold := range []bool{true, false} {
			n := nh
			if cold {
				n = nx
			}
			for _, at := range first(ha, n) {
				check(t, plan{k.pre, calls, []seg{{0, at}, {1, toEnd}, {0, toEnd}}}, cold)
			}
			for _, at := range first(hb, n) {
				check(t, plan{k.pre, calls, []seg{{1, at}, {0, toEnd}, {1, toEnd}}}, cold)
			}
		}
		for _, at := range coarsePoints(ra, nc) {
			check(t, plan{k.pre, calls, []seg{{0, at}, {1, toEnd}, {0, toEnd}}}, false)
		}
		for _, at := range coarsePoints(rb, nc) {
			check(t, plan{k.pre, calls, []seg{{1, at}, {0, toEnd}, {1, toEnd}}}, false)
		}
		ha, hb = first(ha, two), first(hb, two)
		for _, p := range ha {
			for _, q := range hb {
				check(t, plan{k.pre, calls, []seg{{0, p}, {1, q}, {0, toEnd}, {1, toEnd}}}, false)
			}
		}
		// a third goroutine between the two halves
		for n, p := range ha {
			for _, q := range hb {
				if !thorough && n > 1 {
					break
				}
				check(t, plan{k.pre, []int{k.a, k.b, k.a}, []seg{{0, p}, {1, q}, {2, toEnd}, {0, toEnd}, {1, toEnd}}}, false)
			}
		}
	}
	sp = append(sp, core.Space{Name: "operations that change shared state, one and two preemptions, two and three goroutines", N: int64(len(tasks)), Run: func(t *core.T, i int64) {
		if t.WantSample() {
			t.Sample("%s, which changes %v, with %s", cs[tasks[i].a], info[tasks[i].a].What, cs[tasks[i].b])
		}
		run(t, i)
	}})
	// the more telling space first
	sp[0], sp[len(sp)-1] = sp[len(sp)-1], sp[0]
	return sp
}

func inPlaceCall(c *call) bool { return c.meth != "" && inPlace(c.meth) }

// together starts goroutines for the calls and compares what they get with
// what the calls give alone afterwards.  The race detector watches.
func together(t *core.T, ks []int) {
	cs := allCalls()
	shared := concPool()
	var xs []*prepared
	own := map[int][]*pool{}
	for _, k := range ks {
		c := cs[k]
		if !inPlaceCall(c) {
			xs = append(xs, &prepared{c: c, p: shared})
			continue
		}
		// receivers are private; a pool serves one receiver each
		r := c.args[0]
		p := concPool()
		own[r] = append(own[r], p)
		q := &pool{objs: append([]*obj{}, shared.objs...)}
		q.objs[r] = p.objs[r]
		xs = append(xs, &prepared{c: c, p: q})
	}
	start := make(chan struct{})
	done := make(chan int, len(xs))
	for i := range xs {
		i := i
		go func() {
			<-start
			xs[i].run()
			done <- i
		}()
	}
	close(start)
	for range xs {
		<-done
	}
	for i, k := range ks {
		x := prepare(cs[k], concPool())
		x.run()
		t.Eval(true)
		t.Trans(1)
		if g, w := xs[i].shown(), x.shown(); g != w {
			t.Failf("%s gets %s together with %d other calls, and %s alone", cs[k], clip(g), len(ks)-1, clip(w))
		}
	}
}

func raceSpaces(tier string) []core.Space {
	ops, of := byOp()
	thorough := tier == "thorough"
	n := 7
	if thorough {
		n = 1 << 20
	}
	var sp []core.Space
	sp = append(sp, core.Space{Name: "one operation from several goroutines, happens-before analysis", N: int64(len(ops)), Run: func(t *core.T, i int64) {
		var ks []int
		for _, k := range some(of[ops[i]], n) {
			ks = append(ks, k, k)
		}
		if len(ks) > 40 {
			ks = ks[:40]
		}
		together(t, ks)
		if t.WantSample() {
			t.Sample("%s from %d goroutines on the same arguments", ops[i], len(ks))
		}
	}})
	orders := int64(8)
	sp = append(sp, core.Space{Name: "every operation at once, happens-before analysis", N: orders, Run: func(t *core.T, i int64) {
		m := 1
		if thorough {
			m = 6
		}
		var ks []int
		for j := range ops {
			l := of[ops[(j*(2*int(i)+1)+int(i)*5)%len(ops)]]
			for k := 0; k < m; k++ {
				ks = append(ks, l[(int(i)*3+k)%len(l)])
			}
		}
		together(t, ks)
	}})
	return append(sp, longLists(tier), raceValues(tier))
}

func init() {
	core.Register("C18", func(tier string) []core.Space {
		if raceBuild {
			return raceSpaces(tier)
		}
		if os.Getenv("VERIF_DIRTY") != "" {
			return schedules(tier)
		}
		return alone(tier)
	})
}

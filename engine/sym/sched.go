package sym

import (
	"fmt"
	"go/types"
	"strings"

	"vengine/smt"

	"golang.org/x/tools/go/ssa"
)

// ---- scheduling

func (st *State) runnable() []int {
	var out []int
	for i, t := range st.ths {
		if !t.done && len(t.frames) > 0 && st.canRun(t) {
			out = append(out, i)
		}
	}
	return out
}

// canRun evaluates the wait condition of a thread.
func (st *State) canRun(t *Thread) bool {
	if t.wait == "" {
		return true
	}
	switch {
	case strings.HasPrefix(t.wait, "lock:"):
		l := st.lock(t.wait[5:])
		return l.w == 0 && l.rd == 0
	case strings.HasPrefix(t.wait, "rlock:"):
		return st.lock(t.wait[6:]).w == 0
	case strings.HasPrefix(t.wait, "wg:"):
		return st.wgs[t.wait[3:]] == 0
	case t.wait == "chan":
		for _, op := range t.waitCh {
			if st.chanReady(op, t) {
				return true
			}
		}
		return false
	case t.wait == "forever":
		return false
	}
	return true
}

func (st *State) lock(k string) *lockState {
	if st.locks == nil {
		st.locks = map[string]*lockState{}
	}
	l := st.locks[k]
	if l == nil {
		l = &lockState{}
		st.locks[k] = l
	}
	return l
}

// syncPoint offers a context switch before a synchronisation operation.
func (st *State) syncPoint() {
	if len(st.ths) < 2 || st.noSw {
		return
	}
	run := st.runnable()
	if len(run) < 2 {
		return
	}
	r := st.r
	if st.preem >= r.PreemptBound {
		return
	}
	var outs []*State
	for _, i := range run {
		s := st.clone()
		s.choose(i)
		if i != st.cur {
			s.preem++
		}
		outs = append(outs, s)
	}
	r.nSched += len(outs)
	panic(forkSignal{outs})
}

// choose records a scheduling decision as a symbolic variable of the path.
func (st *State) choose(i int) {
	st.cur = i
	st.noSw = true
	st.sched = append(st.sched[:len(st.sched):len(st.sched)], i)
}

// reschedule is called when the current thread cannot continue.
func (st *State) reschedule() []*State {
	run := st.runnable()
	if len(run) == 0 {
		return nil
	}
	if len(run) == 1 {
		st.choose(run[0])
		return []*State{st}
	}
	var outs []*State
	for _, i := range run {
		s := st.clone()
		s.choose(i)
		outs = append(outs, s)
	}
	st.r.nSched += len(outs)
	return outs
}

func (st *State) block(why string) {
	st.th().wait = why
}

// ---- happens-before

func (st *State) clock() []int {
	t := st.th()
	for len(t.clk) < len(st.ths) {
		t.clk = append(t.clk, 0)
	}
	return t.clk
}

func joinClk(a, b []int) []int {
	n := append([]int(nil), a...)
	for len(n) < len(b) {
		n = append(n, 0)
	}
	for i, v := range b {
		if v > n[i] {
			n[i] = v
		}
	}
	return n
}

func (st *State) release(k string) {
	if st.hb == nil {
		st.hb = map[string][]int{}
	}
	c := st.clock()
	c[st.cur]++
	st.hb[k] = joinClk(st.hb[k], c)
}

func (st *State) acquire(k string) {
	if st.hb == nil {
		return
	}
	if c, ok := st.hb[k]; ok {
		st.clock()
		st.th().clk = joinClk(st.th().clk, c)
	}
}

type access struct {
	path  string
	tid   int
	clk   int
	write bool
	where string
}

type accessList struct{ a []access }

func (l *accessList) clone() *accessList { return &accessList{append([]access(nil), l.a...)} }

// access records a memory access for race detection.
func (st *State) access(p *Ptr, write bool) {
	if len(st.ths) < 2 || st.r.NoRace || p.Obj >= 1<<40 {
		return
	}
	if fs := st.th().frames; len(fs) > 0 && fnPkg(fs[len(fs)-1].fn) == "vh/web" {
		return // the models of the network
	}
	if st.acc == nil {
		st.acc = map[int]*accessList{}
	}
	l := st.acc[p.Obj]
	if l == nil {
		l = &accessList{}
		st.acc[p.Obj] = l
	}
	key := p.key() + "."
	clk := st.clock()
	out := l.a[:0:0]
	dup := false
	for _, a := range l.a {
		overlap := strings.HasPrefix(a.path, key) || strings.HasPrefix(key, a.path)
		if overlap && a.tid != st.cur && (a.write || write) {
			if a.tid >= len(clk) || clk[a.tid] < a.clk {
				// not ordered
				st.r.raceVC(st, a, write)
			}
		}
		if a.tid == st.cur && a.path == key && a.write == write {
			a.clk = clk[st.cur] + 1
			dup = true
		}
		out = append(out, a)
	}
	l.a = out
	if !dup {
		l.a = append(l.a, access{key, st.cur, clk[st.cur] + 1, write, st.where()})
	}
}

// ---- goroutines

func (st *State) goStmt(f *Frame, in *ssa.Go) {
	cc := &in.Call
	var fv *Func
	var args []Value
	if cc.IsInvoke() {
		fn, recv := st.resolveInvoke(f, cc)
		fv = fn
		args = append([]Value{recv}, st.args(f, cc.Args)...)
	} else {
		fv = st.get(f, cc.Value).(*Func)
		args = st.args(f, cc.Args)
	}
	if fv.Fn == nil {
		unsup("go of a builtin or nil")
	}
	st.spawn(fv, args)
	f.ip++
}

func (st *State) spawn(fv *Func, args []Value) {
	if len(st.ths) >= st.r.MaxThreads {
		st.r.incomplete("more than %d goroutines", st.r.MaxThreads)
		panic(killSignal{"threads"})
	}
	st.clock()[st.cur]++
	clk := append([]int(nil), st.clock()...)
	t := &Thread{id: len(st.ths), name: fnName(fv.Fn)}
	st.ths = append(st.ths, t)
	st.clock()
	for len(clk) <= t.id {
		clk = append(clk, 0)
	}
	t.clk = clk
	save := st.cur
	st.cur = t.id
	st.push(fv.Fn, args, fv.Bind, -1)
	st.cur = save
}

func (st *State) threadExited(t *Thread) {}

// ---- channels

func (st *State) chanObj(c *ChanV) *ChanObj {
	v, _ := st.mem.Get(c.Obj)
	return v.(*ChanObj)
}

// chanReady: could op proceed now? For unbuffered channels a partner must be waiting.
func (st *State) chanReady(op waitOp, me *Thread) bool {
	if op.ch == 0 {
		return false
	}
	v, _ := st.mem.Get(op.ch)
	co := v.(*ChanObj)
	if op.send {
		if co.Closed || len(co.Buf) < co.Cap {
			return true
		}
		if co.Cap == 0 && len(co.Buf) == 0 {
			return st.partner(op.ch, false, me) != nil
		}
		return false
	}
	if len(co.Buf) > 0 || co.Closed {
		return true
	}
	return false
}

// partner finds a thread blocked in the opposite operation on ch.
func (st *State) partner(ch int, send bool, me *Thread) *Thread {
	for _, t := range st.ths {
		if t == me || t.wait != "chan" {
			continue
		}
		for _, op := range t.waitCh {
			if op.ch == ch && op.send == send {
				return t
			}
		}
	}
	return nil
}

// An unbuffered send is modelled as a one-slot hand-over that is only allowed
// when a receiver is blocked on the channel (rendezvous).
func (st *State) send(f *Frame, in *ssa.Send) {
	ch := st.get(f, in.Chan).(*ChanV)
	st.syncPoint()
	if ch.Obj == 0 {
		st.block("forever")
		return
	}
	if !st.trySend(ch, st.get(f, in.X)) {
		st.th().waitCh = []waitOp{{ch.Obj, true}}
		st.block("chan")
		return
	}
	f.ip++
}

func (st *State) trySend(ch *ChanV, v Value) bool {
	if !st.chanReady(waitOp{ch.Obj, true}, st.th()) {
		return false
	}
	co := st.chanObj(ch)
	if co.Closed {
		st.throw("send on closed channel")
	}
	n := *co
	n.Buf = append(append([]Value(nil), co.Buf...), v)
	st.mem = st.mem.Set(ch.Obj, &n)
	st.release(fmt.Sprintf("ch%d", ch.Obj))
	st.th().wait = ""
	return true
}

func (st *State) tryRecv(ch *ChanV) (v Value, ok bool, done bool) {
	if !st.chanReady(waitOp{ch.Obj, false}, st.th()) {
		return nil, false, false
	}
	co := st.chanObj(ch)
	st.acquire(fmt.Sprintf("ch%d", ch.Obj))
	st.th().wait = ""
	if len(co.Buf) > 0 {
		n := *co
		v = co.Buf[0]
		n.Buf = append([]Value(nil), co.Buf[1:]...)
		st.mem = st.mem.Set(ch.Obj, &n)
		return v, true, true
	}
	return st.r.zeroOf(co.ElemT), false, true
}

func (st *State) recv(f *Frame, in *ssa.UnOp) {
	ch := st.get(f, in.X).(*ChanV)
	st.syncPoint()
	if ch.Obj == 0 {
		st.block("forever")
		return
	}
	v, ok, done := st.tryRecv(ch)
	if !done {
		st.th().waitCh = []waitOp{{ch.Obj, false}}
		st.block("chan")
		return
	}
	if in.CommaOk {
		st.set(f, in, &Tuple{[]Value{v, st.r.c.Bool(ok)}})
	} else {
		st.set(f, in, v)
	}
	f.ip++
}

func (st *State) closeChan(v Value) {
	ch := v.(*ChanV)
	if ch.Obj == 0 {
		st.throw("close of nil channel")
	}
	co := st.chanObj(ch)
	if co.Closed {
		st.throw("close of closed channel")
	}
	n := *co
	n.Closed = true
	st.mem = st.mem.Set(ch.Obj, &n)
	st.release(fmt.Sprintf("ch%d", ch.Obj))
}

func (st *State) selectOp(f *Frame, in *ssa.Select) {
	st.syncPoint()
	r := st.r
	var ready []int
	var ops []waitOp
	for i, s := range in.States {
		ch := st.get(f, s.Chan).(*ChanV)
		op := waitOp{ch.Obj, s.Dir == types.SendOnly}
		ops = append(ops, op)
		if st.chanReady(op, st.th()) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		if !in.Blocking {
			st.finishSelect(f, in, -1, nil, false)
			return
		}
		st.th().waitCh = ops
		st.block("chan")
		return
	}
	pick := ready[0]
	if len(ready) > 1 {
		key := fmt.Sprintf("select#%d", st.names["select"])
		c := r.c
		v := c.Var(key, smt.Int)
		pick = -1
		for _, i := range ready[:len(ready)-1] {
			if st.branch(c.App("=", smt.Bool, v, c.IntC(int64(i)))) {
				pick = i
				break
			}
		}
		if pick < 0 {
			pick = ready[len(ready)-1]
		}
	}
	s := in.States[pick]
	ch := st.get(f, s.Chan).(*ChanV)
	if s.Dir == types.SendOnly {
		st.trySend(ch, st.get(f, s.Send))
		st.finishSelect(f, in, pick, nil, false)
		return
	}
	v, ok, _ := st.tryRecv(ch)
	st.finishSelect(f, in, pick, v, ok)
}

func (st *State) finishSelect(f *Frame, in *ssa.Select, pick int, v Value, ok bool) {
	r := st.r
	st.th().wait = ""
	if st.names == nil {
		st.names = map[string]int{}
	}
	st.names["select"]++
	tu := &Tuple{V: []Value{r.mkInt(pick), r.c.Bool(ok)}}
	for i, s := range in.States {
		if s.Dir == types.RecvOnly {
			if i == pick {
				tu.V = append(tu.V, v)
			} else {
				tu.V = append(tu.V, r.zeroOf(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	st.set(f, in, tu)
	f.ip++
}

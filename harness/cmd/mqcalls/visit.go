package main

import (
	"context"
	"fmt"
	"sync"
	"time"

	mq "github.com/wenerme/go-miniquery/miniquery"
	"github.com/wenerme/go-miniquery/verifharness/internal/astjson"
	"github.com/wenerme/go-miniquery/verifharness/internal/hio"
)

// children of a node in visiting order, operators included.
func children(n *mq.Node) []*mq.Node {
	switch n.Type {
	case mq.ValueNodeType:
		return n.Array
	case mq.FunctionExpressionType:
		return n.Params
	case mq.CompareExpressionType, mq.LogicExpressionType:
		return []*mq.Node{n.Left, n.Op, n.Right}
	case mq.PredicatesExpressionType:
		return []*mq.Node{n.Left, n.Op}
	case mq.BetweenExpressionType:
		return append([]*mq.Node{n.Left, n.Op}, n.Params...)
	case mq.ParenthesesExpressionType, mq.NotExpressionType:
		return []*mq.Node{n.Expression}
	}
	return nil
}

// number lists the nodes of a tree, parents first.
func number(n *mq.Node, list []*mq.Node) []*mq.Node {
	list = append(list, n)
	for _, c := range children(n) {
		list = number(c, list)
	}
	return list
}

// walk is what one Visit does, carried by its context.
type walk struct {
	id    int
	index map[*mq.Node]int
	fails map[int]bool
	log   []int
	seen  []bool
	errs  []error
	gate  *gate

	// the call during which the context is cancelled, -1 before the first one, 0 never
	at     int
	until  time.Time
	cancel context.CancelFunc
}

type walkKey struct{}

// gate lets the calls of several walks happen in a given order.
type gate struct {
	mu    sync.Mutex
	cond  *sync.Cond
	order []int
	pos   int
	gone  map[int]bool
}

func newGate(order []int) *gate {
	g := &gate{order: order, gone: map[int]bool{}}
	g.cond = sync.NewCond(&g.mu)
	return g
}

func (g *gate) skip() {
	for g.pos < len(g.order) && g.gone[g.order[g.pos]] {
		g.pos++
	}
}

func (g *gate) enter(id int) {
	g.mu.Lock()
	defer g.mu.Unlock()
	for g.pos < len(g.order) && g.order[g.pos] != id {
		g.cond.Wait()
	}
	g.pos++
	g.skip()
	g.cond.Broadcast()
}

func (g *gate) leave(id int) {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.gone[id] = true
	g.skip()
	g.cond.Broadcast()
}

// visitor has a handler for every kind with a mode.
func visitor(modes map[string]string, lost *bool) *mq.Visitor {
	v := &mq.Visitor{}
	handler := func(kind string) mq.VisitFunc {
		mode := modes[kind]
		if mode == "" || mode == "none" {
			return nil
		}
		return func(ctx context.Context, n *mq.Node) error {
			w, ok := ctx.Value(walkKey{}).(*walk)
			if !ok {
				*lost = true
				return nil
			}
			if w.gate != nil {
				w.gate.enter(w.id)
			}
			w.log = append(w.log, w.index[n])
			w.seen = append(w.seen, ctx.Err() != nil)
			if until, ok := ctx.Deadline(); !ok || !until.Equal(w.until) {
				*lost = true
			}
			if len(w.log) == w.at {
				w.cancel()
			}
			if k := len(w.log); w.fails[k] {
				err := fmt.Errorf("call %d", k)
				for len(w.errs) < k {
					w.errs = append(w.errs, nil)
				}
				w.errs[k-1] = err
				return err
			}
			if mode == "stop" {
				return nil
			}
			for _, c := range children(n) {
				if err := v.Visit(ctx, c); err != nil && mode != "catch" {
					return err
				}
			}
			return nil
		}
	}
	v.BinaryExpression = handler("cmp")
	v.LogicExpression = handler("log")
	v.BetweenExpression = handler("btw")
	v.FunctionExpression = handler("fn")
	v.PredicatesExpression = handler("prd")
	v.ParenthesesExpression = handler("par")
	v.NotExpression = handler("not")
	v.IdentifierNode = handler("id")
	v.ReferenceNode = handler("ref")
	v.OperationNode = handler("op")
	v.ValueNode = handler("value")
	return v
}

// run walks from one node and reports the calls and which error came back: 0 for none,
// the number of the call that made it, -1 for another one.
func run(v *mq.Visitor, w *walk, n *mq.Node) object {
	res := 0
	w.until = time.Now().Add(time.Hour)
	ctx, cancel := context.WithDeadline(context.WithValue(context.Background(), walkKey{}, w), w.until)
	defer cancel()
	w.cancel = cancel
	if w.at < 0 {
		cancel()
	}
	p := hio.Guard(func() {
		err := v.Visit(ctx, n)
		if err != nil {
			res = -1
			for i, e := range w.errs {
				if e == err { //nolint:errorlint // the very same error
					res = i + 1
				}
			}
		}
	})
	if p != "" {
		res = -2
	}
	log, seen := w.log, w.seen
	if log == nil {
		log, seen = []int{}, []bool{}
	}
	return object{"log": log, "seen": seen, "res": res}
}

type visitCase struct {
	S     []int             `json:"s"`
	H     map[string]string `json:"h"`
	Fails []int             `json:"fails"`
	At    int               `json:"at"`
	Root  int               `json:"root"`
	Init  int               `json:"init"`
	Runs  int               `json:"runs"`
	Odd   []int             `json:"odd"`
	Type  string            `json:"type"`

	// gated walks
	Order []int   `json:"order"`
	Ss    [][]int `json:"ss"`
}

func newWalk(id int, all []*mq.Node, fails []int) *walk {
	w := &walk{id: id, index: map[*mq.Node]int{}, fails: map[int]bool{}}
	for i, n := range all {
		w.index[n] = i + 1
	}
	for _, f := range fails {
		w.fails[f] = true
	}
	return w
}

func full(h map[string]string) map[string]string {
	out := map[string]string{}
	for _, k := range []string{"cmp", "log", "btw", "fn", "prd", "par", "not", "id", "ref", "op", "value"} {
		out[k] = "none"
	}
	for k, v := range h {
		out[k] = v
	}
	return out
}

func visit(c visitCase) object {
	ev := object{"k": "visit", "s": c.S, "h": full(c.H), "fails": c.Fails, "at": c.At, "root": c.Root, "odd": []int{}, "r": "ok", "ctx": true, "runs": []object{}}
	n, err := mq.Parse(astjson.String(c.S))
	if err != nil {
		ev["r"] = "err"
		return ev
	}
	all := number(n, nil)
	odd := []int{}
	for _, i := range c.Odd {
		if i <= len(all) {
			odd = append(odd, i)
			all[i-1].Type = mq.NodeType(c.Type)
		}
	}
	lost := false
	v := visitor(c.H, &lost)
	for i := 0; i < c.Init; i++ {
		v.Init()
	}
	runs := []object{}
	for i := 0; i < c.Runs; i++ {
		w := newWalk(1, all, c.Fails)
		w.at = c.At
		runs = append(runs, run(v, w, all[(c.Root-1)%len(all)]))
	}
	ev["root"], ev["runs"], ev["ctx"], ev["odd"] = (c.Root-1)%len(all)+1, runs, !lost, odd
	return ev
}

// gated walks several trees with one visitor, calls in the given order.
func gated(c visitCase) object {
	ev := object{"k": "gated", "ss": c.Ss, "h": full(c.H), "fails": c.Fails, "at": c.At, "r": "ok", "ctx": true, "runs": []object{}}
	lost := false
	v := visitor(c.H, &lost)
	v.Init()
	g := newGate(c.Order)
	trees := map[string]*mq.Node{}
	runs := make([]object, len(c.Ss))
	var wg sync.WaitGroup
	for i, s := range c.Ss {
		text := astjson.String(s)
		n := trees[text]
		if n == nil {
			var err error
			if n, err = mq.Parse(text); err != nil {
				ev["r"] = "err"
				return ev
			}
			trees[text] = n
		}
		w := newWalk(i+1, number(n, nil), c.Fails)
		w.gate = g
		if i == 0 {
			// the other walks have contexts of their own
			w.at = c.At
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer g.leave(w.id)
			runs[i] = run(v, w, n)
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		ev["r"] = "stuck"
		return ev
	}
	ev["runs"], ev["ctx"] = runs, !lost
	return ev
}

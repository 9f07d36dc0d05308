// Command mqcalls drives the visitor, and all entry points from several goroutines.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"

	"entgo.io/ent/dialect"
	"entgo.io/ent/dialect/sql"
	"entgo.io/ent/dialect/sql/sqlgraph"
	"entgo.io/ent/entql"
	"entgo.io/ent/schema/field"
	"github.com/wenerme/go-miniquery/entmq"
	"github.com/wenerme/go-miniquery/gormq"
	mq "github.com/wenerme/go-miniquery/miniquery"
	"github.com/wenerme/go-miniquery/verifharness/internal/astjson"
	"github.com/wenerme/go-miniquery/verifharness/internal/hio"
	"github.com/wenerme/go-miniquery/verifharness/internal/model"
	"gorm.io/gorm"
)

type object = map[string]any

// callCase is a number of goroutines that make the same calls in different orders.
type callCase struct {
	Texts  [][]int   `json:"texts"`
	Lists  [][][]int `json:"lists"`
	Ops    []string  `json:"ops"`
	G      int       `json:"g"`
	Rounds int       `json:"rounds"`
	Seed   int64     `json:"seed"`
	Procs  int       `json:"procs"`
}

var (
	db    *gorm.DB
	users = &sqlgraph.Node{
		NodeSpec: sqlgraph.NodeSpec{Table: "users", Columns: []string{"id", "i", "s"}, ID: &sqlgraph.FieldSpec{Type: field.TypeInt, Column: "id"}},
		Type:     "User",
	}
	graph = &sqlgraph.Schema{Nodes: []*sqlgraph.Node{users}}
)

func setup() (err error) {
	graph.MustAddE("boss", &sqlgraph.EdgeSpec{Rel: sqlgraph.M2O, Inverse: true, Table: "users", Columns: []string{"boss_id"}}, "User", "User")
	graph.MustAddE("friends", &sqlgraph.EdgeSpec{Rel: sqlgraph.M2M, Table: "friends", Columns: []string{"a_id", "b_id"}}, "User", "User")
	if db, err = model.Open(); err != nil {
		return err
	}
	return nil
}

type recorder struct{ got []string }

func (r *recorder) Where(p entql.P) { r.got = append(r.got, p.String()) }

// shared is what all goroutines of a case use.
type shared struct {
	texts   []string
	trees   []*mq.Node
	snaps   []string
	lists   [][]string
	visitor *mq.Visitor
	lost    bool
	scopes  []func(*gorm.DB) *gorm.DB
}

func snap(n *mq.Node) string {
	b, err := json.Marshal(n)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

func encode(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		b, _ = json.Marshal(object{"r": "panic", "m": err.Error()})
	}
	return string(b)
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// other is an answer the specification does not look into.
func other(parts ...any) object {
	return object{"r": "ok", "x": encode(parts)}
}

// call makes one call and returns its answer.
func call(sh *shared, op string, i int) (out object) {
	if p := hio.Guard(func() { out = callOf(sh, op, i) }); p != "" {
		return object{"r": "panic", "m": p}
	}
	return out
}

// spoil changes a tree that belongs to the caller of Parse.
func spoil(n *mq.Node) {
	for _, c := range children(n) {
		spoil(c)
	}
	*n = mq.Node{Type: "spoiled", ValueType: "spoiled", Int: -1, Str: "spoiled", Operation: "spoiled", Name: "spoiled"}
}

// spoilQL changes a predicate that belongs to the caller of BuildEntQL.
func spoilQL(e entql.Expr) {
	switch e := e.(type) {
	case *entql.BinaryExpr:
		spoilQL(e.X)
		spoilQL(e.Y)
		*e = entql.BinaryExpr{}
	case *entql.NaryExpr:
		for i := range e.Xs {
			spoilQL(e.Xs[i])
			e.Xs[i] = nil
		}
		*e = entql.NaryExpr{}
	case *entql.UnaryExpr:
		spoilQL(e.X)
		*e = entql.UnaryExpr{}
	case *entql.Value:
		*e = entql.Value{}
	case *entql.Field:
		*e = entql.Field{}
	}
}

func callOf(sh *shared, op string, i int) object {
	switch op {
	case "parse":
		n, err := mq.Parse(sh.texts[i])
		if err != nil {
			return object{"r": "err", "m": err.Error()}
		}
		tree := astjson.Tree(n)
		spoil(n)
		return object{"r": "ok", "ast": tree}
	case "print":
		if sh.trees[i] == nil {
			return object{"r": "none"}
		}
		return object{"r": "ok", "b": astjson.Text(mq.Build(sh.trees[i]))}
	case "string":
		if sh.trees[i] == nil {
			return object{"r": "none"}
		}
		value := sh.trees[i].Value()
		out := other(sh.trees[i].String(), sh.trees[i].IsExpression(), sh.trees[i].IsValue(), value)
		if list, ok := value.([]any); ok {
			for i := range list {
				list[i] = "spoiled"
			}
		}
		return out
	case "visit":
		if sh.trees[i] == nil {
			return object{"r": "none"}
		}
		return object{"r": "ok", "run": run(sh.visitor, newWalk(1, number(sh.trees[i], nil), nil), sh.trees[i])}
	case "join":
		return object{"r": "ok", "j": astjson.Text(mq.Join(sh.lists[i]))}
	case "gorm":
		st := db.Session(&gorm.Session{DryRun: true}).Model(&model.Item{}).Scopes(sh.scopes[i]).Find(&[]model.Item{}).Statement
		return other(st.SQL.String(), st.Vars, errText(st.Error))
	case "wire":
		st := gormq.WireMiniQuery(db.Session(&gorm.Session{DryRun: true}).Model(&model.Item{}), sh.texts[i]).Find(&[]model.Item{}).Statement
		return other(st.SQL.String(), st.Vars, errText(st.Error))
	case "person":
		st := gormq.MiniQuery{Query: sh.lists[i]}.Scope(db.Session(&gorm.Session{DryRun: true}).Model(&model.Person{})).Find(&[]model.Person{}).Statement
		return other(st.SQL.String(), st.Vars, errText(st.Error))
	case "sqlite", "mysql", "postgres":
		d := map[string]string{"sqlite": dialect.SQLite, "mysql": dialect.MySQL, "postgres": dialect.Postgres}[op]
		mb := &entmq.MiniQLToEntSQLBuilder{QueryString: sh.texts[i], Node: users, Graph: graph}
		q, args := sql.Dialect(d).Select("id").From(sql.Table("users")).Where(sql.P(func(b *sql.Builder) { b.Join(mb) })).Query()
		out := other(q, args, errText(mb.Err()))
		for i := range args {
			args[i] = "spoiled"
		}
		return out
	case "entql":
		p, err := entmq.BuildEntQL(sh.texts[i])
		s := ""
		if p != nil {
			s = p.String()
			spoilQL(p)
		}
		return other(s, errText(err))
	case "apply":
		r := &recorder{}
		err := entmq.ApplyEntQL(r, sh.lists[i])
		return other(r.got, errText(err))
	}
	panic("unknown call " + op)
}

func onList(op string) bool { return op == "join" || op == "person" || op == "apply" }

func calls(c callCase) object {
	sh := &shared{}
	all := map[string]string{}
	for k := range full(nil) {
		all[k] = "go"
	}
	sh.visitor = visitor(all, &sh.lost)
	sh.visitor.Init()
	for _, t := range c.Texts {
		s := astjson.String(t)
		var n *mq.Node
		hio.Guard(func() { n, _ = mq.Parse(s) })
		sh.texts = append(sh.texts, s)
		sh.trees = append(sh.trees, n)
		sh.snaps = append(sh.snaps, snap(n))
		sh.scopes = append(sh.scopes, gormq.ApplyMiniQuery(s))
	}
	for _, l := range c.Lists {
		qs := make([]string, 0, len(l)+3)
		for _, t := range l {
			qs = append(qs, astjson.String(t))
		}
		sh.lists = append(sh.lists, qs)
	}
	type key struct {
		op string
		i  int
	}
	plan := []key{}
	for _, op := range c.Ops {
		n := len(sh.texts)
		if onList(op) {
			n = len(sh.lists)
		}
		for i := 0; i < n; i++ {
			plan = append(plan, key{op, i})
		}
	}
	if c.Procs > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
	}
	outs := make([]map[key]map[string]bool, c.G)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < c.G; g++ {
		g := g
		outs[g] = map[key]map[string]bool{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(c.Seed*100 + int64(g)))
			<-start
			for round := 0; round < c.Rounds; round++ {
				for _, k := range r.Perm(len(plan)) {
					if r.Intn(4) == 0 {
						runtime.Gosched()
					}
					p := plan[k]
					if outs[g][p] == nil {
						outs[g][p] = map[string]bool{}
					}
					outs[g][p][encode(call(sh, p.op, p.i))] = true
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	res := []object{}
	for _, p := range plan {
		set := map[string]bool{}
		for g := range outs {
			for o := range outs[g][p] {
				set[o] = true
			}
		}
		list := []string{}
		for o := range set {
			list = append(list, o)
		}
		sort.Strings(list)
		raw := []json.RawMessage{}
		for _, o := range list {
			raw = append(raw, json.RawMessage(o))
		}
		ev := object{"op": p.op, "outs": raw, "same": true}
		if onList(p.op) {
			ev["ss"] = c.Lists[p.i]
			qs := sh.lists[p.i]
			full := qs[:cap(qs)]
			for i, s := range full {
				want := ""
				if i < len(c.Lists[p.i]) {
					want = astjson.String(c.Lists[p.i][i])
				}
				if s != want {
					ev["same"] = false
				}
			}
		} else {
			ev["s"] = c.Texts[p.i]
			ev["same"] = snap(sh.trees[p.i]) == sh.snaps[p.i]
		}
		res = append(res, ev)
	}
	return object{"k": "calls", "calls": res, "lost": sh.lost}
}

func main() {
	mode, in, out := os.Args[1], os.Args[2], os.Args[3]
	err := setup()
	if err == nil {
		switch {
		case mode == "visit":
			err = hio.Each(in, out, func(i int, c visitCase) object { return visit(c) })
		case mode == "gated":
			err = hio.Each(in, out, func(i int, c visitCase) object { return gated(c) })
		case strings.HasPrefix(mode, "calls"):
			err = hio.Each(in, out, func(i int, c callCase) object { return calls(c) })
		default:
			err = fmt.Errorf("unknown mode %q", mode)
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

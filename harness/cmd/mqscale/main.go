// Command mqscale drives everything with members of families of queries, see spec/MQScale.tla.
package main

import (
	"context"
	"database/sql/driver"
	"fmt"
	"os"
	"strings"
	"unicode/utf8"

	"entgo.io/ent/dialect/sql/sqlgraph"
	"entgo.io/ent/entql"
	"entgo.io/ent/schema/field"
	"github.com/wenerme/go-miniquery/entmq"
	"github.com/wenerme/go-miniquery/gormq"
	mq "github.com/wenerme/go-miniquery/miniquery"
	"github.com/wenerme/go-miniquery/verifharness/internal/astjson"
	"github.com/wenerme/go-miniquery/verifharness/internal/hio"
	"github.com/wenerme/go-miniquery/verifharness/internal/model"
	"gorm.io/gorm"
)

type object = map[string]any

type kase struct {
	F      string `json:"f"`
	N      int    `json:"n"`
	Op     string `json:"op"`
	D      string `json:"d"`
	Copies int    `json:"copies"`

	Pre, A, Mid, B, Post []int
}

func (c kase) text() string {
	s := astjson.String
	return s(c.Pre) + strings.Repeat(s(c.A), c.N) + s(c.Mid) + strings.Repeat(s(c.B), c.N) + s(c.Post)
}

// users is the part of the graph of spec/MQEdges.tla the families need.
var users = func() *sqlgraph.Node {
	node := func(typ, table string) *sqlgraph.Node {
		n := &sqlgraph.Node{Type: typ}
		n.Table = table
		n.ID = &sqlgraph.FieldSpec{Type: field.TypeInt, Column: "id"}
		return n
	}
	g := &sqlgraph.Schema{Nodes: []*sqlgraph.Node{node("User", "users"), node("Dept", "depts")}}
	g.MustAddE("dept", &sqlgraph.EdgeSpec{Rel: sqlgraph.M2O, Table: "users", Columns: []string{"dept_id"}}, "User", "Dept")
	g.MustAddE("boss", &sqlgraph.EdgeSpec{Rel: sqlgraph.M2O, Inverse: true, Table: "users", Columns: []string{"boss_id"}}, "User", "User")
	g.MustAddE("friends", &sqlgraph.EdgeSpec{Rel: sqlgraph.M2M, Table: "friends", Columns: []string{"a_id", "b_id"}}, "User", "User")
	return g.Nodes[0]
}()

// measure counts the nodes of a tree, operators included, its height without operators
// and the longest string, name or path.
func measure(n *mq.Node) (size, height, longest int) {
	if n == nil {
		return
	}
	size, longest = 1, 1
	switch n.Type {
	case mq.ValueNodeType:
		longest = max(longest, utf8.RuneCountInString(n.Str))
	case mq.IdentifierNodeType, mq.FunctionExpressionType:
		longest = len(n.Name)
	case mq.ReferenceNodeType:
		longest = len(n.Names)
	}
	if n.Op != nil {
		size++
	}
	sub := func(c *mq.Node) {
		a, b, d := measure(c)
		size += a
		height = max(height, b)
		longest = max(longest, d)
	}
	for _, c := range append([]*mq.Node{n.Left, n.Right, n.Expression}, n.Params...) {
		sub(c)
	}
	for _, c := range n.Array {
		sub(c)
	}
	height++
	return
}

func leaves(n *mq.Node) (k int, err error) {
	count := func(context.Context, *mq.Node) error {
		k++
		return nil
	}
	v := &mq.Visitor{ValueNode: count, IdentifierNode: count, ReferenceNode: count, OperationNode: count}
	v.Init()
	err = v.Visit(context.Background(), n)
	return
}

// arguments counts arguments and the length of the longest text among them.
func arguments(ev object, vs []any) {
	n, text := 0, 0
	var add func(v any)
	add = func(v any) {
		switch v := v.(type) {
		case nil:
			return
		case []any:
			for _, x := range v {
				add(x)
			}
			return
		case string:
			text = max(text, utf8.RuneCountInString(v))
		case driver.Valuer:
			x, err := v.Value()
			if err != nil {
				panic(err)
			}
			add(x)
			return
		}
		n++
	}
	for _, v := range vs {
		add(v)
	}
	ev["args"], ev["text"] = n, text
}

// values collects the values of a predicate; what is part of it twice counts once.
func values(e any, out []any, seen map[any]bool) []any {
	if _, leaf := e.(*entql.Value); !leaf {
		if seen[e] {
			return out
		}
		seen[e] = true
	}
	switch e := e.(type) {
	case *entql.BinaryExpr:
		return values(e.Y, values(e.X, out, seen), seen)
	case *entql.NaryExpr:
		for _, x := range e.Xs {
			out = values(x, out, seen)
		}
	case *entql.UnaryExpr:
		return values(e.X, out, seen)
	case *entql.CallExpr:
		for _, x := range e.Args {
			out = values(x, out, seen)
		}
	case *entql.Value:
		return append(out, e.V)
	}
	return out
}

func run(db *gorm.DB, c kase) object {
	ev := object{"k": "size", "f": c.F, "n": c.N, "op": c.Op, "d": c.D, "copies": c.Copies, "r": "ok"}
	fail := func(err error) bool {
		if err != nil {
			ev["r"] = "err"
		}
		return err != nil
	}
	q := c.text()
	hio.Limit.Store(1<<30 + 1000*uint64(len(q)))
	p := hio.Guard(func() {
		switch c.Op {
		case "print":
			n, err := mq.Parse(q)
			if fail(err) {
				return
			}
			n, err = mq.Parse(mq.Build(n))
			if err != nil {
				ev["r"] = "printed text is not accepted"
				return
			}
			ev["size"], ev["height"], ev["longest"] = measure(n)
		case "visit":
			n, err := mq.Parse(q)
			if fail(err) {
				return
			}
			ev["leaves"], err = leaves(n)
			fail(err)
		case "join":
			var list []string
			for i := 0; i < c.Copies; i++ {
				list = append(list, q, "")
			}
			n, err := mq.Parse(mq.Join(list))
			if fail(err) {
				return
			}
			ev["leaves"], err = leaves(n)
			fail(err)
		case "gorm":
			var items []model.Item
			tx := db.Session(&gorm.Session{DryRun: true}).Model(&model.Item{}).Scopes(gormq.ApplyMiniQuery(q)).Find(&items)
			if fail(tx.Error) {
				return
			}
			ev["places"] = strings.Count(tx.Statement.SQL.String(), "?")
			arguments(ev, tx.Statement.Vars)
		case "sql":
			mb := &entmq.MiniQLToEntSQLBuilder{QueryString: q, Node: users}
			mb.SetDialect(c.D)
			w, args := mb.Query()
			if fail(mb.Err()) {
				return
			}
			mark := "?"
			if c.D == "postgres" {
				mark = "$"
			}
			ev["places"] = strings.Count(w, mark)
			arguments(ev, args)
		case "ql":
			p, err := entmq.BuildEntQL(q)
			if fail(err) {
				return
			}
			arguments(ev, values(p, nil, map[any]bool{}))
		default:
			panic("unknown operation " + c.Op)
		}
	})
	if p != "" {
		ev["r"], ev["m"] = "panic", p
	}
	return ev
}

func main() {
	db, err := model.Open()
	if err == nil {
		err = hio.Each(os.Args[2], os.Args[3], func(i int, c kase) object { return run(db, c) })
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

package main

import (
	dbsql "database/sql"
	"fmt"

	"entgo.io/ent/dialect"
	"entgo.io/ent/dialect/sql"
	"entgo.io/ent/entql"
	"github.com/wenerme/go-miniquery/entmq"
	"github.com/wenerme/go-miniquery/verifharness/internal/astjson"
	"github.com/wenerme/go-miniquery/verifharness/internal/hio"
)

// expr projects an entql expression, see spec/MQQl.tla.
func expr(e entql.Expr) object {
	list := func(es []entql.Expr) []any {
		out := []any{}
		for _, x := range es {
			out = append(out, expr(x))
		}
		return out
	}
	switch e := e.(type) {
	case *entql.BinaryExpr:
		if e != nil {
			return object{"t": "two", "o": e.Op.String(), "l": expr(e.X), "r": expr(e.Y)}
		}
	case *entql.NaryExpr:
		if e != nil {
			return object{"t": "many", "o": e.Op.String(), "a": list(e.Xs)}
		}
	case *entql.UnaryExpr:
		if e != nil {
			return object{"t": "one", "o": e.Op.String(), "e": expr(e.X)}
		}
	case *entql.CallExpr:
		if e != nil {
			return object{"t": "call", "o": string(e.Func), "a": list(e.Args)}
		}
	case *entql.Field:
		if e != nil {
			return object{"t": "field", "n": astjson.Text(e.Name)}
		}
	case *entql.Edge:
		if e != nil {
			return object{"t": "edge", "n": astjson.Text(e.Name)}
		}
	case *entql.Value:
		if e != nil {
			return object{"t": "value", "v": astjson.Value(e.V)}
		}
		return object{"t": "value", "v": object{"t": "nil"}}
	}
	return object{"t": "odd", "g": fmt.Sprintf("%T", e)}
}

func predicateOf(p entql.P) object {
	if p == nil {
		return object{"t": "none"}
	}
	return expr(p)
}

// ql builds a predicate in one of the ways the adapter offers.
func ql(c kase) object {
	ev := object{"s": c.S, "how": c.How, "r": "ok", "p": object{"t": "none"}}
	p := hio.Guard(func() {
		var p entql.P
		var err error
		if c.How == "builder" || c.How == "again" {
			mb := entmq.MiniQLToEntQLBuilder{Query: astjson.String(c.S)}
			if c.How == "again" {
				_, _ = mb.Build()
			}
			p, err = mb.Build()
		} else {
			p, err = entmq.BuildEntQL(astjson.String(c.S))
		}
		if err != nil {
			fail(ev, "err", err)
		}
		ev["p"] = predicateOf(p)
	})
	if p != "" {
		fail(ev, "panic", p)
	}
	return ev
}

// qlrows lets ent evaluate a predicate on the items.
func qlrows(db *dbsql.DB, c kase) object {
	ev := object{"s": c.S, "tb": c.Tb, "r": "ok", "ids": [][]int{}}
	p := hio.Guard(func() {
		p, err := entmq.BuildEntQL(astjson.String(c.S))
		if err != nil {
			fail(ev, "err", err)
			return
		}
		s := sql.Dialect(dialect.SQLite).Select("id").From(sql.Table("items"))
		if err := schema.EvalP("Item", p, s); err != nil {
			fail(ev, "eval", err)
			return
		}
		q, args := s.Query()
		ids, err := query(db, q, args)
		if err != nil {
			fail(ev, "db", err)
			return
		}
		ev["ids"] = ids
	})
	if p != "" {
		fail(ev, "panic", p)
	}
	return ev
}

type target struct {
	got []any
}

func (t *target) Where(p entql.P) {
	t.got = append(t.got, predicateOf(p))
}

// qls applies a list of queries.
func qls(c kase) object {
	ev := object{"qs": c.Qs, "r": "ok"}
	t := &target{got: []any{}}
	p := hio.Guard(func() {
		var list []string
		for _, q := range c.Qs {
			list = append(list, astjson.String(q))
		}
		if err := entmq.ApplyEntQL(t, list); err != nil {
			fail(ev, "err", err)
		}
	})
	if p != "" {
		fail(ev, "panic", p)
	}
	ev["ps"] = t.got
	return ev
}

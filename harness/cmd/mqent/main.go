// Command mqent drives the ent adapters.
package main

import (
	dbsql "database/sql"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"

	"entgo.io/ent/dialect"
	"entgo.io/ent/dialect/sql"
	"github.com/wenerme/go-miniquery/entmq"
	"github.com/wenerme/go-miniquery/verifharness/internal/astjson"
	"github.com/wenerme/go-miniquery/verifharness/internal/hio"
	"github.com/wenerme/go-miniquery/verifharness/internal/model"
)

type object = map[string]any

type call struct {
	How string `json:"how"`
	D   string `json:"d"`
	Pre int    `json:"pre"`
}

type kase struct {
	S    []int  `json:"s"`
	Node string `json:"node"`
	Off  bool   `json:"off"`
	Tb   int    `json:"tb"`
	Sch  bool   `json:"sch"`
	call

	Calls []call  `json:"calls"`
	Qs    [][]int `json:"qs"`
}

var dialects = map[string]string{"sqlite": dialect.SQLite, "mysql": dialect.MySQL, "postgres": dialect.Postgres}

func builder(c kase) *entmq.MiniQLToEntSQLBuilder {
	g := schema
	if c.Sch {
		g = placed
	}
	return &entmq.MiniQLToEntSQLBuilder{
		QueryString: astjson.String(c.S), Node: nodeOf(g, c.Node), Graph: g, DisableTypeCasting: c.Off,
	}
}

// value is what a database driver gets for an argument.
func value(a any) any {
	v, err := driver.DefaultParameterConverter.ConvertValue(a)
	if err != nil {
		return object{"t": "bad", "g": err.Error()}
	}
	return astjson.Value(v)
}

func values(args []any) []any {
	out := []any{}
	for _, a := range args {
		out = append(out, value(a))
	}
	return out
}

// predicate makes the builder a predicate of a statement.
func predicate(mb *entmq.MiniQLToEntSQLBuilder, how string) *sql.Predicate {
	return sql.P(func(b *sql.Builder) {
		if how == "builder" {
			mb.SQLBuilder = b
			mb.Query()
			return
		}
		b.Join(mb)
	})
}

// around puts a predicate next to others, see Around in spec/MQEnt.tla.
func around(how string, pre int, one, two string, p func() *sql.Predicate) *sql.Predicate {
	o1, o2 := sql.EQ(one, 1), sql.EQ(two, 2)
	switch how {
	case "and":
		return sql.And(p(), o1)
	case "andfirst":
		return sql.And(o1, p())
	case "or":
		return sql.Or(p(), o1)
	case "orfirst":
		return sql.Or(o1, p())
	case "not":
		return sql.Not(p())
	case "notor":
		return sql.Not(sql.Or(o1, p()))
	case "notand":
		return sql.Not(sql.And(p(), o1))
	case "mixed":
		return sql.Or(sql.And(o1, p()), o2)
	case "pair":
		return sql.And(p(), sql.Not(p()))
	case "join", "builder":
		ps := []*sql.Predicate{}
		for i := 0; i < pre; i++ {
			ps = append(ps, sql.EQ(one, 7))
		}
		ps = append(ps, p())
		if len(ps) == 1 {
			return ps[0]
		}
		return sql.And(ps...)
	}
	return p()
}

func fail(ev object, r string, m any) {
	ev["r"], ev["m2"] = r, fmt.Sprint(m)
}

// text builds a condition alone or in a statement.
func text(c kase) object {
	ev := object{"s": c.S, "node": c.Node, "off": c.Off, "how": c.How, "d": c.D, "pre": c.Pre, "base": 0, "r": "ok", "w": []int{}, "vs": []any{}}
	p := hio.Guard(func() {
		mb := builder(c)
		d := dialects[c.D]
		if c.How == "alone" || c.How == "again" {
			mb.SetDialect(d)
			mb.SetTotal(c.Pre)
			ev["base"] = c.Pre
			w, args := mb.Query()
			if c.How == "again" {
				w, args = mb.Query()
			}
			if err := mb.Err(); err != nil {
				fail(ev, "err", err)
			}
			ev["w"], ev["vs"] = astjson.Text(w), values(args)
			return
		}
		s, before, word := sql.Querier(nil), 0, " WHERE "
		switch p := func() *sql.Predicate { return predicate(mb, c.How) }; c.How {
		case "update":
			s, before = sql.Dialect(d).Update("t").Set("k", 5).Where(p()), 1
		case "delete":
			s = sql.Dialect(d).Delete("t").Where(p())
		case "having":
			s, before, word = sql.Dialect(d).Select("id").From(sql.Table("t")).Where(sql.EQ("i", 7)).GroupBy("id").Having(p()), 1, " HAVING "
		default:
			s = sql.Dialect(d).Select("id").From(sql.Table("t")).Where(around(c.How, c.Pre, "i", "j", p))
		}
		q, args := s.Query()
		if err := mb.Err(); err != nil {
			fail(ev, "err", err)
			return
		}
		_, w, _ := strings.Cut(q, word)
		ev["base"] = before
		if len(args) < before {
			fail(ev, "odd", q)
			return
		}
		ev["w"], ev["vs"] = astjson.Text(w), values(args[before:])
	})
	if p != "" {
		fail(ev, "panic", p)
	}
	return ev
}

// calls asks one builder several times.
func calls(c kase) object {
	mb := builder(c)
	outs := []object{}
	for _, k := range c.Calls {
		ev := object{"how": k.How, "d": k.D, "pre": k.Pre, "base": k.Pre, "r": "ok", "st": false, "w": []int{}, "vs": []any{}}
		p := hio.Guard(func() {
			d := dialects[k.D]
			if k.How == "alone" {
				mb.SetDialect(d)
				mb.SetTotal(k.Pre)
				w, args := mb.Query()
				if err := mb.Err(); err != nil {
					fail(ev, "err", err)
				}
				ev["w"], ev["vs"] = astjson.Text(w), values(args)
				return
			}
			build := func(p *sql.Predicate) *sql.Selector {
				s := sql.Dialect(d).Select("id").From(sql.Table("t"))
				for i := 0; i < k.Pre; i++ {
					s.Where(sql.EQ("i", 7))
				}
				return s.Where(p)
			}
			// what precedes the condition
			prefix, _ := build(sql.ExprP("@")).Query()
			prefix = strings.TrimSuffix(prefix, "@")
			s := build(predicate(mb, k.How))
			if k.How == "clone" {
				// a statement is built from copies, more than once
				_, _ = s.Clone().Query()
				s = s.Clone()
			}
			q, args := s.Query()
			ev["st"] = s.Err() != nil
			if err := mb.Err(); err != nil {
				fail(ev, "err", err)
			}
			w, ok := strings.CutPrefix(q, prefix)
			if !ok || len(args) < k.Pre {
				if strings.HasPrefix(prefix, q) {
					w, ok = "", true
				}
			}
			if !ok || len(args) < k.Pre {
				fail(ev, "odd", q)
				return
			}
			ev["w"], ev["vs"] = astjson.Text(w), values(args[k.Pre:])
		})
		if p != "" {
			fail(ev, "panic", p)
		}
		outs = append(outs, ev)
	}
	return object{"s": c.S, "node": c.Node, "off": c.Off, "outs": outs}
}

// data is a content of the database: per table rows of cells, in column order.
type data map[string]struct {
	Columns []string       `json:"columns"`
	Rows    [][]model.Cell `json:"rows"`
}

func load(path string) (dbs []*dbsql.DB, err error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	for _, line := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		var d data
		if err := json.Unmarshal([]byte(line), &d); err != nil {
			return nil, err
		}
		db, err := model.Open()
		if err != nil {
			return nil, err
		}
		if err := db.AutoMigrate(&model.Item{}); err != nil {
			return nil, err
		}
		for _, q := range ddl {
			if err := db.Exec(q).Error; err != nil {
				return nil, err
			}
		}
		for m, t := range d {
			if err := model.Fill(db, m, t.Columns, t.Rows); err != nil {
				return nil, fmt.Errorf("%s: %w", m, err)
			}
		}
		s, err := db.DB()
		if err != nil {
			return nil, err
		}
		dbs = append(dbs, s)
	}
	return dbs, nil
}

// place moves the tables to their schemas and leaves empty ones behind, each in a database of its own.
func place(dbs []*dbsql.DB) error {
	for _, db := range dbs {
		qs := []string{"ATTACH ':memory:' AS `arch`", "ATTACH ':memory:' AS `hub`"}
		for _, q := range ddl {
			t := strings.Split(q, "`")[1]
			for _, s := range []string{"arch", "hub"} {
				qs = append(qs, strings.Replace(q, "CREATE TABLE ", "CREATE TABLE `"+s+"`.", 1))
				if places[t] == s {
					qs = append(qs, "INSERT INTO `"+s+"`.`"+t+"` SELECT * FROM `main`.`"+t+"`", "DELETE FROM `main`.`"+t+"`")
				}
			}
		}
		for _, q := range qs {
			if _, err := db.Exec(q); err != nil {
				return fmt.Errorf("%s: %w", q, err)
			}
		}
	}
	return nil
}

// query returns the ids a statement selects as digits.
func query(db *dbsql.DB, q string, args []any) ([][]int, error) {
	tx, err := db.Begin()
	if err != nil {
		return nil, err
	}
	// what the statement changes is not kept
	defer func() { _ = tx.Rollback() }()
	rs, err := tx.Query(q, args...)
	if err != nil {
		return nil, err
	}
	defer rs.Close()
	ids := [][]int{}
	for rs.Next() {
		var id int
		if err := rs.Scan(&id); err != nil {
			return nil, err
		}
		ids = append(ids, astjson.Text(strconv.Itoa(id)))
	}
	return ids, rs.Err()
}

// rows runs a statement with the condition.
func rows(db *dbsql.DB, c kase, table, one, two string) object {
	ev := object{"s": c.S, "node": c.Node, "off": c.Off, "how": c.How, "pre": c.Pre, "tb": c.Tb, "sch": c.Sch, "r": "ok", "ids": [][]int{}}
	p := hio.Guard(func() {
		mb := builder(c)
		d, schema := dialect.SQLite, ""
		if c.Sch {
			// schemas are not written for SQLite, though it reads them
			d, schema = dialect.MySQL, places[table]
		}
		s := sql.Dialect(d).Select("id").From(sql.Table(table).Schema(schema))
		pre := 0
		if c.How == "join" {
			c.How = "alone"
		}
		w := around(c.How, pre, one, two, func() *sql.Predicate { return predicate(mb, c.How) })
		var q string
		var args []any
		switch c.How {
		case "update":
			set := one
			if set == "id" {
				set = "name"
			}
			q, args = sql.Dialect(d).Update(table).Schema(schema).Set(set, sql.Expr("? + ?", 3, 4)).Where(w).Query()
			q += " RETURNING `id`"
		case "delete":
			q, args = sql.Dialect(d).Delete(table).Schema(schema).Where(w).Query()
			q += " RETURNING `id`"
		default:
			s.Where(w)
			q, args = s.Query()
			if c.How == "clone" {
				q, args = s.Clone().Query()
			}
		}
		if err := mb.Err(); err != nil {
			fail(ev, "err", err)
			return
		}
		ids, err := query(db, q, args)
		if err != nil {
			fail(ev, "db", err)
			return
		}
		ev["ids"] = ids
	})
	if p != "" {
		fail(ev, "panic", p)
	}
	return ev
}

func run() error {
	mode, in, out := os.Args[1], os.Args[2], os.Args[3]
	var dbs, placedDBs []*dbsql.DB
	if len(os.Args) > 4 {
		var err error
		if dbs, err = load(os.Args[4]); err != nil {
			return err
		}
		if mode == "edge" {
			if placedDBs, err = load(os.Args[4]); err != nil {
				return err
			}
			if err = place(placedDBs); err != nil {
				return err
			}
		}
	}
	return hio.Each(in, out, func(i int, c kase) (ev object) {
		switch mode {
		case "text":
			ev = text(c)
		case "calls":
			ev = calls(c)
		case "rows":
			ev = rows(dbs[c.Tb-1], c, "items", "i", "j")
		case "edge":
			db := dbs[c.Tb-1]
			if c.Sch {
				db = placedDBs[c.Tb-1]
			}
			ev = rows(db, c, c.Node, "id", "id")
		case "ql":
			ev = ql(c)
		case "qlrows":
			ev = qlrows(dbs[c.Tb-1], c)
		case "qls":
			ev = qls(c)
		default:
			fmt.Fprintln(os.Stderr, "unknown mode", mode)
			os.Exit(3)
		}
		ev["k"] = mode
		return ev
	})
}

func main() {
	if err := run(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

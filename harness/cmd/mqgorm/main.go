// Command mqgorm drives the gorm adapter.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"

	"github.com/wenerme/go-miniquery/gormq"
	"github.com/wenerme/go-miniquery/verifharness/internal/astjson"
	"github.com/wenerme/go-miniquery/verifharness/internal/hio"
	"github.com/wenerme/go-miniquery/verifharness/internal/model"
	"github.com/wenerme/go-miniquery/verifharness/internal/model/other"
	"gorm.io/gorm"
)

type object = map[string]any

type kase struct {
	S   []int  `json:"s"`
	M   string `json:"m"`
	How string `json:"how"`
	Tb  int    `json:"tb"`
	D   string `json:"d"`

	Steps []step `json:"steps"`
}

// data is a content of the database: per model rows of cells, in column order.
type data map[string]struct {
	Columns []string       `json:"columns"`
	Rows    [][]model.Cell `json:"rows"`
}

var tables = map[string]string{"items": "items", "persons": "people", "others": "people", "depts": "depts", "badges": "badges", "awards": "awards", "seals": "seals", "notes": "notes"}

func open(d data) (*gorm.DB, error) {
	db, err := model.Open()
	if err != nil {
		return nil, err
	}
	if err := db.AutoMigrate(&model.Item{}, &model.Person{}, &model.Dept{}, &model.Badge{}, &model.Award{}, &model.Seal{}, &model.Note{}); err != nil {
		return nil, err
	}
	for m, t := range d {
		if m == "others" { // the same rows as persons
			continue
		}
		if err := model.Fill(db, tables[m], t.Columns, t.Rows); err != nil {
			return nil, fmt.Errorf("%s: %w", m, err)
		}
	}
	return db, nil
}

func load(path string) (dbs []*gorm.DB, err error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	for _, line := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		var d data
		if err := json.Unmarshal([]byte(line), &d); err != nil {
			return nil, err
		}
		db, err := open(d)
		if err != nil {
			return nil, err
		}
		dbs = append(dbs, db)
	}
	return dbs, nil
}

// apply applies a query in one of the ways the adapter offers.
func apply(db *gorm.DB, m, how, q string) *gorm.DB {
	switch how {
	case "wire":
		return gormq.WireMiniQuery(db, q)
	case "scope":
		return db.Scopes(gormq.MiniQuery{Query: []string{q}}.Scope)
	case "scope2":
		return db.Scopes(gormq.MiniQuery{Query: []string{"", q, " "}}.Scope)
	case "alias":
		return db.Table(tables[m] + " AS x1").Scopes(gormq.ApplyMiniQuery(q))
	case "schema":
		return db.Table("main." + tables[m]).Scopes(gormq.ApplyMiniQuery(q))
	case "unscoped":
		return db.Unscoped().Scopes(gormq.ApplyMiniQuery(q))
	case "joined":
		return db.Joins("Dept").Scopes(gormq.ApplyMiniQuery(q))
	case "joinedafter":
		return db.Scopes(gormq.ApplyMiniQuery(q)).Joins("Badge")
	case "first":
		return db.Scopes(gormq.ApplyMiniQuery(q), gormq.ApplyMiniQuery("Dept.id = 1 or not Dept.id = 1 or Dept.id is null"))
	}
	return db.Scopes(gormq.ApplyMiniQuery(q))
}

func of(m string) any {
	switch m {
	case "persons":
		return &model.Person{}
	case "others":
		return &other.Person{}
	case "depts":
		return &model.Dept{}
	case "badges":
		return &model.Badge{}
	case "awards":
		return &model.Award{}
	case "notes":
		return &model.Note{}
	}
	return &model.Item{}
}

// where is the condition of a statement.
func where(sql string) string {
	if _, w, ok := strings.Cut(sql, " WHERE "); ok {
		return w
	}
	return ""
}

// find returns the ids of the selected rows as digits.
func find(db *gorm.DB, m string) (ids [][]int, err error) {
	ids = [][]int{}
	switch m {
	case "persons":
		var out []model.Person
		err = db.Find(&out).Error
		for _, v := range out {
			ids = append(ids, astjson.Text(strconv.Itoa(v.ID)))
		}
	case "others":
		var out []other.Person
		err = db.Find(&out).Error
		for _, v := range out {
			ids = append(ids, astjson.Text(strconv.Itoa(v.ID)))
		}
	case "depts":
		var out []model.Dept
		err = db.Find(&out).Error
		for _, v := range out {
			ids = append(ids, astjson.Text(strconv.Itoa(v.ID)))
		}
	case "badges":
		var out []model.Badge
		err = db.Find(&out).Error
		for _, v := range out {
			ids = append(ids, astjson.Text(strconv.Itoa(v.ID)))
		}
	case "awards":
		var out []model.Award
		err = db.Find(&out).Error
		for _, v := range out {
			ids = append(ids, astjson.Text(strconv.Itoa(v.ID)))
		}
	case "notes":
		var out []model.Note
		err = db.Find(&out).Error
		for _, v := range out {
			ids = append(ids, astjson.Text(strconv.Itoa(v.ID)))
		}
	default:
		var out []model.Item
		err = db.Find(&out).Error
		for _, v := range out {
			ids = append(ids, astjson.Text(strconv.Itoa(v.ID)))
		}
	}
	return
}

func run() error {
	mode, in, out := os.Args[1], os.Args[2], os.Args[3]
	dbs, err := load(os.Args[4])
	if err != nil {
		return err
	}
	switch mode {
	case "cond", "names":
		by := map[string]*gorm.DB{"sqlite": dbs[0]}
		for _, d := range []string{"mysql", "postgres"} {
			if by[d], err = model.OpenAs(d); err != nil {
				return err
			}
		}
		return hio.Each(in, out, func(i int, c kase) object {
			ev := object{"k": mode, "m": c.M, "s": c.S, "how": c.How, "d": c.D, "r": "ok"}
			p := hio.Guard(func() {
				tx := apply(by[c.D].Session(&gorm.Session{DryRun: true}).Model(of(c.M)), c.M, c.How, astjson.String(c.S))
				var dest []map[string]any
				tx = tx.Find(&dest)
				if tx.Error != nil {
					ev["r"], ev["m2"] = "err", tx.Error.Error()
					return
				}
				ev["w"] = astjson.Text(where(tx.Statement.SQL.String()))
				vs := []any{}
				for _, v := range tx.Statement.Vars {
					vs = append(vs, astjson.Value(v))
				}
				ev["vs"] = vs
			})
			if p != "" {
				ev["r"], ev["m2"] = "panic", p
			}
			return ev
		})
	case "rows":
		return hio.Each(in, out, func(i int, c kase) object {
			ev := object{"k": mode, "m": c.M, "s": c.S, "tb": c.Tb, "how": c.How, "r": "ok", "ids": [][]int{}}
			p := hio.Guard(func() {
				ids, err := find(apply(dbs[c.Tb-1].Model(of(c.M)), c.M, c.How, astjson.String(c.S)), c.M)
				if err != nil {
					ev["r"], ev["m2"] = "err", err.Error()
				}
				ev["ids"] = ids
			})
			if p != "" {
				ev["r"], ev["m2"] = "panic", p
			}
			return ev
		})
	}
	if mode == "session" {
		return hio.Each(in, out, func(i int, c kase) object {
			return session(dbs[c.Tb-1], c)
		})
	}
	return fmt.Errorf("unknown mode %q", mode)
}

func main() {
	if err := run(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

package main

import (
	"strconv"
	"strings"

	"github.com/wenerme/go-miniquery/gormq"
	"github.com/wenerme/go-miniquery/verifharness/internal/astjson"
	"github.com/wenerme/go-miniquery/verifharness/internal/hio"
	"github.com/wenerme/go-miniquery/verifharness/internal/model"
	"gorm.io/gorm"
	"gorm.io/gorm/clause"
)

// step is a step of a history, see spec/MQSession.tla.
type step struct {
	Op  string  `json:"op"`
	M   string  `json:"m"`
	H   int     `json:"h"`
	Via string  `json:"via"`
	C   string  `json:"c"`
	Qs  [][]int `json:"qs"`
}

type world struct {
	tx     *gorm.DB
	hs     []*gorm.DB
	ms     []string
	scopes map[string]func(*gorm.DB) *gorm.DB
}

// scope gives the same function for the same query, so that functions are used again.
func (w *world) scope(via string, qs []string) func(*gorm.DB) *gorm.DB {
	key := via + "\x00" + strings.Join(qs, "\x00")
	if f := w.scopes[key]; f != nil {
		return f
	}
	var f func(*gorm.DB) *gorm.DB
	if via == "scope" {
		f = gormq.MiniQuery{Query: qs}.Scope
	} else {
		f = gormq.ApplyMiniQuery(qs[0])
	}
	w.scopes[key] = f
	return f
}

func (w *world) query(h *gorm.DB, via string, qs []string) *gorm.DB {
	switch via {
	case "scope":
		return h.Scopes(w.scope(via, qs))
	case "direct":
		return w.scope("scope", qs)(h)
	case "call":
		for _, q := range qs {
			h = w.scope("apply", []string{q})(h)
		}
		return h
	case "wire":
		for _, q := range qs {
			h = gormq.WireMiniQuery(h, q)
		}
		return h
	}
	for _, q := range qs {
		h = h.Scopes(w.scope(via, []string{q}))
	}
	return h
}

func ptr[T any](v T) *T {
	return &v
}

// direct gives a condition directly.
func (w *world) direct(h *gorm.DB, m, c string) *gorm.DB {
	if m == "persons" {
		switch c {
		case "raw":
			return h.Where("people.id = ? OR people.dept_id = ?", 1, 2)
		case "and":
			return h.Where("people.id IS NOT NULL AND people.dept_id IS NOT NULL")
		case "map":
			return h.Where(map[string]any{"dept_id": 1})
		case "not":
			return h.Not("people.id = ?", 1)
		case "group":
			return h.Where(w.tx.Where("people.id = ?", 1).Or("people.id = ?", 2))
		case "in":
			return h.Where("people.id IN ?", []int{1, 2, 3})
		case "struct":
			return h.Where(&model.Person{DeptID: ptr(1)})
		case "false":
			return h.Where("1 = 2")
		case "clause":
			return h.Where(clause.Or(clause.Eq{Column: "people.dept_id", Value: 1}, clause.Eq{Column: "people.dept_id", Value: nil}))
		}
	}
	switch c {
	case "raw":
		return h.Where("i = ? OR j = ?", 1, 2)
	case "and":
		return h.Where("i IS NOT NULL AND j IS NOT NULL")
	case "map":
		return h.Where(map[string]any{"i": 1})
	case "not":
		return h.Not("i = ?", 1)
	case "group":
		return h.Where(w.tx.Where("i = ?", 1).Or("s = ?", "b"))
	case "in":
		return h.Where("j IN ?", []int{1, 2})
	case "struct":
		if m == "notes" {
			return h.Where(&model.Note{I: ptr(int64(1))})
		}
		return h.Where(&model.Item{I: ptr(int64(1))})
	case "false":
		return h.Where("1 = 2")
	case "clause":
		return h.Where(clause.Or(clause.Eq{Column: "i", Value: 1}, clause.Eq{Column: "i", Value: nil}))
	}
	panic("unknown condition " + c)
}

// all returns the ids the text selects, outside of the history.
func (w *world) all(sql string) (ids [][]int) {
	ids = [][]int{}
	var out []int
	if err := w.tx.Raw(sql).Scan(&out).Error; err != nil {
		panic(err)
	}
	for _, v := range out {
		ids = append(ids, astjson.Text(strconv.Itoa(v)))
	}
	return ids
}

func (w *world) exec(sql string) {
	if err := w.tx.Exec(sql).Error; err != nil {
		panic(err)
	}
}

// end runs the statement. Changes are undone.
func (w *world) end(h *gorm.DB, m, c string) (ids [][]int, n int64, err error) {
	ids = [][]int{}
	table := tables[m]
	mark := map[string]string{"persons": "created_by"}[m]
	if mark == "" {
		mark = "t"
	}
	switch c {
	case "find":
		ids, err = find(h, m)
		n = int64(len(ids))
	case "first":
		dest := of(m)
		tx := h.First(dest)
		n, err = tx.RowsAffected, tx.Error
		id := 0
		switch v := dest.(type) {
		case *model.Item:
			id = v.ID
		case *model.Note:
			id = v.ID
		case *model.Person:
			id = v.ID
		}
		if id != 0 {
			ids = append(ids, astjson.Text(strconv.Itoa(id)))
		}
	case "count":
		err = h.Count(&n).Error
	case "pluck":
		var out []int
		err = h.Pluck(table+".id", &out).Error
		for _, v := range out {
			ids = append(ids, astjson.Text(strconv.Itoa(v)))
		}
		n = int64(len(ids))
	case "update", "delete":
		w.exec("SAVEPOINT history")
		var tx *gorm.DB
		if c == "update" {
			tx = h.Update(mark, "\x01changed")
		} else {
			tx = h.Delete(of(m))
		}
		n, err = tx.RowsAffected, tx.Error
		if c == "update" {
			ids = w.all("SELECT id FROM " + table + " WHERE " + mark + " = '\x01changed'")
			w.exec("ROLLBACK TO history")
		} else {
			alive := "SELECT id FROM " + table
			if m == "notes" {
				alive += " WHERE deleted_at IS NULL"
			}
			rest := w.all(alive)
			w.exec("ROLLBACK TO history")
			ids = minus(w.all(alive), rest)
		}
		w.exec("RELEASE history")
	default:
		panic("unknown end " + c)
	}
	return
}

func minus(a, b [][]int) [][]int {
	out := [][]int{}
	in := map[string]bool{}
	for _, v := range b {
		in[astjson.String(v)] = true
	}
	for _, v := range a {
		if !in[astjson.String(v)] {
			out = append(out, v)
		}
	}
	return out
}

func (w *world) step(st step) (h *gorm.DB, out object) {
	out = object{"panic": false, "err": false, "ids": [][]int{}, "n": 0}
	qs := []string{}
	for _, q := range st.Qs {
		qs = append(qs, astjson.String(q))
	}
	if st.Op == "open" {
		w.ms = append(w.ms, st.M)
		switch st.C {
		case "none":
			return w.tx.Table(tables[st.M]), out
		case "bad":
			return w.tx.Model(1), out
		}
		return w.tx.Model(of(st.M)), out
	}
	h = w.hs[st.H-1]
	m := w.ms[st.H-1]
	w.ms = append(w.ms, m)
	switch st.Op {
	case "fork":
		h = h.Session(&gorm.Session{})
	case "query":
		h = w.query(h, st.Via, qs)
	case "group":
		h = h.Where(w.query(w.tx.Model(of(m)), st.Via, qs))
	case "where":
		h = w.direct(h, m, st.C)
	case "other":
		switch st.C {
		case "order":
			h = h.Order("1 desc")
		case "join":
			if m == "persons" {
				h = h.Joins("Dept")
			}
		case "debug":
			h = h.Set("x", 1)
		}
	case "end":
		ids, n, err := w.end(h, m, st.C)
		out["ids"], out["n"], out["err"] = ids, n, err != nil
		if err != nil {
			out["m2"] = err.Error()
		}
		return nil, out
	default:
		panic("unknown step " + st.Op)
	}
	return h, out
}

// session runs a history and records what its statements gave.
func session(db *gorm.DB, c kase) object {
	w := &world{scopes: map[string]func(*gorm.DB) *gorm.DB{}}
	w.tx = db.Begin()
	defer w.tx.Rollback()
	outs := []any{}
	for _, st := range c.Steps {
		var h *gorm.DB
		var out object
		p := hio.Guard(func() { h, out = w.step(st) })
		if p != "" {
			out = object{"panic": true, "err": true, "ids": [][]int{}, "n": 0, "m2": p}
			outs = append(outs, out)
			break
		}
		w.hs = append(w.hs, h)
		outs = append(outs, out)
	}
	for len(outs) < len(c.Steps) {
		outs = append(outs, object{"panic": true, "err": true, "ids": [][]int{}, "n": 0, "m2": "not run"})
	}
	steps := []any{}
	for _, st := range c.Steps {
		qs := st.Qs
		if qs == nil {
			qs = [][]int{}
		}
		steps = append(steps, object{"op": st.Op, "m": st.M, "h": st.H, "via": st.Via, "c": st.C, "qs": qs})
	}
	return object{"k": "session", "tb": c.Tb, "steps": steps, "outs": outs}
}

// Package model holds the gorm models of the specification, see spec/MQSchema.tla.
package model

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/glebarez/sqlite"
	"github.com/wenerme/go-miniquery/verifharness/internal/astjson"
	"gorm.io/gorm"
	"gorm.io/gorm/clause"
	"gorm.io/gorm/logger"
)

// Item has nullable columns of every type.
type Item struct {
	ID int
	I  *int64
	J  *int64
	S  *string
	T  *string
	B  *bool
	C  *bool
	D  *string
}

// Note is kept after its deletion.
type Note struct {
	ID        int
	I         *int64
	J         *int64
	S         *string
	T         *string
	DeletedAt gorm.DeletedAt
}

// Address is embedded with a prefix.
type Address struct {
	City   string
	Street string `gorm:"column:STREET"`
}

// Base is embedded without one.
type Base struct {
	CreatedBy string
}

// Person has names that get in each other's way.
type Person struct {
	ID int
	Base
	Name     string `gorm:"column:title"`
	Title    string `gorm:"column:name"`
	NickName string
	Label    string  `gorm:"column:NickName"`
	Code     string  `gorm:"column:code_a"`
	CODE     string  `gorm:"column:code_b"`
	Note     string  `gorm:"column:Dept"`
	Hidden   string  `gorm:"-"`
	Addr     Address `gorm:"embedded;embeddedPrefix:addr_"`
	BossID   *int
	Boss     *Person
	DeptID   *int
	Dept     *Dept
	Badge    *Badge
	Seal     *Seal `gorm:"polymorphic:Owner"`
	Home
	Awards []Award
	Staff  []Person `gorm:"foreignKey:BossID"`
	Clubs  []Dept   `gorm:"many2many:clubs"`
}

// Home is embedded and has a relation.
type Home struct {
	TownID *int
	Town   *Dept
}

// Award is one of many of a Person.
type Award struct {
	ID       int
	PersonID *int
	Name     string
}

// Dept is related to Person.
type Dept struct {
	ID     int
	Name   string
	Title  string `gorm:"column:dept_title"`
	City   string
	HeadID *int
}

// Badge is owned by Person, and kept after its deletion.
type Badge struct {
	ID        int
	PersonID  *int
	Name      string
	Secret    string `gorm:"-"`
	DeletedAt gorm.DeletedAt
}

// Seal is owned by a Person, or by something else of the same id.
type Seal struct {
	ID        int
	OwnerID   *int
	OwnerType string
	Name      string
}

// dialect quotes names and marks arguments like another database.
type dialect struct {
	gorm.Dialector
	name string
}

func (d dialect) Name() string { return d.name }

func (d dialect) BindVarTo(w clause.Writer, stmt *gorm.Statement, v interface{}) {
	if d.name == "postgres" {
		_, _ = w.WriteString("$" + strconv.Itoa(len(stmt.Vars)))
		return
	}
	_ = w.WriteByte('?')
}

func (d dialect) QuoteTo(w clause.Writer, s string) {
	q := "`"
	if d.name == "postgres" {
		q = `"`
	}
	for i, part := range strings.Split(s, ".") {
		if i > 0 {
			_ = w.WriteByte('.')
		}
		_, _ = w.WriteString(q + strings.ReplaceAll(part, q, q+q) + q)
	}
}

// Open opens a database of its own in memory.
func Open() (*gorm.DB, error) { return open(sqlite.Open(":memory:")) }

// OpenAs opens a database that writes the statements of a dialect, and cannot run them.
func OpenAs(name string) (*gorm.DB, error) {
	return open(dialect{Dialector: sqlite.Open(":memory:"), name: name})
}

func open(d gorm.Dialector) (*gorm.DB, error) {
	db, err := gorm.Open(d, &gorm.Config{
		Logger:                                   logger.Discard,
		DisableForeignKeyConstraintWhenMigrating: true,
	})
	if err != nil {
		return nil, err
	}
	s, err := db.DB()
	if err != nil {
		return nil, err
	}
	s.SetMaxOpenConns(1)
	return db, nil
}

// Cell is a value of the specification.
type Cell struct {
	T string `json:"t"`
	D []int  `json:"d"`
	S []int  `json:"s"`
	B bool   `json:"b"`
}

// Go is the value to store.
func (c Cell) Go() (any, error) {
	switch c.T {
	case "null":
		return nil, nil
	case "int":
		var v int64
		_, err := fmt.Sscanf(astjson.String(c.D), "%d", &v)
		return v, err
	case "str":
		return astjson.String(c.S), nil
	case "bool":
		return c.B, nil
	}
	return nil, fmt.Errorf("unknown cell %q", c.T)
}

// Fill inserts rows whose values are in the order of columns.
func Fill(db *gorm.DB, table string, columns []string, rows [][]Cell) error {
	marks := strings.TrimSuffix(strings.Repeat("?,", len(columns)), ",")
	q := "INSERT INTO `" + table + "` (`" + strings.Join(columns, "`,`") + "`) VALUES (" + marks + ")"
	s, err := db.DB()
	if err != nil {
		return err
	}
	for _, r := range rows {
		args := []any{}
		for _, c := range r {
			v, err := c.Go()
			if err != nil {
				return err
			}
			args = append(args, v)
		}
		if _, err := s.Exec(q, args...); err != nil {
			return err
		}
	}
	return nil
}

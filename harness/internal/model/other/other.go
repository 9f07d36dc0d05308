// Package other has a model that shares its name and its table with one of package model.
package other

import "github.com/wenerme/go-miniquery/verifharness/internal/model"

// Person gives the columns of people other names.
type Person struct {
	ID       int
	Street   string `gorm:"column:created_by"`
	Title    string
	Name     string
	Label    string        `gorm:"column:nick_name"`
	NickName string        `gorm:"column:NickName"`
	CODE     string        `gorm:"column:code_a"`
	Code     string        `gorm:"column:code_b"`
	City     string        `gorm:"column:Dept"`
	Note     string        `gorm:"column:addr_city"`
	Hidden   string        `gorm:"column:addr_STREET"`
	DeptID   *int          `gorm:"column:boss_id"`
	Dept     *Person       `gorm:"foreignKey:DeptID"`
	BossID   *int          `gorm:"column:dept_id"`
	Boss     *model.Dept   `gorm:"foreignKey:BossID"`
	Badge    *model.Badge  `gorm:"foreignKey:PersonID"`
	LandID   *int          `gorm:"column:town_id"`
	Awards   *model.Dept   `gorm:"foreignKey:LandID"`
	Town     []model.Award `gorm:"foreignKey:PersonID"`
}

// TableName is that of the other Person.
func (Person) TableName() string { return "people" }

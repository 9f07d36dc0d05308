package main

import (
	"entgo.io/ent/dialect/sql/sqlgraph"
	"entgo.io/ent/schema/field"
)

// places are the schemas of tables that are not in the default one.
var places = map[string]string{
	"users": "arch", "cars": "arch", "groups": "hub", "cards": "hub", "towns": "hub", "user_groups": "arch", "friends": "hub", "visits": "arch",
}

// schema is the graph of the specification, see spec/MQEdges.tla, placed the same with tables in several schemas.
var schema, placed = graph(nil), graph(places)

func graph(places map[string]string) *sqlgraph.Schema {
	node := func(typ, table string, columns ...string) *sqlgraph.Node {
		n := &sqlgraph.Node{Type: typ, Fields: map[string]*sqlgraph.FieldSpec{}}
		n.Table = table
		n.Schema = places[table]
		n.Columns = append([]string{"id"}, columns...)
		n.ID = &sqlgraph.FieldSpec{Type: field.TypeInt, Column: "id"}
		for _, c := range columns {
			n.Fields[c] = &sqlgraph.FieldSpec{Column: c}
		}
		return n
	}
	g := &sqlgraph.Schema{Nodes: []*sqlgraph.Node{
		node("User", "users", "name", "age", "dept_id", "boss_id", "town_code"),
		node("Dept", "depts", "name", "size", "lead_id"),
		node("Group", "groups", "name", "age"),
		node("Car", "cars", "name", "age", "owner_id"),
		node("Card", "cards", "name", "size", "user_id"),
		node("Item", "items", "i", "j", "s", "t", "b", "c", "d"),
		node("Town", "towns", "code", "name", "age", "mayor_id", "near_code"),
		node("Log", "logs", "text", "user_id"),
	}}
	// the key of a town is not its id
	g.Nodes[len(g.Nodes)-2].ID.Column = "code"
	g.Nodes[len(g.Nodes)-1].ID = nil
	edge := func(name string, rel sqlgraph.Rel, inverse bool, from, to, table string, columns ...string) {
		g.MustAddE(name, &sqlgraph.EdgeSpec{Rel: rel, Inverse: inverse, Table: table, Schema: places[table], Columns: columns}, from, to)
	}
	edge("dept", sqlgraph.M2O, false, "User", "Dept", "users", "dept_id")
	edge("users", sqlgraph.O2M, true, "Dept", "User", "users", "dept_id")
	edge("staff", sqlgraph.O2M, false, "User", "User", "users", "boss_id")
	edge("boss", sqlgraph.M2O, true, "User", "User", "users", "boss_id")
	edge("groups", sqlgraph.M2M, false, "User", "Group", "user_groups", "user_id", "group_id")
	edge("users", sqlgraph.M2M, true, "Group", "User", "user_groups", "user_id", "group_id")
	edge("friends", sqlgraph.M2M, false, "User", "User", "friends", "a_id", "b_id")
	edge("fans", sqlgraph.M2M, true, "User", "User", "friends", "a_id", "b_id")
	edge("cars", sqlgraph.O2M, false, "User", "Car", "cars", "owner_id")
	edge("owner", sqlgraph.M2O, true, "Car", "User", "cars", "owner_id")
	edge("card", sqlgraph.O2O, false, "User", "Card", "cards", "user_id")
	edge("user", sqlgraph.O2O, true, "Card", "User", "cards", "user_id")
	edge("leads", sqlgraph.O2O, false, "User", "Dept", "depts", "lead_id")
	edge("lead", sqlgraph.O2O, true, "Dept", "User", "depts", "lead_id")
	edge("logs", sqlgraph.O2M, false, "User", "Log", "logs", "user_id")
	edge("user", sqlgraph.M2O, true, "Log", "User", "logs", "user_id")
	// names that are not lower case words, one like another one
	edge("Boss", sqlgraph.M2O, false, "User", "Dept", "users", "dept_id")
	edge("bestFriends", sqlgraph.M2M, false, "User", "User", "friends", "a_id", "b_id")
	edge("car2", sqlgraph.O2M, false, "User", "Car", "cars", "owner_id")
	edge("Other_Groups", sqlgraph.M2M, false, "User", "Group", "user_groups", "user_id", "group_id")
	edge("town", sqlgraph.M2O, false, "User", "Town", "users", "town_code")
	edge("users", sqlgraph.O2M, true, "Town", "User", "users", "town_code")
	edge("visited", sqlgraph.M2M, false, "User", "Town", "visits", "user_id", "town_code")
	edge("visitors", sqlgraph.M2M, true, "Town", "User", "visits", "user_id", "town_code")
	edge("rules", sqlgraph.O2M, false, "User", "Town", "towns", "mayor_id")
	edge("mayor", sqlgraph.M2O, true, "Town", "User", "towns", "mayor_id")
	edge("nears", sqlgraph.O2M, false, "Town", "Town", "towns", "near_code")
	edge("near", sqlgraph.M2O, true, "Town", "Town", "towns", "near_code")
	edge("roads", sqlgraph.M2M, false, "Town", "Town", "roads", "a_code", "b_code")
	return g
}

func nodeOf(g *sqlgraph.Schema, table string) *sqlgraph.Node {
	for _, n := range g.Nodes {
		if n.Table == table {
			return n
		}
	}
	return nil
}

// ddl creates the tables of the graph. The tables of the many-to-many edges have columns
// of their own, with names the related tables use too.
var ddl = []string{
	"CREATE TABLE `users` (`id` integer, `name` text, `age` integer, `dept_id` integer, `boss_id` integer, `town_code` integer)",
	"CREATE TABLE `depts` (`id` integer, `name` text, `size` integer, `lead_id` integer)",
	"CREATE TABLE `groups` (`id` integer, `name` text, `age` integer)",
	"CREATE TABLE `cars` (`id` integer, `name` text, `age` integer, `owner_id` integer)",
	"CREATE TABLE `cards` (`id` integer, `name` text, `size` integer, `user_id` integer)",
	"CREATE TABLE `user_groups` (`id` integer, `name` text, `user_id` integer, `group_id` integer)",
	"CREATE TABLE `friends` (`id` integer, `age` integer, `a_id` integer, `b_id` integer)",
	"CREATE TABLE `towns` (`id` integer, `code` integer, `name` text, `age` integer, `mayor_id` integer, `near_code` integer)",
	"CREATE TABLE `visits` (`id` integer, `name` text, `code` integer, `user_id` integer, `town_code` integer)",
	"CREATE TABLE `roads` (`id` integer, `code` integer, `a_code` integer, `b_code` integer)",
}

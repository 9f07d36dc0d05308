// Package astjson projects parsed trees to the record form of the specification.
package astjson

import (
	"fmt"
	"strconv"

	mq "github.com/wenerme/go-miniquery/miniquery"
)

// Node is the record form of a tree, see spec/MQGrammar.tla.
type Node = map[string]any

// Text is a text as code points.
func Text(s string) []int {
	out := make([]int, 0, len(s))
	for _, r := range s {
		out = append(out, int(r))
	}
	return out
}

// String is the inverse of Text.
func String(cp []int) string {
	rs := make([]rune, len(cp))
	for i, c := range cp {
		rs[i] = rune(c)
	}
	return string(rs)
}

// Value projects a Go value as returned by Node.Value.
func Value(v any) Node {
	switch v := v.(type) {
	case nil:
		return Node{"t": "null"}
	case bool:
		return Node{"t": "bool", "b": v}
	case int:
		return Node{"t": "int", "d": Text(strconv.Itoa(v))}
	case int64:
		return Node{"t": "int", "d": Text(strconv.FormatInt(v, 10))}
	case string:
		return Node{"t": "str", "s": Text(v)}
	case []any:
		a := []any{}
		for _, e := range v {
			a = append(a, Value(e))
		}
		return Node{"t": "arr", "a": a}
	}
	return Node{"t": "odd", "g": fmt.Sprintf("%T", v)}
}

// sameValue compares a projected node with the value its accessor returns.
func sameValue(n *mq.Node) bool {
	v := n.Value()
	switch n.ValueType {
	case mq.IntValueType:
		x, ok := v.(int)
		return ok && x == n.Int
	case mq.StringValueType:
		x, ok := v.(string)
		return ok && x == n.Str
	case mq.BooleanValueType:
		x, ok := v.(bool)
		return ok && x == n.Bool
	case mq.NullValueType:
		return v == nil
	case mq.ArrayValueType:
		x, ok := v.([]any)
		if !ok && len(n.Array) > 0 || len(x) != len(n.Array) {
			return false
		}
		return true
	}
	return false
}

// Tree projects a tree. Shapes the specification does not know become "odd".
func Tree(n *mq.Node) Node {
	if n == nil {
		return Node{"t": "nil"}
	}
	op := func() string {
		if n.Op == nil || n.Op.Type != mq.OperationNodeType {
			return "?"
		}
		return n.Op.Operation
	}
	list := func(ns []*mq.Node) []any {
		out := []any{}
		for _, e := range ns {
			out = append(out, Tree(e))
		}
		return out
	}
	switch n.Type {
	case mq.ValueNodeType:
		if !sameValue(n) {
			return Node{"t": "odd", "g": "value differs from its accessor"}
		}
		if n.ValueType == mq.ArrayValueType {
			for _, e := range n.Array {
				if e == nil || e.Type != mq.ValueNodeType {
					return Node{"t": "odd", "g": "list element is not a value"}
				}
			}
			return Node{"t": "arr", "a": list(n.Array)}
		}
		return Value(n.Value())
	case mq.IdentifierNodeType:
		return Node{"t": "id", "n": Text(n.Name)}
	case mq.ReferenceNodeType:
		ns := []any{}
		for _, e := range n.Names {
			ns = append(ns, Text(e))
		}
		return Node{"t": "ref", "ns": ns}
	case mq.FunctionExpressionType:
		return Node{"t": "fn", "n": Text(n.Name), "p": list(n.Params)}
	case mq.CompareExpressionType:
		return Node{"t": "cmp", "o": op(), "l": Tree(n.Left), "r": Tree(n.Right)}
	case mq.LogicExpressionType:
		return Node{"t": "log", "o": op(), "l": Tree(n.Left), "r": Tree(n.Right)}
	case mq.PredicatesExpressionType:
		if n.Right != nil {
			return Node{"t": "odd", "g": "predicate with a right side"}
		}
		return Node{"t": "prd", "o": op(), "l": Tree(n.Left)}
	case mq.BetweenExpressionType:
		if len(n.Params) != 2 {
			return Node{"t": "odd", "g": "range without two bounds"}
		}
		return Node{"t": "btw", "o": op(), "l": Tree(n.Left), "lo": Tree(n.Params[0]), "hi": Tree(n.Params[1])}
	case mq.ParenthesesExpressionType:
		return Node{"t": "par", "e": Tree(n.Expression)}
	case mq.NotExpressionType:
		return Node{"t": "not", "e": Tree(n.Expression)}
	}
	return Node{"t": "odd", "g": string(n.Type)}
}

// Command mqparse drives the parser, the printer and the joiner.
package main

import (
	"fmt"
	"os"
	"strings"

	mq "github.com/wenerme/go-miniquery/miniquery"
	"github.com/wenerme/go-miniquery/verifharness/internal/astjson"
	"github.com/wenerme/go-miniquery/verifharness/internal/hio"
)

type kase struct {
	S  []int   `json:"s"`
	Ss [][]int `json:"ss"`
	F  string  `json:"f"`
	N  int     `json:"n"`
}

type object = map[string]any

func call(s string) (n *mq.Node, r, msg string) {
	var err error
	p := hio.Guard(func() { n, err = mq.Parse(s) })
	switch {
	case p != "":
		return nil, "panic", p
	case err != nil && n != nil:
		return nil, "both", ""
	case err != nil:
		return nil, "err", ""
	case n == nil:
		return nil, "neither", ""
	}
	return n, "ok", ""
}

func parse(s string) object {
	n, r, msg := call(s)
	ev := object{"r": r}
	if msg != "" {
		ev["m"] = msg
	}
	if n != nil {
		ev["ast"] = astjson.Tree(n)
	}
	return ev
}

func build(n *mq.Node) (out, r string) {
	if p := hio.Guard(func() { out = mq.Build(n) }); p != "" {
		return "", "panic"
	}
	return out, "ok"
}

// scaleText is member n of a family of texts.
func scaleText(f string, n int) string {
	rep := func(s string) string { return strings.Repeat(s, n) }
	switch f {
	case "parens":
		return rep("(") + "a=1" + rep(")")
	case "openonly":
		return rep("(") + "a=1"
	case "closeonly":
		return "a=1" + rep(")")
	case "brackets":
		return rep("[") + "1" + rep("]")
	case "calls":
		return rep("f(") + "a" + rep(")")
	case "callsopen":
		return rep("f(") + "a"
	case "ands":
		return "a=1" + rep(" and a=1")
	case "ors":
		return "a=1" + rep(" or a=1")
	case "mixed":
		return "a=1" + rep(" or a=1 and a=1")
	case "list":
		return "a in [" + strings.TrimSuffix(rep("1,"), ",") + "]"
	case "args":
		return "f(" + strings.TrimSuffix(rep("a,"), ",") + ")"
	case "string":
		return "a='" + rep("x") + "'"
	case "stropen":
		return "a='" + rep("x")
	case "name":
		return rep("x") + "=1"
	case "path":
		return strings.TrimSuffix(rep("a."), ".") + "=1"
	case "blanks":
		return "a=" + rep(" ") + "1"
	case "comment":
		return "a= --" + rep("x") + "\n 1"
	case "comments":
		return "a= " + rep("--\n") + " 1"
	case "cmtopen":
		return "a=1 --" + rep("x")
	case "digits":
		return "a=" + rep("1")
	case "compares":
		return "a" + rep("=a")
	case "nots":
		return rep("not ") + "a"
	case "garbage":
		return "a=1 " + rep(";")
	case "quotedparens":
		return "a='" + rep("(") + "'"
	case "cmtparens":
		return "a= --" + rep("(") + "\n 1"
	}
	panic("unknown family " + f)
}

// measure counts the nodes of a tree, operators included, its height without operators
// and the longest string, name or path.
func measure(n *mq.Node) (nodes, height, longest int) {
	if n == nil {
		return
	}
	nodes = 1
	longest = 1
	switch n.Type {
	case mq.ValueNodeType:
		longest = max(longest, len(n.Str))
	case mq.IdentifierNodeType, mq.FunctionExpressionType:
		longest = max(longest, len(n.Name))
	case mq.ReferenceNodeType:
		longest = max(longest, len(n.Names))
	}
	if n.Op != nil {
		nodes++
	}
	sub := func(c *mq.Node) {
		a, b, d := measure(c)
		nodes += a
		height = max(height, b)
		longest = max(longest, d)
	}
	sub(n.Left)
	sub(n.Right)
	sub(n.Expression)
	for _, c := range n.Params {
		sub(c)
	}
	for _, c := range n.Array {
		sub(c)
	}
	height++
	return
}

// told is what a node says about itself and its parts, in visiting order.
func told(n *mq.Node, out []any) []any {
	if n == nil {
		return append(out, object{"iv": false, "ie": false, "v": object{"t": "nil"}})
	}
	ev := object{"iv": n.IsValue(), "ie": n.IsExpression(), "v": object{"t": "none"}}
	if n.Type == mq.ValueNodeType {
		v := n.Value()
		ev["v"] = astjson.Value(v)
		if l, ok := v.([]any); ok {
			// what is handed out belongs to the caller
			for i := range l {
				l[i] = "changed"
			}
		}
	}
	out = append(out, ev)
	for _, c := range []*mq.Node{n.Left, n.Op, n.Right, n.Expression} {
		if c != nil {
			out = told(c, out)
		}
	}
	for _, c := range n.Params {
		out = told(c, out)
	}
	for _, c := range n.Array {
		out = told(c, out)
	}
	return out
}

func main() {
	var err error
	mode, in, out := os.Args[1], os.Args[2], os.Args[3]
	switch mode {
	case "parse", "accept":
		err = hio.Each(in, out, func(i int, c kase) object {
			ev := parse(astjson.String(c.S))
			if mode == "accept" {
				delete(ev, "ast")
			}
			ev["k"], ev["s"] = mode, c.S
			return ev
		})
	case "norm":
		err = hio.Each(in, out, func(i int, c kase) object {
			ev := object{"k": mode, "ss": c.Ss, "r": "ok", "o": "", "again": ""}
			if p := hio.Guard(func() {
				o := mq.NormalizeOperation(astjson.String(c.Ss[0]))
				ev["o"], ev["again"] = o, mq.NormalizeOperation(o)
			}); p != "" {
				ev["r"] = "panic"
			}
			return ev
		})
	case "bytes":
		err = hio.Each(in, out, func(i int, c kase) object {
			b := []byte{}
			for _, v := range c.S {
				b = append(b, byte(v))
			}
			ev := parse(string(b))
			delete(ev, "ast")
			// what is no text is read as U+FFFD
			ev["k"], ev["s"] = mode, astjson.Text(string(b))
			return ev
		})
	case "scale":
		err = hio.Each(in, out, func(i int, c kase) object {
			n, r, msg := call(scaleText(c.F, c.N))
			ev := object{"k": mode, "f": c.F, "n": c.N, "r": r}
			if msg != "" {
				ev["m"] = msg
			}
			ev["nodes"], ev["height"], ev["longest"] = measure(n)
			return ev
		})
	case "nodes":
		err = hio.Each(in, out, func(i int, c kase) object {
			n, r, _ := call(astjson.String(c.S))
			ev := object{"k": mode, "s": c.S, "r": r, "nodes": []any{}, "same": true}
			if n == nil {
				return ev
			}
			p := hio.Guard(func() {
				before := fmt.Sprint(astjson.Tree(n))
				ev["nodes"] = told(n, nil)
				_ = n.String()
				again := told(n, nil)
				ev["same"] = before == fmt.Sprint(astjson.Tree(n)) && fmt.Sprint(again) == fmt.Sprint(ev["nodes"])
			})
			if p != "" {
				ev["r"] = "panic"
			}
			return ev
		})
	case "variants":
		err = hio.Each(in, out, func(i int, c kase) object {
			rs := []any{}
			for _, s := range c.Ss {
				rs = append(rs, parse(astjson.String(s)))
			}
			return object{"k": mode, "ss": c.Ss, "rs": rs}
		})
	case "build":
		err = hio.Each(in, out, func(i int, c kase) object {
			ev := object{"k": mode, "s": c.S}
			n, r, _ := call(astjson.String(c.S))
			ev["r"] = r
			if n == nil {
				return ev
			}
			ev["ast"] = astjson.Tree(n)
			b, br := build(n)
			ev["br"] = br
			if br != "ok" {
				return ev
			}
			ev["b"] = astjson.Text(b)
			n2, r2, _ := call(b)
			ev["r2"] = r2
			if n2 == nil {
				return ev
			}
			ev["ast2"] = astjson.Tree(n2)
			b2, br2 := build(n2)
			ev["br"], ev["b2"] = br2, astjson.Text(b2)
			return ev
		})
	case "join":
		err = hio.Each(in, out, func(i int, c kase) object {
			ev := object{"k": mode, "ss": c.Ss}
			list := []string{}
			for _, s := range c.Ss {
				list = append(list, astjson.String(s))
			}
			var j string
			if p := hio.Guard(func() { j = mq.Join(list) }); p != "" {
				ev["jr"] = "panic"
				return ev
			}
			ev["jr"], ev["j"] = "ok", astjson.Text(j)
			for k, v := range parse(j) {
				ev[k] = v
			}
			return ev
		})
	default:
		err = fmt.Errorf("unknown mode %q", mode)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// Command mutate lists or applies one of the small mutations of a Go file
// (development only: it is how the checks were themselves tested).
//
//	mutate FILE          lists "N line kind: old -> new"
//	mutate FILE N        writes the mutated file to standard output
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
)

type mut struct {
	off, end int
	repl     string
	kind     string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	var ms []mut
	o := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(a, b token.Pos, repl, kind string) {
		ms = append(ms, mut{o(a), o(b), repl, kind})
	}
	text := func(n ast.Node) string { return string(src[o(n.Pos()):o(n.End())]) }
	swaps := map[token.Token][]string{
		token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
		token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"+"}, token.AND: {"|"}, token.OR: {"&"},
		token.SHL: {">>"}, token.SHR: {"<<"}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.AND_NOT: {"|"}, token.XOR: {"&"},
	}
	sel := map[string]string{"X": "Y", "Y": "X", "Min": "Max", "Max": "Min", "Dx": "Dy", "Dy": "Dx"}
	conv := map[string]string{"int16": "uint16", "uint16": "int16", "int8": "uint8", "uint8": "int8", "uint32": "uint16", "int64": "int32", "int32": "int16"}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.IMPORT {
				return false
			}
		case *ast.FuncDecl:
			if n.Name.Name == "String" || n.Name.Name == "Error" || n.Name.Name == "Dump" {
				return false
			}
		case *ast.BinaryExpr:
			for _, s := range swaps[n.Op] {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, "op")
			}
		case *ast.UnaryExpr:
			if n.Op == token.SUB || n.Op == token.NOT {
				add(n.OpPos, n.OpPos+1, "", "unary")
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
					add(n.Pos(), n.End(), fmt.Sprint(v+1), "lit")
					if v != 0 {
						add(n.Pos(), n.End(), fmt.Sprint(v-1), "lit")
					}
				}
			}
		case *ast.IfStmt:
			c := text(n.Cond)
			add(n.Cond.Pos(), n.Cond.End(), "false && ("+c+")", "cond")
			add(n.Cond.Pos(), n.Cond.End(), "true || ("+c+")", "cond")
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt:
			add(n.Pos(), n.End(), "", "del")
		case *ast.AssignStmt:
			switch n.Tok {
			case token.DEFINE:
			case token.ADD_ASSIGN:
				add(n.TokPos, n.TokPos+2, "-=", "assign")
				fallthrough
			case token.SUB_ASSIGN:
				if n.Tok == token.SUB_ASSIGN {
					add(n.TokPos, n.TokPos+2, "+=", "assign")
				}
				fallthrough
			default:
				add(n.Pos(), n.End(), "", "del")
			}
		case *ast.SelectorExpr:
			if r := sel[n.Sel.Name]; r != "" {
				add(n.Sel.Pos(), n.Sel.End(), r, "sel")
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && conv[id.Name] != "" && len(n.Args) == 1 {
				add(n.Fun.Pos(), n.Fun.End(), conv[id.Name], "conv")
				if id.Name != "uint32" && id.Name[0] != 'i' {
					_ = id
				}
			}
		}
		return true
	})
	sort.SliceStable(ms, func(i, j int) bool { return ms[i].off < ms[j].off })
	if len(os.Args) > 2 {
		k, _ := strconv.Atoi(os.Args[2])
		m := ms[k]
		os.Stdout.Write(src[:m.off])
		os.Stdout.WriteString(m.repl)
		os.Stdout.Write(src[m.end:])
		return
	}
	for i, m := range ms {
		line := 1
		for _, b := range src[:m.off] {
			if b == '\n' {
				line++
			}
		}
		fmt.Printf("%d %d %s: %q -> %q\n", i, line, m.kind, src[m.off:m.end], m.repl)
	}
}

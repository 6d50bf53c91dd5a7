// Command automut lists single-point mutations of Go files: one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File     string
	Off, End int
	New      string
	What     string
	Line     int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(from, to token.Pos, new, what string) {
			enc.Encode(mut{fn, off(from), off(to), new, what, fs.Position(from).Line})
		}
		del := func(s ast.Stmt) {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
				emit(s.Pos(), s.End(), "", "delete "+text(s))
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					emit(s.Pos(), s.End(), "", "delete "+text(s))
				}
			case *ast.BranchStmt:
				emit(s.Pos(), s.End(), "", "delete "+text(s))
			case *ast.ReturnStmt:
				if len(s.Results) == 0 {
					emit(s.Pos(), s.End(), "", "delete return")
				}
			}
			if d, ok := s.(*ast.DeferStmt); ok {
				emit(d.Pos(), d.Call.Pos(), "", "undefer "+text(d.Call))
			}
			if d, ok := s.(*ast.GoStmt); ok {
				emit(d.Pos(), d.Call.Pos(), "", "ungo "+text(d.Call))
			}
			if i, ok := s.(*ast.IfStmt); ok && i.Else == nil && i.Init == nil {
				emit(i.Pos(), i.End(), "{ _ = "+text(i.Cond)+" }", "delete if "+text(i.Cond))
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BlockStmt:
				for i, s := range n.List {
					del(s)
					if i+1 < len(n.List) {
						a, b := s, n.List[i+1]
						if simple(a) && simple(b) {
							emit(a.Pos(), b.End(), text(b)+"\n"+text(a), "swap "+text(a)+" | "+text(b))
						}
					}
				}
			case *ast.CaseClause:
				for _, s := range n.Body {
					del(s)
				}
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate "+text(n.Cond))
			case *ast.ForStmt:
				if n.Cond != nil {
					emit(n.Cond.Pos(), n.Cond.End(), "false", "never "+text(n.Cond))
				}
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{
					token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
					token.MUL: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.AND_NOT: {"&"}, token.REM: {"*"},
				}[n.Op]
				for _, a := range alt {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), a, text(n)+": "+n.Op.String()+" -> "+a)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), text(n.X), text(n)+" -> left")
					emit(n.Pos(), n.End(), text(n.Y), text(n)+" -> right")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1), fmt.Sprintf("%s -> %d", n.Value, v+1))
						if v > 0 {
							emit(n.Pos(), n.End(), fmt.Sprint(v-1), fmt.Sprintf("%s -> %d", n.Value, v-1))
						}
					}
				case token.STRING:
					if s, err := strconv.Unquote(n.Value); err == nil {
						if s == "" {
							emit(n.Pos(), n.End(), `"x"`, `"" -> "x"`)
						} else {
							emit(n.Pos(), n.End(), strconv.Quote(s[:len(s)-1]), n.Value+" cut")
						}
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					emit(n.Pos(), n.End(), "false", "true -> false")
				} else if n.Name == "false" {
					emit(n.Pos(), n.End(), "true", "false -> true")
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						emit(r.Pos(), r.End(), "nil", "return nil for err")
					}
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					emit(n.Low.Pos(), n.Low.End(), text(n.Low)+"+1", text(n)+": low+1")
				}
				if n.High != nil {
					emit(n.High.Pos(), n.High.End(), text(n.High)+"-1", text(n)+": high-1")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n.Pos(), n.End(), text(n.X), "drop ! of "+text(n))
				}
			case *ast.FuncDecl:
				if n.Body != nil {
					locks(n.Body, src, off, emit)
				}
			case *ast.FuncLit:
				locks(n.Body, src, off, emit)
			}
			return true
		})
	}
}

func simple(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
		return true
	case *ast.AssignStmt:
		return s.Tok != token.DEFINE
	}
	return false
}

func isLock(s ast.Stmt) bool {
	var c *ast.CallExpr
	switch s := s.(type) {
	case *ast.ExprStmt:
		c, _ = s.X.(*ast.CallExpr)
	case *ast.DeferStmt:
		c = s.Call
	}
	if c == nil {
		return false
	}
	sel, ok := c.Fun.(*ast.SelectorExpr)
	return ok && (sel.Sel.Name == "Lock" || sel.Sel.Name == "Unlock" || sel.Sel.Name == "RLock" || sel.Sel.Name == "RUnlock")
}

// locks emits the function body without any locking.
func locks(b *ast.BlockStmt, src []byte, off func(token.Pos) int, emit func(a, b token.Pos, s, w string)) {
	type span struct{ a, b int }
	var l []span
	ast.Inspect(b, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			return false
		}
		if s, ok := n.(ast.Stmt); ok && isLock(s) {
			l = append(l, span{off(s.Pos()), off(s.End())})
		}
		return true
	})
	if len(l) == 0 {
		return
	}
	out, at := "", off(b.Pos())
	for _, s := range l {
		out += string(src[at:s.a])
		at = s.b
	}
	out += string(src[at:off(b.End())])
	emit(b.Pos(), b.End(), out, "without locks")
}

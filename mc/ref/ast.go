// Package ref is the reference model: its own template syntax tree, a printer from trees to template source, and a
// plain reflect-based interpreter of the documented meaning. It shares no code with the implementation under test.
package ref

import (
	"fmt"
	"strconv"
	"strings"
)

// Node is a statement of a template.
type Node interface{}

type (
	// Text is literal text (it must not contain a construct).
	Text string
	// Comment is "##"+text; a newline is part of it unless it is the last thing of the template (EOF).
	Comment struct {
		Body string
		EOF  bool
	}
	// Raw is #[[..]]#.
	Raw string
	// Out renders a reference.
	Out struct{ P *Path }
	// Arm is a branch of If.
	Arm struct {
		Cond Expr
		Body []Node
	}
	// If is an if/elseif/else chain.
	If struct {
		Arms    []Arm
		Else    []Node
		HasElse bool
	}
	// Foreach loops over a path or a Range.
	Foreach struct {
		Item string
		Over Expr
		Body []Node
	}
	// For is #for(v = From; Cond; Post).
	For struct {
		Var   string
		From  Expr
		Cond  Expr
		Post  string // ++ -- += -= *= /=
		PostN Expr
		Body  []Node
	}
	// Set assigns.
	Set struct {
		Target *Path
		Val    Expr
	}
	// Eval is #evaluate(e).
	Eval struct{ Arg Expr }
)

// Expr is an expression.
type Expr interface{}

type (
	// Lit is a literal; V is int, float64, string or bool.
	Lit struct{ V interface{} }
	// Bin is a binary operation.
	Bin struct {
		Op   string
		L, R Expr
	}
	// Not negates.
	Not struct{ X Expr }
	// Paren is an explicit pair of parentheses.
	Paren struct{ X Expr }
	// Range is [A...B].
	Range struct{ A, B int }
	// Path is a reference.
	Path struct {
		Root   string
		Call   bool // root is a function call with Args
		Args   []Expr
		Segs   []Seg
		Silent bool
		Braced bool
	}
)

// Seg continues a path.
type Seg interface{}

type (
	// Field selects .Name
	Field string
	// Index selects [X]
	Index struct{ X Expr }
	// Method calls .Name(Args)
	Method struct {
		Name string
		Args []Expr
	}
)

// V is a bare variable reference.
func V(name string) *Path { return &Path{Root: name} }

// Style controls optional whitespace.
type Style struct {
	Sp string // around operators and inside parentheses
}

// Default style.
var Default = Style{Sp: " "}

// Print renders a template.
func Print(nodes []Node) string { return Default.Print(nodes) }

// Print renders a template in the style.
func (s Style) Print(nodes []Node) string {
	var b strings.Builder
	s.nodes(&b, nodes)
	return b.String()
}

func (s Style) nodes(b *strings.Builder, nodes []Node) {
	for _, n := range nodes {
		switch a := n.(type) {
		case Text:
			b.WriteString(string(a))
		case Comment:
			b.WriteString("##" + a.Body)
			if !a.EOF {
				b.WriteString("\n")
			}
		case Raw:
			b.WriteString("#[[" + string(a) + "]]#")
		case Out:
			b.WriteString(s.Expr(a.P))
		case If:
			for i, arm := range a.Arms {
				if i == 0 {
					b.WriteString("#if(")
				} else {
					b.WriteString("#elseif(")
				}
				b.WriteString(s.Expr(arm.Cond) + ")")
				s.nodes(b, arm.Body)
			}
			if a.HasElse {
				b.WriteString("#{else}")
				s.nodes(b, a.Else)
			}
			b.WriteString("#end")
		case Foreach:
			b.WriteString("#foreach($" + a.Item + " in " + s.Expr(a.Over) + ")")
			s.nodes(b, a.Body)
			b.WriteString("#end")
		case For:
			b.WriteString("#for($" + a.Var + " = " + s.Expr(a.From) + "; " + s.Expr(a.Cond) + "; $" + a.Var)
			if a.Post == "++" || a.Post == "--" {
				b.WriteString(a.Post)
			} else {
				b.WriteString(s.Sp + a.Post + s.Sp + s.Expr(a.PostN))
			}
			b.WriteString(")")
			s.nodes(b, a.Body)
			b.WriteString("#end")
		case Set:
			b.WriteString("#set(" + s.Expr(a.Target) + s.Sp + "=" + s.Sp + s.Expr(a.Val) + ")")
		case Eval:
			b.WriteString("#evaluate(" + s.Expr(a.Arg) + ")")
		default:
			panic(fmt.Sprintf("ref: unknown node %T", n))
		}
	}
}

// Expr renders an expression.
func (s Style) Expr(e Expr) string {
	switch a := e.(type) {
	case Lit:
		switch v := a.V.(type) {
		case int:
			return strconv.Itoa(v)
		case float64:
			r := strconv.FormatFloat(v, 'f', -1, 64)
			if !strings.Contains(r, ".") {
				r += ".0"
			}
			return r
		case string:
			return `"` + v + `"`
		case bool:
			return strconv.FormatBool(v)
		}
		panic(fmt.Sprintf("ref: literal %T", a.V))
	case Bin:
		return s.Expr(a.L) + s.Sp + a.Op + s.Sp + s.Expr(a.R)
	case Not:
		return "!" + s.Expr(a.X)
	case Paren:
		return "(" + s.Expr(a.X) + ")"
	case Range:
		return fmt.Sprintf("[%d...%d]", a.A, a.B)
	case *Path:
		r := a.Root
		if a.Call {
			r += s.args(a.Args)
		}
		for _, seg := range a.Segs {
			switch x := seg.(type) {
			case Field:
				r += "." + string(x)
			case Index:
				r += "[" + s.Expr(x.X) + "]"
			case Method:
				r += "." + x.Name + s.args(x.Args)
			}
		}
		if a.Braced {
			r = "{" + r + "}"
		}
		if a.Silent {
			r = "!" + r
		}
		return "$" + r
	}
	panic(fmt.Sprintf("ref: unknown expr %T", e))
}

func (s Style) args(args []Expr) string {
	parts := make([]string, len(args))
	for i, a := range args {
		parts[i] = s.Expr(a)
	}
	return "(" + strings.Join(parts, ","+s.Sp) + ")"
}

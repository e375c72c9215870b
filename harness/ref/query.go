package ref

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// VType is the type of a term.
type VType string

// Types of terms.
const (
	VInt    VType = "integer"
	VFloat  VType = "float"
	VString VType = "string"
	VBool   VType = "boolean"
	VRegex  VType = "regex"
	VNet    VType = "netaddr"
	VTime   VType = "timestamp"
)

// Val is a term of a query.
type Val struct {
	Type VType
	Text string // as written in the query
	I    int64
	F    float64
	S    string // decoded string, or the inside of a regex
	B    bool
	Re   *regexp.Regexp
	Addr [4]byte
	Bits int
	T    time.Time
	Day  bool
	// Span in bytes, filled in by the parser.
	Lo, Hi int
}

// Canon is a form that is equal for equal terms.
func (v *Val) Canon() string {
	switch v.Type {
	case VInt:
		return fmt.Sprintf("int:%d", v.I)
	case VFloat:
		return "float:" + strconv.FormatFloat(v.F, 'x', -1, 64)
	case VString:
		return fmt.Sprintf("string:%q", v.S)
	case VBool:
		return fmt.Sprintf("bool:%v", v.B)
	case VRegex:
		return fmt.Sprintf("regex:%q", v.S)
	case VNet:
		return fmt.Sprintf("net:%d.%d.%d.%d/%d", v.Addr[0], v.Addr[1], v.Addr[2], v.Addr[3], v.Bits)
	case VTime:
		return fmt.Sprintf("time:%s/%v", v.T.UTC().Format(time.RFC3339Nano), v.Day)
	}
	return "?"
}

// dupKey identifies a term for the duplicate check, by its canonical spelling.
func (v *Val) dupKey() string {
	switch v.Type {
	case VFloat:
		return strconv.FormatFloat(v.F, 'f', -1, 64)
	case VString:
		return strconv.Quote(v.S)
	case VNet:
		if !strings.Contains(v.Text, "/") {
			return v.Text + "/32"
		}
	}
	return v.Text
}

// NKind is the kind of a query node.
type NKind int

// Kinds of query nodes.
const (
	KAnd NKind = iota
	KOr
	KNot
	KExpr
)

// Node is a node of a query.
type Node struct {
	Kind  NKind
	L, R  *Node
	Field []string
	Op    string // == < <= > >= >< ~ exists null
	Vals  []*Val
	// Span in bytes, filled in by the parser.
	Lo, Hi int
}

// And makes a conjunction.
func And(l, r *Node) *Node { return &Node{Kind: KAnd, L: l, R: r} }

// Or makes a disjunction.
func Or(l, r *Node) *Node { return &Node{Kind: KOr, L: l, R: r} }

// Not makes a negation.
func Not(n *Node) *Node { return &Node{Kind: KNot, L: n} }

// Expr makes a condition.
func Expr(field []string, op string, vals ...*Val) *Node {
	return &Node{Kind: KExpr, Field: field, Op: op, Vals: vals}
}

// Dump is a form that is equal for equal trees.
func (n *Node) Dump() string {
	var b strings.Builder
	n.dump(&b)
	return b.String()
}

func (n *Node) dump(b *strings.Builder) {
	switch n.Kind {
	case KAnd, KOr:
		if n.Kind == KAnd {
			b.WriteString("(and ")
		} else {
			b.WriteString("(or ")
		}
		n.L.dump(b)
		b.WriteByte(' ')
		n.R.dump(b)
		b.WriteByte(')')
	case KNot:
		b.WriteString("(not ")
		n.L.dump(b)
		b.WriteByte(')')
	case KExpr:
		fmt.Fprintf(b, "(%s %q", n.Op, n.Field)
		for _, v := range n.Vals {
			b.WriteByte(' ')
			b.WriteString(v.Canon())
		}
		b.WriteByte(')')
	}
}

// Walk visits nodes in depth-first, parent-first, left-to-right order.
func (n *Node) Walk(f func(*Node)) {
	f(n)
	if n.L != nil {
		n.L.Walk(f)
	}
	if n.R != nil {
		n.R.Walk(f)
	}
}

// Exprs lists the conditions from left to right.
func (n *Node) Exprs() []*Node {
	var out []*Node
	n.Walk(func(m *Node) {
		if m.Kind == KExpr {
			out = append(out, m)
		}
	})
	return out
}

// Size counts the nodes.
func (n *Node) Size() int {
	s := 0
	n.Walk(func(*Node) { s++ })
	return s
}

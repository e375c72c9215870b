package graphprops

import (
	"encoding/xml"
	"fmt"
	"html"
	"io"
	"strings"
)

// graph is what was read back from an output file.
type graph struct {
	title string
	nodes map[string]*node
	order []string
	edges []edge
}

type node struct {
	attr  map[string]string
	html  bool // the label is markup
	texts []string
}

type edge struct {
	from, to string
	bold     bool
}

// readDOT reads the graph language as far as the output uses it.
func readDOT(src string) (*graph, error) {
	l := &lexer{s: src}
	g := &graph{nodes: map[string]*node{}}
	if l.next().s != "digraph" {
		return nil, fmt.Errorf("not a digraph")
	}
	if t := l.next(); t.s != "{" {
		if t = l.next(); t.s != "{" {
			return nil, fmt.Errorf("no body")
		}
	}
	for {
		t := l.next()
		switch {
		case l.err != nil:
			return nil, l.err
		case t.kind == 0:
			return nil, fmt.Errorf("the graph is not closed")
		case t.s == "}" && t.kind == 'p':
			if rest := l.next(); rest.kind != 0 {
				return nil, fmt.Errorf("%q after the graph", rest.s)
			}
			return g, nil
		case t.s == ";" && t.kind == 'p':
			continue
		case t.kind == 'p':
			return nil, fmt.Errorf("unexpected %q", t.s)
		}
		to := ""
		isEdge := false
		if l.peek() == '-' {
			if a := l.next(); a.s != "->" {
				return nil, fmt.Errorf("unexpected %q", a.s)
			}
			to, isEdge = l.next().s, true
		}
		n := &node{attr: map[string]string{}}
		if l.peek() == '[' {
			l.next()
			for {
				k := l.next()
				if l.err != nil || k.kind == 0 {
					return nil, fmt.Errorf("attributes are not closed: %v", l.err)
				}
				if k.s == "]" && k.kind == 'p' {
					break
				}
				if k.s == "," || k.s == ";" {
					continue
				}
				if eq := l.next(); eq.s != "=" {
					return nil, fmt.Errorf("attribute %q without a value", k.s)
				}
				v := l.next()
				n.attr[k.s] = v.s
				if k.s == "label" {
					n.html = v.kind == 'h'
				}
			}
		}
		switch {
		case isEdge:
			g.edges = append(g.edges, edge{t.s, to, n.attr["penwidth"] == "3"})
		case t.s == "graph" && t.kind == 'i':
			g.title = n.attr["label"]
		case (t.s == "node" || t.s == "edge") && t.kind == 'i':
		default:
			if g.nodes[t.s] != nil {
				return nil, fmt.Errorf("node %q twice", t.s)
			}
			g.nodes[t.s] = n
			g.order = append(g.order, t.s)
		}
	}
}

type token struct {
	kind byte // i identifier, q quoted, h markup, p punctuation, 0 end
	s    string
}

type lexer struct {
	s   string
	i   int
	err error
}

func (l *lexer) peek() byte {
	for l.i < len(l.s) && strings.IndexByte(" \t\r\n", l.s[l.i]) >= 0 {
		l.i++
	}
	if l.i < len(l.s) {
		return l.s[l.i]
	}
	return 0
}

func (l *lexer) next() token {
	c := l.peek()
	switch {
	case c == 0:
		return token{}
	case c == '"':
		var b strings.Builder
		for l.i++; l.i < len(l.s); l.i++ {
			switch c := l.s[l.i]; {
			case c == '"':
				l.i++
				return token{'q', b.String()}
			case c == '\\' && l.i+1 < len(l.s) && l.s[l.i+1] == '"':
				b.WriteByte('"')
				l.i++
			case c == '\\' && l.i+1 < len(l.s) && l.s[l.i+1] == '\\':
				b.WriteString(`\\`)
				l.i++
			case c == '\\' && l.i+1 < len(l.s) && l.s[l.i+1] == '\n':
				l.i++
			default:
				b.WriteByte(c)
			}
		}
		l.err = fmt.Errorf("a quoted text is not closed")
		return token{}
	case c == '<':
		depth := 0
		for start := l.i; l.i < len(l.s); l.i++ {
			switch l.s[l.i] {
			case '<':
				depth++
			case '>':
				if depth--; depth == 0 {
					l.i++
					return token{'h', l.s[start+1 : l.i-1]}
				}
			}
		}
		l.err = fmt.Errorf("markup is not closed")
		return token{}
	case strings.HasPrefix(l.s[l.i:], "->"):
		l.i += 2
		return token{'p', "->"}
	case c == '_' || c == '-' || c == '.' || c >= '0' && c <= '9' || c|0x20 >= 'a' && c|0x20 <= 'z' || c >= 0x80:
		start := l.i
		for l.i < len(l.s) {
			c := l.s[l.i]
			if !(c == '_' || c == '.' || c == '-' && l.i == start || c >= '0' && c <= '9' || c|0x20 >= 'a' && c|0x20 <= 'z' || c >= 0x80) {
				break
			}
			l.i++
		}
		return token{'i', l.s[start:l.i]}
	}
	l.i++
	return token{'p', string(c)}
}

// cells takes the texts out of the table that is the label of a condition.
func cells(markup string) ([]string, error) {
	d := xml.NewDecoder(strings.NewReader(markup))
	d.Strict = true
	var out []string
	in := false
	for {
		t, err := d.Token()
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return nil, err
		}
		switch e := t.(type) {
		case xml.StartElement:
			if e.Name.Local == "TD" {
				in = true
				out = append(out, "")
			}
		case xml.EndElement:
			if e.Name.Local == "TD" {
				in = false
			}
		case xml.CharData:
			if in {
				out[len(out)-1] += string(e)
			}
		}
	}
}

// undouble undoes the substitution of backslashes that drawing makes. A single
// backslash stands for itself only where nothing is substituted.
func undouble(s string) (string, error) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' {
			if i+1 < len(s) && s[i+1] == '\\' {
				i++
			} else if i+1 < len(s) && strings.IndexByte("GNELHTnlr", s[i+1]) >= 0 {
				return "", fmt.Errorf("%q is not shown as it is", s)
			}
		}
		b.WriteByte(s[i])
	}
	return b.String(), nil
}

// readSVG reads the drawing: which texts are shown in which node.
func readSVG(src string) (*graph, error) {
	d := xml.NewDecoder(strings.NewReader(src))
	g := &graph{nodes: map[string]*node{}}
	class, name, elem := "graph", "", ""
	var texts []string
	text := ""
	for {
		t, err := d.Token()
		if err == io.EOF {
			return g, nil
		}
		if err != nil {
			return nil, err
		}
		switch e := t.(type) {
		case xml.StartElement:
			elem = e.Name.Local
			if elem == "g" {
				if class == "graph" && texts != nil {
					g.title = strings.Join(texts, "\n")
				}
				for _, a := range e.Attr {
					if a.Name.Local == "class" {
						class = a.Value
					}
				}
				texts, name = nil, ""
			}
			text = ""
		case xml.CharData:
			text += string(e)
		case xml.EndElement:
			switch e.Name.Local {
			case "title":
				name = text
			case "text":
				texts = append(texts, strings.ReplaceAll(text, "\u00a0", " "))
			case "g":
				switch class {
				case "node":
					if g.nodes[name] != nil {
						return nil, fmt.Errorf("node %q drawn twice", name)
					}
					g.nodes[name] = &node{texts: texts}
				case "edge":
					from, to, _ := strings.Cut(html.UnescapeString(name), "->")
					g.edges = append(g.edges, edge{from: from, to: to})
				}
				class = ""
			}
		}
	}
}

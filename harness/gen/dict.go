package gen

import (
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

// The texts and numbers written in the source of the code under test. What is
// special to the code is often written in it.
var dict struct {
	once sync.Once
	strs []string
	ints []int
}

func loadDict() {
	strs, ints := map[string]bool{}, map[int]bool{}
	root := os.Getenv("VERIF_REPO")
	_ = filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if p != root && strings.HasPrefix(d.Name(), ".") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.HasSuffix(p, "_gen.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BasicLit:
				switch x.Kind {
				case token.STRING, token.CHAR:
					s, err := strconv.Unquote(x.Value)
					if err != nil || !utf8.ValidString(s) {
						return true
					}
					for _, part := range append(strings.FieldsFunc(s, func(c rune) bool { return c == '%' || c == '\n' }), s) {
						if part = strings.TrimSpace(part); part != "" && len(part) <= 60 {
							strs[part] = true
						}
					}
				case token.INT:
					if v, err := strconv.ParseInt(x.Value, 0, 32); err == nil {
						ints[int(v)] = true
					}
				}
			}
			return true
		})
		return nil
	})
	for s := range strs {
		dict.strs = append(dict.strs, s)
	}
	for i := range ints {
		dict.ints = append(dict.ints, i)
	}
	sort.Strings(dict.strs)
	sort.Ints(dict.ints)
	if len(dict.strs) == 0 {
		dict.strs = []string{"error"}
	}
	if len(dict.ints) == 0 {
		dict.ints = []int{8}
	}
}

// Dict gives a text written in the source.
func Dict(r *Rand) string {
	dict.once.Do(loadDict)
	return dict.strs[r.Intn(len(dict.strs))]
}

// DictInt gives a number at or next to one written in the source.
func DictInt(r *Rand) int {
	dict.once.Do(loadDict)
	return dict.ints[r.Intn(len(dict.ints))] + r.Intn(3) - 1
}

// Variables are the texts in the source that could name a variable of the
// environment.
func Variables() []string {
	dict.once.Do(loadDict)
	var out []string
	for _, s := range dict.strs {
		if variable.MatchString(s) && s != "PATH" && s != "HOME" && !strings.HasPrefix(s, "VERIF") {
			out = append(out, s)
		}
	}
	return out
}

var variable = regexp.MustCompile(`^[A-Z][A-Z0-9_]{2,}$`)

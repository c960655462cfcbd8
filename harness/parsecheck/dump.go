package parsecheck

import (
	"fmt"
	"io"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
)

var (
	noID   types.Identifier
	idType = reflect.TypeOf(noID)
)

// dump a statement completely, identifiers by what they are.
func dump(v any) string {
	var b strings.Builder
	dumpValue(&b, reflect.ValueOf(v), 0)
	return b.String()
}

func idString(id types.Identifier) string {
	if id == noID {
		return "#0"
	}
	k := ""
	if id.IsReserved() {
		k = "!"
	}
	return fmt.Sprintf("#%q%s", id.String(), k)
}

func dumpValue(b *strings.Builder, v reflect.Value, d int) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if v.Type() == idType {
		b.WriteString(idString(v.Interface().(types.Identifier)))
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dumpValue(b, v.Elem(), d+1)
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		dumpValue(b, v.Elem(), d+1)
	case reflect.Struct:
		fmt.Fprintf(b, "%s{", v.Type().Name())
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if v.Type().Name() == "Copy" && (f.Name == "From" || f.Name == "FromLine") {
				continue
			}
			b.WriteString(f.Name + ":")
			dumpValue(b, v.Field(i), d+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "%s[", v.Type().Name())
		for i := 0; i < v.Len(); i++ {
			dumpValue(b, v.Index(i), d+1)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.Map:
		var ls []string
		for _, k := range v.MapKeys() {
			var eb strings.Builder
			dumpValue(&eb, k, d+1)
			eb.WriteString(":")
			dumpValue(&eb, v.MapIndex(k), d+1)
			ls = append(ls, eb.String())
		}
		sort.Strings(ls)
		fmt.Fprintf(b, "map[%s]", strings.Join(ls, " "))
	case reflect.Float64, reflect.Float32:
		fmt.Fprintf(b, "%s(%v %x)", v.Type().Name(), v.Float(), math.Float64bits(v.Float()))
	case reflect.String:
		fmt.Fprintf(b, "%s(%q)", v.Type().Name(), v.String())
	case reflect.Bool:
		fmt.Fprintf(b, "%v", v.Bool())
	default:
		switch {
		case v.CanInt():
			fmt.Fprintf(b, "%s(%d)", v.Type().Name(), v.Int())
		case v.CanUint():
			fmt.Fprintf(b, "%s(%d)", v.Type().Name(), v.Uint())
		default:
			fmt.Fprintf(b, "%s(?)", v.Type())
		}
	}
}

// Res is what one call of Parse returned.
type Res struct {
	Stmt string // dump
	Err  string // as it is
	End  bool
	stmt sql.Stmt
}

var position = regexp.MustCompile(`^parser: sim:[0-9]+:[0-9]+: `)

func (r Res) isErr() bool { return r.Err != "" }

// plain is the result without the position of an error.
func (r Res) plain() string {
	switch {
	case r.End:
		return "the end"
	case r.Err != "":
		return "error: " + position.ReplaceAllString(r.Err, "")
	}
	return "statement: " + r.Stmt
}

func (r Res) full() string {
	if r.Err != "" {
		return "error: " + r.Err
	}
	return r.plain()
}

func parse1(p *parser.Parser) Res {
	stmt, err := p.Parse()
	switch {
	case err == io.EOF:
		return Res{End: true}
	case err != nil:
		return Res{Err: err.Error()}
	}
	return Res{Stmt: dump(stmt), stmt: stmt}
}

// parseAll until the end or max results.
func parseAll(rr io.RuneReader, max int) []Res {
	p := parser.NewParser(rr, "sim")
	var rs []Res
	for len(rs) < max {
		r := parse1(p)
		rs = append(rs, r)
		if r.End {
			break
		}
	}
	return rs
}

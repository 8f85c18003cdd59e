package main

// Sweeps shared by several properties: every length of every kind of value at
// every site, every coincidence of field values, and calls repeated any number
// of times.

import (
	"fmt"
	"reflect"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

// sweepLens: dense up to d, then around every power of two up to max.
func sweepLens(d, max int) (out []int) {
	for i := 0; i <= d; i++ {
		out = append(out, i)
	}
	for p := 64; p <= max; p *= 2 {
		for _, x := range []int{p - 2, p - 1, p, p + 1, p + p/2} {
			if x > d && x <= max+1 {
				out = append(out, x)
			}
		}
	}
	return
}

type sweepSite struct {
	name, kind string
	ops        func(s string) []Op
}

var inElem = opStartX(xw.Elem{Name: "e"})
var inDTD = opStartX(xw.DTD{Name: "d"})
var inList = opStartX(xw.DTDAttList{Name: "l"})

func sweepSites() []sweepSite {
	var out []sweepSite
	add := func(name, kind string, f func(s string) []Op) { out = append(out, sweepSite{name, kind, f}) }
	for _, ns := range nameSites {
		ns := ns
		add(ns.name, "name", func(s string) []Op { return append(append([]Op{}, ns.pre...), ns.op(s)) })
	}
	add("Elem.Name, ended by name", "name", func(s string) []Op {
		return []Op{opStartX(xw.Elem{Name: s}), opWriteX(xw.Text("t")), opEndElem(s), opWriteX(xw.Comment{Content: "c"})}
	})
	add("Elem.Name, ended by prefix and name", "name", func(s string) []Op {
		return []Op{opStartX(xw.Elem{Prefix: "p", URI: "u", Name: s}), opWriteX(xw.Text("t")), opEndElemFull("p", s), opWriteX(xw.Comment{Content: "c"})}
	})
	add("Elem.Name, ended by another name", "name", func(s string) []Op {
		return []Op{opStartX(xw.Elem{Name: s}), opEndElem(s + "x"), opEndElem("x" + s), opEndElem(s)}
	})
	add("DTD.Name, ended by name", "name", func(s string) []Op {
		return []Op{opStartX(xw.DTD{Name: s}), opWriteX(xw.DTDElem{Name: s, Decl: "ANY"}), opEnd(xw.DTDNode, s+"x"), opEnd(xw.DTDNode, s)}
	})
	add("DTDAttList.Name, ended by name", "name", func(s string) []Op {
		return []Op{inDTD, opStartX(xw.DTDAttList{Name: s}), opEnd(xw.DTDAttListNode, "x"+s), opEnd(xw.DTDAttListNode, s)}
	})
	add("WriteText", "text", func(s string) []Op { return []Op{inElem, opWriteX(xw.Text(s))} })
	add("Write(Text)", "text", func(s string) []Op {
		return []Op{inElem, opWrite(xw.Text("<")), opWrite(xw.Text(s)), opWrite(xw.Text(">"))}
	})
	add("Elem.Content", "text", func(s string) []Op {
		return []Op{opWriteX(xw.Elem{Name: "e", Content: []xw.Writable{xw.Text(s), xw.Elem{Name: "in", Content: []xw.Writable{xw.Text(s)}}}})}
	})
	add("Block", "text", func(s string) []Op { return []Op{opBlock(xw.Elem{Name: "e"}, xw.Text(s), xw.Text(s))} })
	add("WriteAttr", "attr", func(s string) []Op {
		return []Op{inElem, opWriteX(xw.Attr{Name: "a", Value: s}), opWriteX(xw.Attr{Name: "b", Value: s})}
	})
	add("Elem.Attrs", "attr", func(s string) []Op {
		return []Op{opWriteX(xw.Elem{Name: "e", Attrs: []xw.Attr{{Name: "a", Value: "v"}, {Name: "b", Value: s}, {Prefix: "p", Name: "b", Value: s}}})}
	})
	add("Elem.URI", "attr", func(s string) []Op {
		return []Op{opWriteX(xw.Elem{Prefix: "p", URI: "u" + s, Name: "e", Attrs: []xw.Attr{{Prefix: "q", URI: "u" + s, Name: "b", Value: s}}})}
	})
	add("Attr.URI", "attr", func(s string) []Op {
		return []Op{inElem, opWriteX(xw.Attr{Prefix: "q", URI: s + "u", Name: "b"}), opWriteX(xw.Attr{Prefix: "q", URI: s + "u", Name: "c"}), opWriteX(xw.Attr{Prefix: "q", URI: s + "v", Name: "d"})}
	})
	add("DTDAttr.Value", "attr", func(s string) []Op {
		return []Op{inDTD, inList, opWriteX(xw.DTDAttr{Name: "a", Type: xw.DTDAttrString, Default: xw.DTDAttrDefault, Value: s}), opWrite(xw.DTDAttr{Name: "b", Type: xw.DTDAttrString, Default: xw.DTDAttrFixed, Value: s})}
	})
	add("DTDAttList.Attrs", "attr", func(s string) []Op {
		return []Op{opWriteX(xw.DTDAttList{Name: "l", Attrs: []xw.DTDAttr{{Name: "a", Type: xw.DTDAttrString, Default: xw.DTDAttrDefault, Value: s}, {Name: "b", Type: xw.DTDAttrID}}})}
	})
	add("WriteComment", "comment", func(s string) []Op { return []Op{inElem, opWriteX(xw.Comment{Content: s})} })
	add("Elem.Content comment", "comment", func(s string) []Op {
		return []Op{opWriteX(xw.Elem{Name: "e", Content: []xw.Writable{xw.Comment{Content: s}}})}
	})
	add("StartComment", "comment", func(s string) []Op {
		return []Op{inElem, opStartX(xw.Comment{Content: s}), opEndX(xw.CommentNode)}
	})
	add("comment in DTD", "comment", func(s string) []Op { return []Op{inDTD, opWrite(xw.Comment{Content: s})} })
	add("comment in two pieces", "comment", func(s string) []Op {
		return []Op{opStartX(xw.Comment{}), opWriteX(xw.CommentContent(s)), opWriteX(xw.CommentContent(s)), opEndX(xw.CommentNode)}
	})
	add("comment after initial content", "comment", func(s string) []Op {
		return []Op{opStartX(xw.Comment{Content: "-"}), opWriteX(xw.CommentContent(s)), opWriteX(xw.CommentContent("x"))}
	})
	add("comment initial content continued", "comment", func(s string) []Op {
		return []Op{opStartX(xw.Comment{Content: s}), opWriteX(xw.CommentContent("-")), opWriteX(xw.CommentContent("x"))}
	})
	add("WriteCData", "cdata", func(s string) []Op { return []Op{inElem, opWriteX(xw.CData{Content: s})} })
	add("Elem.Content cdata", "cdata", func(s string) []Op {
		return []Op{opWriteX(xw.Elem{Name: "e", Content: []xw.Writable{xw.CData{Content: s}}})}
	})
	add("cdata in two pieces", "cdata", func(s string) []Op {
		return []Op{inElem, opStartX(xw.CData{}), opWriteX(xw.CDataContent(s)), opWriteX(xw.CDataContent(s)), opEndX(xw.CDataNode)}
	})
	add("cdata after initial content", "cdata", func(s string) []Op {
		return []Op{inElem, opStartX(xw.CData{Content: "]"}), opWriteX(xw.CDataContent(s)), opWriteX(xw.CDataContent(">"))}
	})
	add("cdata initial content continued", "cdata", func(s string) []Op {
		return []Op{inElem, opStartX(xw.CData{Content: s}), opWriteX(xw.CDataContent("]")), opWriteX(xw.CDataContent("]>"))}
	})
	add("WritePI", "pi", func(s string) []Op { return []Op{inElem, opWriteX(xw.PI{Target: "t", Content: s})} })
	add("Write(PI)", "pi", func(s string) []Op { return []Op{opWrite(xw.PI{Target: "t", Content: s}), opWriteX(xw.Comment{})} })
	add("DTD.PublicID", "public", func(s string) []Op {
		return []Op{opStartX(xw.DTD{Name: "d", PublicID: s, SystemID: "s"})}
	})
	add("DTD.SystemID", "system", func(s string) []Op {
		return []Op{opStart(xw.DTD{Name: "d", SystemID: s}), opWriteX(xw.Comment{})}
	})
	add("DTD.SystemID with public", "system", func(s string) []Op {
		return []Op{opStart(xw.DTD{Name: "d", PublicID: "p", SystemID: s})}
	})
	add("Notation.PublicID", "public", func(s string) []Op { return []Op{inDTD, opWriteX(xw.Notation{Name: "n", PublicID: s})} })
	add("Notation both", "public", func(s string) []Op {
		return []Op{inDTD, opWriteX(xw.Notation{Name: "n", PublicID: s, SystemID: s})}
	})
	add("Notation.SystemID", "system", func(s string) []Op { return []Op{inDTD, opWrite(xw.Notation{Name: "n", SystemID: s})} })
	add("DTDEntity.PublicID", "public", func(s string) []Op {
		return []Op{inDTD, opWriteX(xw.DTDEntity{Name: "n", PublicID: s, SystemID: "s"})}
	})
	add("DTDEntity.SystemID", "system", func(s string) []Op {
		return []Op{inDTD, opWrite(xw.DTDEntity{Name: "n", SystemID: s, NDataID: "nd"})}
	})
	add("DTDEntity.SystemID (PE)", "system", func(s string) []Op {
		return []Op{inDTD, opWrite(xw.DTDEntity{Name: "n", IsPE: true, SystemID: s})}
	})
	add("DTDEntity.Content", "system", func(s string) []Op { return []Op{inDTD, opWriteX(xw.DTDEntity{Name: "n", Content: s})} })
	add("DTDEntity.Content (PE)", "system", func(s string) []Op {
		return []Op{inDTD, opWrite(xw.DTDEntity{Name: "n", IsPE: true, Content: s}), opWrite(xw.Comment{})}
	})
	add("DTDElem.Decl", "decl", func(s string) []Op {
		return []Op{inDTD, opWriteX(xw.DTDElem{Name: "n", Decl: "(" + s + ")"})}
	})
	add("DTDAttr.Type", "decl", func(s string) []Op {
		return []Op{inDTD, inList, opWriteX(xw.DTDAttr{Name: "n", Type: xw.DTDAttrType("(" + s + ")")})}
	})
	return out
}

// sweepSpecials are the pieces planted in values of a kind; the first is what
// fills the rest.
var sweepSpecials = map[string][]string{
	"name":    {"n", "", "\x00", "-", "é", "\u00b7", ":", "0", "_", " ", "<", "\xff", "\uFFFF", "\u2190", "\x80"},
	"text":    {"a", "", "é", "<", ">", "&", "'", "\"", "\n", "\r", "\r\n", "\t", "]]>", "]", "\x00", "\x1f", "\x7f", "\xff", "\xc3", "\u20ac", "𐀀", "\uFFFD", "\uFFFE"},
	"attr":    {"a", "", "é", "<", ">", "&", "'", "\"", "\n", "\r", "\r\n", "\t", "\x00", "\xff", "\xe2\x82", "𐀀", "\uFFFE"},
	"comment": {"a", "", "é", "\x01", "-", "--", "->", "-->", "<!--", "\n", "\xff", "\x7f"},
	"cdata":   {"a", "", "é", "\x01", "]", "]]", "]]>", ">", "<![CDATA[", "\n", "\xff", "\x7f"},
	"pi":      {"a", "", "é", "\x01", "?", ">", "?>", "<?", " ", "\n", "\xff", "\x7f"},
	"public":  {"a", "", "\x00", "é", "'", "\"", " ", "\n", "\t", "<", "&", "%"},
	"system":  {"a", "", "\x00", "é", "'", "\"", "'\"", "\n", "<", ">", "&", "%", "\xff", "\x80"},
	"decl":    {"a", "", "|", ","},
}

// sweepValue puts piece sp at place pos of a value of about n bytes.
func sweepValue(fill, sp string, n, pos int) (string, bool) {
	rest := n - len(sp)
	if rest < 0 || sp == "" && pos > 0 {
		return "", false
	}
	r := func(k int) string { return strings.Repeat(fill, k) }
	switch pos {
	case 0:
		return sp + r(rest), true
	case 1:
		return r(rest) + sp, true
	case 2:
		return r(rest/2) + sp + r(rest-rest/2), true
	case 3:
		if rest < 1 {
			return "", false
		}
		return r(rest-1) + sp + r(1), true
	case 4:
		if n > 300 && n > 5000 {
			return "", false
		}
		return strings.Repeat(sp, n/len(sp)), true
	case 5:
		if rest < len(sp)+1 {
			return "", false
		}
		return sp + r(rest-len(sp)) + sp, true
	case 6:
		if rest < 2*len(sp) || n > 5000 {
			return "", false
		}
		// alternate
		var b strings.Builder
		for b.Len() < n {
			b.WriteString(sp)
			b.WriteString(fill)
		}
		return b.String(), true
	}
	return "", false
}

const sweepWhat = "every length (0..%d, then around every power of two up to %d) x seven places for every special piece of the kind (none, start, end, middle, last but one, everywhere, both ends, alternating), and values in which every ordered pair of pieces occurs (all through, and far from the start), at every site of the kinds %v, against the reference model"

func sweepPart(th bool, name string, kinds ...string) Part {
	return sweepBounds(th, name, pick(th, 72, 300), 1<<17, kinds...)
}

// sweepBounds is sweepPart with its own bounds.
func sweepBounds(th bool, name string, dense, max int, kinds ...string) Part {
	return Part{name, fmt.Sprintf(sweepWhat, dense, max, kinds), func(c *Ctx) {
		for _, site := range sweepSites() {
			if !strings.Contains(" "+strings.Join(kinds, " ")+" ", " "+site.kind+" ") {
				continue
			}
			sps := sweepSpecials[site.kind]
			for _, n := range sweepLens(dense, max) {
				for si, sp := range sps[1:] {
					if n > 2100 && si > 8 && !th && site.kind != "text" || n > 25000 && si > 5 && !th {
						continue
					}
					for pos := 0; pos < 7; pos++ {
						if n > 25000 && pos > 1 && !th {
							break
						}
						v, ok := sweepValue(sps[0], sp, n, pos)
						if !ok || !c.Take() {
							continue
						}
						c.Run(func() string { return fmt.Sprintf("%s: %d bytes, %q at place %d", site.name, n, sp, pos) }, func() error {
							return c.ends(site.ops(v), small, false)
						})
					}
				}
				for pos := 0; pos < 3; pos++ {
					v, ok := pairsValue(sps[0], pairPieces[site.kind], n, pos)
					if !ok || !c.Take() {
						continue
					}
					c.Run(func() string {
						return fmt.Sprintf("%s: %d bytes with every pair of %q, place %d", site.name, n, pairPieces[site.kind], pos)
					}, func() error { return c.ends(site.ops(v), small, false) })
				}
			}
		}
	}}
}

// ends runs ops against the reference model and compares the tree, or hands
// them to the judge the part runs under.
func (c *Ctx) ends(ops []Op, st *Setup, short bool) error {
	if c.judge != nil {
		c.res.Traces++
		return shortenOrNil(c.judge(c, ops))
	}
	r, err := runOps(ops, st)
	if err != nil {
		return shorten(err)
	}
	c.res.Traces++
	c.State(r.Final)
	c.Outcome(r.Out)
	if r.Poisoned {
		return nil
	}
	return shortenOrNil(checkTree(r, short))
}

// pairPieces are pieces of a kind that may follow each other in every order.
var pairPieces = map[string][]string{
	"name":    {"n", "-", "0", "_", ".", "é", "\u00b7", "Z", "xml"},
	"text":    {"a", "é", "<", ">", "&", "'", "\"", "\n", "\r", "\t", "]", "𐀀", "\u20ac", ";", "#", "\u0085", "\u007f", " "},
	"attr":    {"a", "é", "<", ">", "&", "'", "\"", "\n", "\r", "\t", "𐀀", "\u20ac", ";", " "},
	"comment": {"a", "é", "-a", "&", "<", ">", "\n", "!", "𐀀"},
	"cdata":   {"a", "é", "]", ">a", "&", "<", "\n", "[", "𐀀"},
	"pi":      {"a", "é", "?a", ">", "<", "&", "\n", "'", "𐀀"},
	"public":  {"a", "'", " ", "%", "-", "/", "(", "Z", "9", "#"},
	"system":  {"a", " ", "é", "<", ">", "&", "'", "]", "-", "?", "!", "\n"},
	"decl":    {"a", "b"},
}

var pairRings = map[string][]string{}

// pairRing is a cycle in which every ordered pair of pieces occurs.
func pairRing(ps []string) []string {
	key := strings.Join(ps, "\x00")
	if r, ok := pairRings[key]; ok {
		return r
	}
	n := len(ps)
	// an Euler cycle of the complete graph with loops
	next := make([]int, n)
	stack, ring := []int{0}, []string{}
	for len(stack) > 0 {
		v := stack[len(stack)-1]
		if next[v] < n {
			next[v]++
			stack = append(stack, next[v]-1)
			continue
		}
		ring = append(ring, ps[v])
		stack = stack[:len(stack)-1]
	}
	ring = ring[:len(ring)-1]
	pairRings[key] = ring
	return ring
}

// pairsValue is a value of about n bytes with every ordered pair of pieces:
// all through (0), at the end (1), or all through beginning elsewhere (2).
func pairsValue(fill string, ps []string, n, pos int) (string, bool) {
	ring := pairRing(ps)
	size := len(strings.Join(ring, ""))
	switch pos {
	case 1:
		if n < size || n > 1<<16 {
			return "", false
		}
		return strings.Repeat(fill, n-size) + strings.Join(ring, "") + ps[1], true
	case 0, 2:
		if n > 5000 {
			return "", false
		}
		var b strings.Builder
		for i := pos * len(ring) / 5; b.Len() < n; i++ {
			b.WriteString(ring[i%len(ring)])
		}
		return b.String(), true
	}
	return "", false
}

func shorten(err error) error {
	if err == errSkip || len(err.Error()) < 1200 {
		return err
	}
	return fmt.Errorf("%s", clip(err.Error()))
}

// --- coincidences -------------------------------------------------------------

// assignments enumerates every assignment of the scalar fields of a node from
// small value sets, so that any two fields coincide in some assignment.
func assignments(proto interface{}, f func(v interface{})) {
	t := reflect.TypeOf(proto)
	v := reflect.New(t).Elem()
	v.Set(reflect.ValueOf(proto))
	var rec func(i int)
	rec = func(i int) {
		if i == t.NumField() {
			f(v.Interface())
			return
		}
		fld := v.Field(i)
		if t.Field(i).PkgPath != "" {
			rec(i + 1)
			return
		}
		old := reflect.New(fld.Type()).Elem()
		old.Set(fld)
		switch {
		case fld.Type() == reflect.TypeOf(xw.DTDAttrInfer):
			for d := int64(xw.DTDAttrInfer); d <= int64(xw.DTDAttrFixed); d++ {
				fld.SetInt(d)
				rec(i + 1)
			}
		case fld.Type() == reflect.TypeOf(xw.DTDAttrID):
			for _, s := range []string{"", "CDATA", "ID", "(x)"} {
				fld.SetString(s)
				rec(i + 1)
			}
		case fld.Kind() == reflect.String:
			for _, s := range []string{"", "x", "y"} {
				fld.SetString(s)
				rec(i + 1)
			}
		case fld.Kind() == reflect.Bool:
			for _, b := range []bool{false, true} {
				fld.SetBool(b)
				rec(i + 1)
			}
		default:
			rec(i + 1)
		}
		fld.Set(old)
	}
	rec(0)
}

func listOf(proto xw.Writable) (out []xw.Writable) {
	assignments(proto, func(v interface{}) { out = append(out, v.(xw.Writable)) })
	return
}

// pairsPart: every pair of nodes of one kind over all assignments.
func pairsPart(kinds ...string) Part {
	type fam struct {
		name  string
		pre   []Op
		proto []xw.Writable
	}
	fams := map[string]fam{
		"declarations": {"declarations", []Op{inDTD}, []xw.Writable{xw.DTDElem{}, xw.DTDEntity{}, xw.Notation{}, xw.Comment{}, xw.DTDAttList{}}},
		"attdefs":      {"attdefs", []Op{inDTD, inList}, []xw.Writable{xw.DTDAttr{}}},
		"content":      {"content", []Op{inElem}, []xw.Writable{xw.Elem{}, xw.Comment{}, xw.CData{}, xw.PI{}}},
	}
	return Part{"coincidences", fmt.Sprintf("every pair (first, second) of nodes of the families %v, over all assignments of their fields from {\"\", x, y} (and every flag), written one after the other: every coincidence of two values occurs", kinds), func(c *Ctx) {
		for _, k := range kinds {
			fm := fams[k]
			var all []xw.Writable
			for _, p := range fm.proto {
				all = append(all, listOf(p)...)
			}
			// pairs: the second member ranges over everything; the first over
			// what the model accepts
			var firsts []xw.Writable
			for _, n := range all {
				if _, ok := modelState(append(append([]Op{}, fm.pre...), opWrite(n))); ok {
					firsts = append(firsts, n)
				}
			}
			for _, a := range firsts {
				for _, b := range all {
					if !c.Take() {
						continue
					}
					a, b := a, b
					ops := append(append([]Op{}, fm.pre...), opWrite(a), opWriteX(b))
					c.Run(func() string { return descOps(ops) }, func() error { return runJudge(c, ops) })
				}
			}
		}
	}}
}

func runJudge(c *Ctx, ops []Op) error { return c.ends(ops, small, true) }

// elemCoincidences: element, attribute and child element over all assignments.
func elemCoincidences() Part {
	return Part{"coincidences", "an element, an attribute (in Attrs, by WriteAttr, or none) and a child element (started, or structured) over all assignments of their Prefix, URI, Name, Value and Full from {\"\", x, y}", func(c *Ctx) {
		es := listOf(xw.Elem{})
		var as []xw.Attr
		assignments(xw.Attr{}, func(v interface{}) { as = append(as, v.(xw.Attr)) })
		for _, e0 := range es {
			e := e0.(xw.Elem)
			if e.Name == "" {
				continue
			}
			for ai := -1; ai < len(as); ai++ {
				for way := 0; way < 2; way++ {
					if ai < 0 && way == 1 {
						continue
					}
					for _, c0 := range es {
						if !c.Take() {
							continue
						}
						kid := c0.(xw.Elem)
						el := e
						ops := []Op{}
						if ai >= 0 && way == 0 {
							el.Attrs = []xw.Attr{as[ai]}
						}
						ops = append(ops, opStartX(el))
						if way == 1 {
							ops = append(ops, opWriteX(as[ai]))
						}
						if way == 0 && kid.Full {
							kid.Attrs = el.Attrs
						}
						ops = append(ops, opWriteX(kid), opEndElem(e.Prefix, e.Name))
						c.Run(func() string { return descOps(ops) }, func() error { return runJudge(c, ops) })
					}
				}
			}
		}
	}}
}

// --- repetition ---------------------------------------------------------------

// homes are call sequences to the places where a call can be repeated.
func homes() [][]Op {
	return [][]Op{
		nil,
		{opStart(xw.Doc{})},
		{inElem},
		{opStart(xw.Doc{}), inElem, opNext()},
		{inDTD},
		{inDTD, inList},
		{opStartX(xw.Comment{})},
		{inElem, opStartX(xw.CData{})},
	}
}

func repeatPart(th bool) Part {
	ns := []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129}
	if th {
		ns = append(ns, 11, 13, 14, 18, 19, 20, 24, 25, 48, 99, 100, 101, 255, 256, 257, 511, 512, 513, 1000)
	}
	return Part{"repeated-calls", fmt.Sprintf("in each of 8 places: the same call (same values) of the full alphabet repeated n times, n in %v, followed by every call", ns), func(c *Ctx) {
		al := alphaFull(0)
		for _, h := range homes() {
			for _, a := range al {
				if _, ok := modelState(append(append([]Op{}, h...), a)); !ok {
					continue
				}
				for _, n := range ns {
					for _, b := range al {
						if !c.Take() {
							continue
						}
						h, a, b, n := h, a, b, n
						c.Run(func() string { return fmt.Sprintf("%s; %d times %s; %s", descOps(h), n, a.Desc, b.Desc) }, func() error {
							ops := append([]Op{}, h...)
							for i := 0; i < n; i++ {
								ops = append(ops, a)
							}
							return runJudge(c, append(ops, b))
						})
					}
				}
			}
		}
	}}
}

// sameValues makes an alphabet that does not depend on the position, so that
// equal calls follow each other.
func sameValues(f func(i int) []Op) func(i int) []Op {
	return func(int) []Op { return f(0) }
}

// blocksPart: Block over every list of up to n writables.
func blocksPart(th bool) Part {
	return Part{"blocks", fmt.Sprintf("Block over every list of up to %d nodes (equal ones included) for every startable node", pick(th, 3, 4)), func(c *Ctx) {
		in := []struct {
			pre []Op
			s   []xw.Startable
			ns  []xw.Writable
		}{
			{nil, []xw.Startable{xw.Elem{Name: "e"}, xw.Elem{Name: "e", Full: true, Attrs: []xw.Attr{{Name: "z", Value: "1"}}}, xw.Elem{Name: "e", Content: []xw.Writable{xw.Text("t")}}}, []xw.Writable{
				xw.Text("t"), xw.Text("&"), xw.Text(""), xw.Text("]]"), xw.Text(">"), xw.Comment{Content: "c"}, xw.Comment{}, xw.CData{Content: "d"}, xw.CData{}, xw.PI{Target: "p"}, xw.PI{Target: "p", Content: "x"},
				xw.Elem{Name: "k"}, xw.Elem{Name: "e", Content: []xw.Writable{xw.Text("t"), xw.Text("t")}}, xw.Attr{Name: "a", Value: "v"}, xw.Attr{Prefix: "p", URI: "u", Name: "b"}}},
			{[]Op{inElem}, []xw.Startable{xw.CData{}, xw.CData{Content: "d"}}, []xw.Writable{xw.CDataContent("d"), xw.CDataContent(""), xw.CDataContent("]"), xw.CDataContent(">"), xw.CDataContent("]]")}},
			{nil, []xw.Startable{xw.Comment{}, xw.Comment{Content: "c"}, xw.Comment{Content: "-"}}, []xw.Writable{xw.CommentContent("c"), xw.CommentContent(""), xw.CommentContent("-"), xw.CommentContent(">")}},
			{[]Op{opStart(xw.Doc{})}, []xw.Startable{xw.DTD{Name: "d"}, xw.DTD{Name: "d", PublicID: "p", SystemID: "s"}}, []xw.Writable{
				xw.DTDElem{Name: "x", Decl: "ANY"}, xw.DTDEntity{Name: "x", Content: "x"}, xw.DTDEntity{Name: "x", IsPE: true, SystemID: "x"}, xw.Notation{Name: "x", PublicID: "x"}, xw.Comment{Content: "x"},
				xw.DTDAttList{Name: "x"}, xw.DTDAttList{Name: "x", Attrs: []xw.DTDAttr{{Name: "x", Type: "ID"}, {Name: "x", Type: "ID"}}}}},
			{[]Op{inDTD}, []xw.Startable{xw.DTDAttList{Name: "l"}, xw.DTDAttList{Name: "l", Attrs: []xw.DTDAttr{{Name: "a", Type: "CDATA"}}}}, []xw.Writable{
				xw.DTDAttr{Name: "a", Type: "CDATA"}, xw.DTDAttr{Name: "a", Type: "CDATA", Value: "v"}, xw.DTDAttr{Name: "b", Type: "ID", Default: xw.DTDAttrRequired}, xw.DTDAttr{Name: "b", Type: "ID", Default: xw.DTDAttrFixed, Value: "a"}}},
			{nil, []xw.Startable{xw.Doc{}}, []xw.Writable{xw.Comment{Content: "c"}, xw.PI{Target: "p"}, xw.Elem{Name: "r"}}},
		}
		max := pick(th, 3, 4)
		for _, g := range in {
			for _, s := range g.s {
				var rec func(ns []xw.Writable)
				rec = func(ns []xw.Writable) {
					if c.Stop() {
						return
					}
					if c.Take() {
						ops := append(append([]Op{}, g.pre...), opBlock(s, ns...))
						c.Run(func() string { return descOps(ops) }, func() error { return runJudge(c, ops) })
					}
					if len(ns) == max {
						return
					}
					for _, n := range g.ns {
						rec(append(ns[:len(ns):len(ns)], n))
					}
				}
				rec(nil)
			}
		}
	}}
}

// textPieces: text in pieces around the CDATA end delimiter.
func textPieces(i int) []Op {
	return []Op{
		opWriteX(xw.Text("]")), opWriteX(xw.Text("]]")), opWriteX(xw.Text(">")), opWrite(xw.Text("a>")), opWrite(xw.Text("")), opWrite(xw.Text("]]>")), opWriteX(xw.Text("\n")),
		opNext(), opWriteX(xw.Comment{Content: "c"}), opWriteX(xw.CData{Content: "]]"}), opWriteX(xw.PI{Target: "p"}), opFlush(), opStartX(xw.Elem{Name: "k"}), opEndAny(),
	}
}

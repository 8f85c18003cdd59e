package main

// Lists of every length, contexts at every depth, near-equal URIs, and names
// beside every combination of a node's other fields.

import (
	"fmt"
	"reflect"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

// opMany makes one call out of several nodes.
func opMany(desc string, do func(w *xw.Writer) error, ms ...func(m *Model) Verdict) Op {
	return Op{Desc: desc, Do: do, M: func(m *Model) Verdict {
		for i, f := range ms {
			if v := f(m); v != Accept {
				if i > 0 {
					v = deferred(v)
				}
				return v
			}
		}
		return Accept
	}}

}

func opWriteMany(ns ...xw.Writable) Op {
	var ms []func(m *Model) Verdict
	for _, n := range ns {
		ms = append(ms, opWrite(n).M)
	}
	o := opMany(fmt.Sprintf("w.Write(<%d nodes>)", len(ns)), func(w *xw.Writer) error { return w.Write(ns...) }, ms...)
	o.Nodes = ns
	return o
}

func opWriteAttrs(as ...xw.Attr) Op {
	var ms []func(m *Model) Verdict
	for _, a := range as {
		ms = append(ms, opWrite(a).M)
	}
	o := opMany(fmt.Sprintf("w.WriteAttr(<%d attributes>)", len(as)), func(w *xw.Writer) error { return w.WriteAttr(as...) }, ms...)
	for _, a := range as {
		o.Nodes = append(o.Nodes, a)
	}
	return o
}

func opStartMany(ss ...xw.Startable) Op {
	var ms []func(m *Model) Verdict
	for _, s := range ss {
		ms = append(ms, opStart(s).M)
	}
	o := opMany(fmt.Sprintf("w.Start(<%d nodes>)", len(ss)), func(w *xw.Writer) error { return w.Start(ss...) }, ms...)
	o.Starts = ss
	return o
}

// listsPart: one call that carries a list, of every length.
func listsPart(th bool) Part {
	dense, max := 70, 2048
	if th {
		dense, max = 300, 16384
	}
	name := func(p string, i int) string { return fmt.Sprintf("%s%d", p, i) }
	kid := func(i int) xw.Writable {
		switch i % 9 {
		case 5:
			return xw.Text("")
		case 6:
			return xw.Comment{}
		case 7:
			return xw.CData{}
		case 8:
			return xw.Elem{Name: "k", Full: true}
		case 0:
			return xw.Elem{Name: name("k", i)}
		case 1:
			return xw.Text(name("t<", i))
		case 2:
			return xw.Comment{Content: name("c", i)}
		case 3:
			return xw.CData{Content: name("d", i)}
		}
		return xw.Elem{Name: name("w", i), Attrs: []xw.Attr{{Name: "a", Value: "&"}}, Content: []xw.Writable{xw.Text("x")}}
	}
	decl := func(i int) xw.Writable {
		switch i % 9 {
		case 5:
			return xw.Comment{}
		case 6:
			return xw.DTDAttList{Name: name("l", i)}
		case 7:
			return xw.DTDEntity{Name: name("n", i), IsPE: true, PublicID: "p", SystemID: name("s'", i)}
		case 8:
			return xw.DTDEntity{Name: name("n", i), Content: ""}
		case 0:
			return xw.DTDElem{Name: name("e", i), Decl: "ANY"}
		case 1:
			return xw.DTDEntity{Name: name("n", i), Content: name("\"", i)}
		case 2:
			return xw.Notation{Name: name("o", i), SystemID: name("s", i)}
		case 3:
			return xw.DTDAttList{Name: name("l", i), Attrs: []xw.DTDAttr{{Name: "a", Type: "ID"}}}
		}
		return xw.Comment{Content: name("c", i)}
	}
	kinds := []struct {
		name string
		cap  int
		ops  func(n int) []Op
	}{
		{"Elem.Attrs", 1100, func(n int) []Op {
			var as []xw.Attr
			for i := 0; i < n; i++ {
				as = append(as, xw.Attr{Name: name("a", i), Value: name("v\"", i)})
			}
			return []Op{opWriteX(xw.Elem{Name: "e", Attrs: as}), opStart(xw.Elem{Name: "f", Attrs: as}), opWrite(xw.Text("t"))}
		}},
		{"Elem.Attrs, prefixed", 600, func(n int) []Op {
			var as []xw.Attr
			for i := 0; i < n; i++ {
				as = append(as, xw.Attr{Prefix: name("p", i/2), URI: name("u", i/2), Name: name("a", i), Value: "v"})
			}
			return []Op{opWrite(xw.Elem{Name: "e", Attrs: as}), opWriteX(xw.Elem{Prefix: "p0", URI: "u0", Name: "f", Attrs: as})}
		}},
		{"WriteAttr", 1100, func(n int) []Op {
			var as []xw.Attr
			for i := 0; i < n; i++ {
				as = append(as, xw.Attr{Name: name("a", i), Value: name("v", i)})
			}
			return []Op{opStart(xw.Elem{Name: "e"}), opWriteAttrs(as...), opWrite(xw.Attr{Name: "z"})}
		}},
		{"Write(attributes)", 1100, func(n int) []Op {
			var as []xw.Writable
			for i := 0; i < n; i++ {
				as = append(as, xw.Attr{Name: name("a", i), Value: name("v", i)})
			}
			return []Op{opStart(xw.Elem{Name: "e"}), opWriteMany(as...)}
		}},
		{"Elem.Content", max + 2, func(n int) []Op {
			var ks []xw.Writable
			for i := 0; i < n; i++ {
				ks = append(ks, kid(i))
			}
			return []Op{opWriteX(xw.Elem{Name: "e", Content: ks}), opStart(xw.Elem{Name: "f", Content: ks}), opWrite(xw.Text("t"))}
		}},
		{"Write(nodes)", max + 2, func(n int) []Op {
			var ks []xw.Writable
			for i := 0; i < n; i++ {
				ks = append(ks, kid(i))
			}
			return []Op{inElem, opWriteMany(ks...), opEndElem("e")}
		}},
		{"Block", max + 2, func(n int) []Op {
			var ks []xw.Writable
			for i := 0; i < n; i++ {
				ks = append(ks, kid(i))
			}
			return []Op{inElem, opBlock(xw.Elem{Name: "b", Full: true}, ks...), opWrite(xw.Text("t"))}
		}},
		{"Block of a DTD", max + 2, func(n int) []Op {
			var ks []xw.Writable
			for i := 0; i < n; i++ {
				ks = append(ks, decl(i))
			}
			return []Op{opStart(xw.Doc{}), opBlock(xw.DTD{Name: "d"}, ks...), opWrite(xw.Elem{Name: "d"})}
		}},
		{"Write(declarations)", max + 2, func(n int) []Op {
			var ks []xw.Writable
			for i := 0; i < n; i++ {
				ks = append(ks, decl(i))
			}
			return []Op{opStart(xw.Doc{}), inDTD, opWriteMany(ks...), opEndX(xw.DTDNode)}
		}},
		{"DTDAttList.Attrs", max + 2, func(n int) []Op {
			var as []xw.DTDAttr
			for i := 0; i < n; i++ {
				as = append(as, xw.DTDAttr{Name: name("a", i), Type: "CDATA", Value: name("v", i)})
			}
			return []Op{inDTD, opWriteX(xw.DTDAttList{Name: "l", Attrs: as}), opStart(xw.DTDAttList{Name: "m", Attrs: as}), opWrite(xw.DTDAttr{Name: "z", Type: "ID"})}
		}},
		{"Start", 600, func(n int) []Op {
			var ss []xw.Startable
			for i := 0; i < n; i++ {
				ss = append(ss, xw.Elem{Name: name("s", i)})
			}
			return []Op{opStartMany(ss...), opWrite(xw.Text("t")), opEndAll()}
		}},
		{"comment in pieces", max + 2, func(n int) []Op {
			ops := []Op{opStart(xw.Comment{Content: "-"})}
			for i := 0; i < n; i++ {
				ops = append(ops, opWrite(xw.CommentContent(name("p-", i))))
			}
			return append(ops, opEndX(xw.CommentNode))
		}},
		{"comment in pieces, by one call", max + 2, func(n int) []Op {
			var ks []xw.Writable
			for i := 0; i < n; i++ {
				ks = append(ks, xw.CommentContent(name("p", i)))
			}
			return []Op{opBlock(xw.Comment{}, ks...)}
		}},
	}
	return Part{"lists", fmt.Sprintf("every call or node that carries a list, with 0..%d items and around every power of two up to %d, with buffers of 16, 64 and 2048 bytes: every item is there, once, in order", dense, max), func(c *Ctx) {
		for _, k := range kinds {
			for _, n := range sweepLens(dense, max) {
				if n > k.cap {
					continue
				}
				for _, bs := range []int{16, 64, 2048} {
					if c.judge != nil && bs > 16 {
						continue
					}
					k, n, bs := k, n, bs
					c.Case(func() string { return fmt.Sprintf("%s: %d items, buffer %d", k.name, n, bs) }, func() error {
						return c.ends(k.ops(n), bufSetup(bs), true)
					})
				}
			}
		}
	}}
}

func shortenOrNil(err error) error {
	if err == nil {
		return nil
	}
	return shorten(err)
}

// deepContexts are the control states below k plain elements.
func deepContexts(k, open, max int) []context {
	pre := make([]Op, k)
	for i := range pre {
		pre[i] = opStartX(xw.Elem{Name: fmt.Sprintf("k%d", i)})
	}
	cs, _ := contexts(alphaStates(), open, max)
	var out []context
	for _, cx := range cs {
		ops := append(append([]Op{}, pre...), cx.ops...)
		m, ok := modelState(ops)
		if !ok {
			continue
		}
		good := true
		mm := newModel()
		for _, o := range ops {
			if o.M(mm) != Accept {
				good = false
				break
			}
		}
		if good {
			out = append(out, context{ops: ops, key: m.canon()})
		}
	}
	return out
}

func deepDepths(th bool) []int {
	out := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 17, 30, 31, 32, 33, 63, 64, 65}
	if th {
		for i := 18; i < 150; i++ {
			out = append(out, i)
		}
	}
	return out
}

const deepWhat = "below %v plain elements (around every growth of the stack), in every control state of up to two more open nodes: %s"

// atDepthPart makes every probe at many depths.
func atDepthPart(th bool, what string, ps func() []Op) Part {
	return atDepthBounds(th, deepDepths(th), what, ps)
}

func deepDepthsCross(th bool) []int {
	if th {
		return deepDepths(false)
	}
	return []int{3, 5, 15, 16, 33, 65}
}

func atDepthBounds(th bool, ds []int, what string, ps func() []Op) Part {
	return Part{"at-depth", fmt.Sprintf(deepWhat, ds, what), func(c *Ctx) {
		after := []Op{opFlush(), opWrite(xw.Attr{Name: "fa", Value: "v"}), opEndAny(), opWrite(xw.Text("t"))}
		probes := ps()
		for _, d := range ds {
			if c.Stop() {
				return
			}
			for _, cx := range deepContexts(d, 2, 60) {
				for _, o := range probes {
					if !c.Take() {
						continue
					}
					cx, o := cx, o
					c.Run(func() string { return descOps(append(append([]Op{}, cx.ops...), o)) }, func() error {
						ops := append(append([]Op{}, cx.ops...), o)
						if c.judge != nil {
							return c.ends(ops, nil, true)
						}
						r, err := runOps(ops, &Setup{})
						if err != nil {
							return err
						}
						c.res.Traces++
						c.State(cx.key)
						c.Trans(cx.key, o.Desc)
						c.Outcome(r.Out + r.Verdicts[len(ops)-1].String())
						if r.Verdicts[len(ops)-1] == Refuse {
							for _, f := range after {
								if err := noEffect(cx.ops, o, []Op{f}); err != nil {
									return err
								}
							}
						}
						if r.Poisoned {
							return nil
						}
						return checkTree(r, true)
					})
				}
			}
		}
	}}
}

// nearURIs differ in one small thing each.
func nearURIs() []string {
	b := "http://example.com/a/b"
	out := []string{b, b + "/", "http://example.com/a/b//", "HTTP://example.com/a/b", "http://EXAMPLE.com/a/b", "http://example.com/a/B", "https://example.com/a/b",
		"http://example.com:80/a/b", "http://example.com/a/./b", "http://example.com/a/b#", "http://example.com/a/b?", "http://example.com/a/%62", "http://example.com/a/%6a", "http://example.com/a/%6A",
		" " + b, b + " ", b + "\n", "\t" + b, b + "\u00a0", b + "b", b[:len(b)-1], b[1:], b + "\u0000"[:0] + "é", b + "e\u0301", "urn:a", "urn:A", "URN:a", "urn:a:", "a", "A", "b", "/", "//", " ", "  ", "#", "é", "ê"}
	// one byte changed at each place
	for i := 0; i < len(b); i += 3 {
		out = append(out, b[:i]+"_"+b[i+1:])
	}
	long := strings.Repeat("x", 300)
	out = append(out, long, long[1:], long+"y", "y"+long[1:], long[:150]+"y"+long[151:])
	return out
}

func uriPairsPart() Part {
	return Part{"near-uris", fmt.Sprintf("every ordered pair of %d URIs that differ in a small thing (slash, case, white space, escape, port, one byte anywhere, length), given to one prefix: as two attributes of one element in every way, as element and attribute, and as parent and child", len(nearURIs())), func(c *Ctx) {
		us := nearURIs()
		for _, u := range us {
			for _, v := range us {
				u, v := u, v
				pa, pb := xw.Attr{Prefix: "p", URI: u, Name: "a", Value: "1"}, xw.Attr{Prefix: "p", URI: v, Name: "b", Value: "2"}
				e := xw.Elem{Prefix: "p", URI: u, Name: "e"}
				ea := e
				ea.Attrs = []xw.Attr{pb}
				for i, ops := range [][]Op{
					{opStart(xw.Elem{Name: "e"}), opWrite(pa), opWrite(pb)},
					{opStart(xw.Elem{Name: "e", Attrs: []xw.Attr{pa}}), opWriteX(pb), opWrite(xw.Text("t"))},
					{opStart(xw.Elem{Name: "e", Attrs: []xw.Attr{pa, pb}})},
					{opStart(e), opWriteX(pb)},
					{opStart(ea)},
					{opStart(e), opStart(xw.Elem{Prefix: "p", URI: v, Name: "f"}), opEndElem("p", "f"), opWrite(xw.Elem{Name: "g", Attrs: []xw.Attr{pb}})},
					{opWrite(xw.Elem{Prefix: "p", URI: u, Name: "e", Content: []xw.Writable{xw.Elem{Prefix: "p", URI: v, Name: "f"}}})},
					{opStart(xw.Elem{URI: u, Name: "e"}), opStart(xw.Elem{URI: v, Name: "f"}), opWrite(pa)},
				} {
					i, ops := i, ops
					c.Case(func() string { return fmt.Sprintf("way %d: %s", i, descOps(ops)) }, func() error {
						return c.ends(ops, small, false)
					})
				}
			}
		}
	}}
}

// nameFieldsPart puts good and bad names beside every combination of the
// node's other fields.
func nameFieldsPart() Part {
	type site struct {
		pre    []Op
		proto  interface{}
		fields []string
	}
	sites := []site{
		{nil, xw.Elem{}, []string{"Name", "Prefix"}}, {[]Op{inElem}, xw.Elem{}, []string{"Name", "Prefix"}},
		{[]Op{inElem}, xw.Attr{}, []string{"Name", "Prefix"}}, {nil, xw.Attr{}, []string{"Name", "Prefix"}},
		{[]Op{inElem}, xw.PI{}, []string{"Target"}},
		{nil, xw.DTD{}, []string{"Name"}}, {[]Op{opStart(xw.Doc{})}, xw.DTD{}, []string{"Name"}},
		{[]Op{inDTD}, xw.DTDElem{}, []string{"Name"}}, {nil, xw.DTDElem{}, []string{"Name"}},
		{[]Op{inDTD}, xw.DTDEntity{}, []string{"Name", "NDataID"}}, {nil, xw.DTDEntity{}, []string{"Name", "NDataID"}},
		{[]Op{inDTD}, xw.DTDAttList{}, []string{"Name"}},
		{[]Op{inDTD, inList}, xw.DTDAttr{}, []string{"Name"}},
		{[]Op{inDTD}, xw.Notation{}, []string{"Name"}},
	}
	names := []string{"", "ok", "é", "a.b", "a b", "1a", "-", "<", "a>", "a/", "\x00", "\xff", " a", "a\n", "a=\"", "%a"}
	return Part{"fields", fmt.Sprintf("every name field of every node with each of %q, beside every assignment of the node's other fields from {\"\", x, y} and every flag, through every entry point", names), func(c *Ctx) {
		for _, st := range sites {
			for _, fld := range st.fields {
				assignments(st.proto, func(v interface{}) {
					if reflect.ValueOf(v).FieldByName(fld).String() != "x" {
						return
					}
					for _, nm := range names {
						rv := reflect.New(reflect.TypeOf(v)).Elem()
						rv.Set(reflect.ValueOf(v))
						rv.FieldByName(fld).SetString(nm)
						var probes []Op
						if s, ok := rv.Interface().(xw.Startable); ok {
							probes = append(probes, opStart(s), opStartX(s), opBlock(s))
						}
						if n, ok := rv.Interface().(xw.Writable); ok {
							probes = append(probes, opWrite(n), opWriteX(n))
						}
						for _, o := range probes {
							ops := append(append([]Op{}, st.pre...), o)
							c.Case(func() string { return descOps(ops) }, func() error {
								return c.ends(ops, small, false)
							})
						}
					}
				})
			}
		}
	}}
}

// delimFieldsPart: markup delimiters in every two fields of every node.
func delimFieldsPart(judge func(ops []Op, r *runResult) error) Part {
	delims := []string{"", "x", "]", "]>", "]]>", "[", ">", "<", "<!", "?>", "--", "-->", "-", "%", "%x;", "'", "\"", "/", "/>", "=", "[CDATA[", "&", "&lt;", "&#0;", " ", "xmlns", "xml", "SYSTEM", "PUBLIC", "NDATA", "!", "#"}
	type site struct {
		pre   []Op
		proto interface{}
		after []Op
	}
	decl := func(i int) Op { return opWrite(xw.DTDElem{Name: fmt.Sprintf("d%d", i), Decl: "ANY"}) }
	sites := []site{
		{nil, xw.DTD{Name: "d"}, nil}, {nil, xw.DTD{Name: "d"}, []Op{decl(1)}}, {nil, xw.DTD{Name: "d"}, []Op{decl(1), decl(2)}}, {[]Op{opStart(xw.Doc{})}, xw.DTD{Name: "d"}, []Op{decl(1), opEndX(xw.DTDNode), opWrite(xw.Elem{Name: "d"})}},
		{[]Op{inDTD}, xw.DTDEntity{Name: "n"}, []Op{decl(1)}}, {[]Op{inDTD}, xw.DTDEntity{Name: "n", IsPE: true}, nil},
		{[]Op{inDTD}, xw.Notation{Name: "n"}, []Op{decl(1)}},
		{[]Op{inDTD, inList}, xw.DTDAttr{Name: "n", Type: "CDATA"}, nil},
		{[]Op{inDTD, inList}, xw.DTDAttr{Name: "n", Type: "CDATA", Default: xw.DTDAttrFixed}, []Op{opEndX(xw.DTDAttListNode), decl(1)}},
		{nil, xw.Elem{Name: "e"}, []Op{opWrite(xw.Text("t"))}}, {[]Op{inElem}, xw.Elem{Name: "e"}, nil},
		{[]Op{inElem}, xw.Attr{Name: "a"}, []Op{opWrite(xw.Attr{Name: "z"}), opWrite(xw.Text("t"))}},
		{[]Op{inElem}, xw.PI{Target: "t"}, []Op{opWrite(xw.Text("t"))}},
		{[]Op{inElem}, xw.Comment{}, []Op{opWrite(xw.Text("t"))}}, {[]Op{inElem}, xw.CData{}, []Op{opWrite(xw.Text("t"))}},
	}
	return Part{"delimiters", fmt.Sprintf("every two fields of every node with every two of %d strings that mean something in markup, alone and followed by other nodes", len(delims)), func(c *Ctx) {
		for _, st := range sites {
			t := reflect.TypeOf(st.proto)
			var fs []int
			for i := 0; i < t.NumField(); i++ {
				if t.Field(i).PkgPath == "" && t.Field(i).Type.Kind() == reflect.String && t.Field(i).Name != "Type" && t.Field(i).Name != "Decl" {
					fs = append(fs, i)
				}
			}
			for a := 0; a < len(fs); a++ {
				for b := a; b < len(fs); b++ {
					for _, x := range delims {
						for _, y := range delims {
							if a == b && x != y {
								continue
							}
							for rest := 0; rest < 2; rest++ {
								rv := reflect.New(t).Elem()
								rv.Set(reflect.ValueOf(st.proto))
								if rest == 1 {
									for _, f := range fs {
										if rv.Field(f).String() == "" {
											rv.Field(f).SetString("r")
										}
									}
								}
								rv.Field(fs[a]).SetString(x)
								rv.Field(fs[b]).SetString(y)
								ops := append([]Op{}, st.pre...)
								s, startable := rv.Interface().(xw.Startable)
								n, writable := rv.Interface().(xw.Writable)
								if startable && (!writable || len(st.after) > 0 || rest == 0) {
									ops = append(ops, opStartX(s))
								} else {
									ops = append(ops, opWriteX(n))
								}
								m := newModel()
								v := Accept
								for _, o := range ops {
									if v = o.M(m); v != Accept {
										break
									}
								}
								if v == Out {
									continue
								}
								if v == Accept {
									for _, o := range st.after {
										if mm := o.M(m); mm == Accept {
											ops = append(ops, o)
										}
									}
								}
								c.Case(func() string { return descOps(ops) }, func() error {
									if c.judge != nil {
										return c.ends(ops, small, false)
									}
									r, err := runOps(ops, small)
									if err != nil {
										return err
									}
									c.res.Traces++
									c.Outcome(r.Out)
									return judge(ops, r)
								})
							}
						}
					}
				}
			}
		}
	}}
}

// prefixesPart: any number of namespace prefixes.
func prefixesPart(th bool) Part {
	dense, max := 40, 512
	if th {
		dense, max = 140, 2048
	}
	at := func(i, k int, u string) xw.Attr {
		return xw.Attr{Prefix: fmt.Sprintf("p%d", i), URI: u, Name: fmt.Sprintf("a%d", k), Value: "v"}
	}
	own := func(i, k int) xw.Attr { return at(i, k, fmt.Sprintf("u%d", i)) }
	e := xw.Elem{Name: "e"}
	ways := []struct {
		name string
		ops  func(n int) []Op
	}{
		{"each used twice at once", func(n int) []Op {
			ops := []Op{opStart(e)}
			for i := 0; i < n; i++ {
				ops = append(ops, opWriteX(own(i, 0)), opWriteX(own(i, 1)))
			}
			return append(ops, opWrite(xw.Text("t")))
		}},
		{"each used again later", func(n int) []Op {
			var as []xw.Attr
			for k := 0; k < 2; k++ {
				for i := 0; i < n; i++ {
					as = append(as, own(i, k))
				}
			}
			f := xw.Elem{Prefix: "p0", URI: "u0", Name: "f", Attrs: as}
			return []Op{opStart(f), opWrite(f), opWriteX(f)}
		}},
		{"each used again later, backwards", func(n int) []Op {
			ops := []Op{opStart(e)}
			for i := 0; i < n; i++ {
				ops = append(ops, opWriteX(own(i, 0)))
			}
			for i := n - 1; i >= 0; i-- {
				ops = append(ops, opWrite(own(i, 1)))
			}
			return ops
		}},
		{"each then given another URI", func(n int) []Op {
			ops := []Op{opStart(e)}
			for i := 0; i < n; i++ {
				ops = append(ops, opWriteX(own(i, 0)))
			}
			for i := 0; i < n; i++ {
				ops = append(ops, opWriteX(at(i, 1, "other")), opWriteX(at(i, 2, fmt.Sprintf("u%d", i+1))))
			}
			return append(ops, opWrite(xw.Text("t")))
		}},
		{"each given another URI at once", func(n int) []Op {
			ops := []Op{opStart(e)}
			for i := 0; i < n; i++ {
				ops = append(ops, opWriteX(own(i, 0)), opWrite(at(i, 1, "other")))
			}
			return ops
		}},
		{"all with one URI", func(n int) []Op {
			ops := []Op{opStart(xw.Elem{Prefix: "p0", URI: "same", Name: "e"})}
			for i := 0; i < n; i++ {
				ops = append(ops, opWriteX(at(i, 0, "same")), opWriteX(at(i, 1, "")), opWriteX(at(i, 2, "same")))
			}
			return append(ops, opEndAny())
		}},
		{"declared again by a child", func(n int) []Op {
			ops := []Op{opStart(e)}
			for lvl := 0; lvl < 3; lvl++ {
				for i := 0; i < n; i++ {
					ops = append(ops, opWriteX(at(i, 0, fmt.Sprintf("u%d", i+lvl/2))))
				}
				ops = append(ops, opStart(xw.Elem{Name: "k"}))
			}
			for i := 0; i < 3; i++ {
				ops = append(ops, opEndAny(), opStart(xw.Elem{Prefix: "p0", URI: "again", Name: "s"}), opWriteX(at(0, 0, "again")), opWriteX(at(1, 0, "again")), opEndAny())
			}
			return ops
		}},
		{"one for each of n siblings", func(n int) []Op {
			ops := []Op{opStart(e)}
			for i := 0; i < n; i++ {
				ops = append(ops, opStart(xw.Elem{Prefix: "p", URI: fmt.Sprintf("u%d", i), Name: "k"}), opWriteX(xw.Attr{Prefix: "p", URI: fmt.Sprintf("u%d", i), Name: "a"}), opWriteX(xw.Attr{Prefix: "p", URI: "u0", Name: "b"}), opEndAny())
			}
			return ops
		}},
		{"one on each of n ancestors", func(n int) []Op {
			if n > 130 {
				return nil
			}
			var ops []Op
			for i := 0; i < n; i++ {
				ops = append(ops, opStart(xw.Elem{Prefix: fmt.Sprintf("p%d", i), URI: fmt.Sprintf("u%d", i), Name: "k"}))
			}
			ops = append(ops, opStart(xw.Elem{Name: "in"}))
			for i := 0; i < n; i++ {
				ops = append(ops, opWriteX(own(i, 0)), opWriteX(at(i, 1, "")), opWriteX(at(i, 2, "other")))
			}
			for i := 0; i <= n; i++ {
				ops = append(ops, opEndAny())
			}
			return ops
		}},
	}
	return Part{"prefixes", fmt.Sprintf("0..%d (and around every power of two up to %d) namespace prefixes in one element, below each other or beside each other: each used again, given another URI, sharing a URI, declared again", dense, max), func(c *Ctx) {
		for _, wy := range ways {
			for _, n := range sweepLens(dense, max) {
				if !c.Take() {
					continue
				}
				wy, n := wy, n
				c.Run(func() string { return fmt.Sprintf("%d prefixes, %s", n, wy.name) }, func() error { return c.ends(wy.ops(n), small, false) })
			}
		}
	}}
}

package main

// Calls that are given several nodes; the checks under StrictChars off in every
// context; sections in pieces with other calls between them.

import (
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	xw "github.com/shabbyrobe/xmlwriter"
)

// partialPart: a call given several nodes is the calls given one each, up to
// and including the first that is refused.
func partialPart() Part {
	type call struct {
		desc  string
		multi func(w *xw.Writer) error
		steps []func(w *xw.Writer) error
	}
	writables := []xw.Writable{
		xw.Text("t"), xw.Attr{Name: "a", Value: "v"}, xw.Attr{Name: "b d"}, xw.Attr{URI: "u", Name: "b"}, xw.PI{Target: "p"}, xw.PI{Target: "xml"}, xw.Comment{Content: "c"}, xw.Comment{Content: "c-"}, xw.CData{Content: "d"}, xw.CData{Content: "]]>"},
		xw.Elem{Name: "k"}, xw.Elem{Name: "k", Attrs: []xw.Attr{{Name: "z"}, {Name: ""}}}, xw.CommentContent("c-"), xw.CommentContent("-"), xw.CDataContent("]]"), xw.CDataContent(">"),
		xw.DTDElem{Name: "x", Decl: "ANY"}, xw.DTDElem{Name: "x"}, xw.DTDAttr{Name: "a", Type: "ID"}, xw.DTDAttr{Name: "a", Type: "ID", Default: xw.DTDAttrRequired, Value: "v"}, xw.DTDAttList{Name: "l"}, xw.Notation{Name: "n"}, xw.Notation{Name: "n", SystemID: "s"}, xw.DTDEntity{Name: "n"},
	}
	starts := []xw.Startable{
		xw.Doc{}, xw.DTD{Name: "d"}, xw.DTD{}, xw.DTDAttList{Name: "l"}, xw.DTDAttList{Name: "l", Attrs: []xw.DTDAttr{{Name: "a"}}}, xw.Elem{Name: "e"}, xw.Elem{Name: "e f"}, xw.Elem{Name: "g", Attrs: []xw.Attr{{Name: "a", Value: "v"}}},
		xw.Comment{}, xw.Comment{Content: "--"}, xw.Comment{Content: "-"}, xw.CData{}, xw.CData{Content: "]]>"}, xw.CData{Content: "]"},
	}
	attrs := []xw.Attr{{Name: "a", Value: "v"}, {Name: "b", Value: "w"}, {Name: "b d"}, {Name: ""}, {Prefix: "p", URI: "u", Name: "c"}, {Prefix: "p", URI: "v", Name: "d"}, {URI: "u", Name: "e"}, {Prefix: "q", URI: "u", Name: "f", Value: "<"}}
	var calls []call
	lists := func(n int, f func(ix []int)) {
		for k := 0; k <= 3; k++ {
			ix := make([]int, k)
			for {
				f(append([]int{}, ix...))
				p := k - 1
				for p >= 0 && ix[p] == n-1 {
					ix[p] = 0
					p--
				}
				if p < 0 {
					break
				}
				ix[p]++
			}
		}
	}
	step := func(n xw.Writable) func(w *xw.Writer) error {
		return func(w *xw.Writer) error { return w.Write(n) }
	}
	lists(len(writables), func(ix []int) {
		var ns []xw.Writable
		cl := call{}
		for _, i := range ix {
			ns = append(ns, writables[i])
			cl.steps = append(cl.steps, step(writables[i]))
		}
		cl.desc = fmt.Sprintf("w.Write%s", descList(ns))
		cl.multi = func(w *xw.Writer) error { return w.Write(ns...) }
		calls = append(calls, cl)
	})
	lists(len(attrs), func(ix []int) {
		var as []xw.Attr
		var ns []xw.Writable
		cl := call{}
		for _, i := range ix {
			a := attrs[i]
			as = append(as, a)
			ns = append(ns, a)
			cl.steps = append(cl.steps, step(a))
		}
		cl.desc = fmt.Sprintf("w.WriteAttr%s", descList(ns))
		cl.multi = func(w *xw.Writer) error { return w.WriteAttr(as...) }
		calls = append(calls, cl)
	})
	lists(len(starts), func(ix []int) {
		var ss []xw.Startable
		cl := call{desc: "w.Start("}
		for _, i := range ix {
			s := starts[i]
			ss = append(ss, s)
			cl.desc += opStart(s).Desc + " "
			cl.steps = append(cl.steps, func(w *xw.Writer) error { return w.Start(s) })
		}
		cl.desc += ")"
		cl.multi = func(w *xw.Writer) error { return w.Start(ss...) }
		calls = append(calls, cl)
	})
	kinds := map[int]xw.NodeKind{0: xw.DocNode, 1: xw.DTDNode, 2: xw.DTDNode, 3: xw.DTDAttListNode, 4: xw.DTDAttListNode, 5: xw.ElemNode, 6: xw.ElemNode, 7: xw.ElemNode, 8: xw.CommentNode, 9: xw.CommentNode, 10: xw.CommentNode, 11: xw.CDataNode, 12: xw.CDataNode, 13: xw.CDataNode}
	lists(len(writables), func(ix []int) {
		if len(ix) > 2 {
			return
		}
		for si, s := range starts {
			s, k := s, kinds[si]
			var ns []xw.Writable
			cl := call{}
			cl.steps = append(cl.steps, func(w *xw.Writer) error { return w.Start(s) })
			for _, i := range ix {
				ns = append(ns, writables[i])
				cl.steps = append(cl.steps, step(writables[i]))
			}
			cl.steps = append(cl.steps, func(w *xw.Writer) error { return w.End(k) })
			cl.desc = opBlock(s, ns...).Desc
			cl.multi = func(w *xw.Writer) error { return w.Block(s, ns...) }
			calls = append(calls, cl)
		}
	})
	return Part{"several-nodes", fmt.Sprintf("in each of 8 places: Write, WriteAttr and Start given every list of up to three, and Block every list of up to two, of nodes that are fine or refused (%d calls): the same error, depth and document, with ordinary calls afterwards, as the calls given one node each up to the first that is refused", len(calls)), func(c *Ctx) {
		after := func(w *xw.Writer) string {
			errs := ""
			for _, f := range []func() error{
				func() error { return w.WriteCommentContent("m") }, func() error { return w.WriteCDataContent(">") }, func() error { return w.WriteDTDElem(xw.DTDElem{Name: "m", Decl: "ANY"}) },
				func() error { return w.WriteAttr(xw.Attr{Prefix: "p", URI: "u", Name: "m"}) }, func() error { return w.WriteText("m") }, w.EndAllFlush, w.Flush} {
				if f() != nil {
					errs += "E"
				} else {
					errs += "."
				}
			}
			return errs
		}
		for _, h := range homes() {
			for _, cl := range calls {
				if !c.Take() {
					continue
				}
				h, cl := h, cl
				c.Run(func() string { return descOps(h) + "; " + cl.desc }, func() error {
					var s1, s2 sink
					w1, w2 := small.open(&s1), small.open(&s2)
					apply(w1, h)
					apply(w2, h)
					e1 := cl.multi(w1)
					var e2 error
					for _, st := range cl.steps {
						if e2 = st(w2); e2 != nil {
							break
						}
					}
					c.res.Traces++
					if (e1 == nil) != (e2 == nil) {
						return fmt.Errorf("returns %v, one by one %v", e1, e2)
					}
					if d1, d2 := w1.Depth(), w2.Depth(); d1 != d2 {
						return fmt.Errorf("leaves depth %d, one by one %d", d1, d2)
					}
					a1, a2 := after(w1), after(w2)
					c.Outcome(s1.String())
					if s1.String() != s2.String() || a1 != a2 {
						return fmt.Errorf("the document is %q (afterwards %s), one by one %q (%s)", s1.String(), a1, s2.String(), a2)
					}
					return nil
				})
			}
		}
	}}
}

func descList(ns []xw.Writable) string {
	var b strings.Builder
	b.WriteString("(")
	for i, n := range ns {
		if i > 0 {
			b.WriteString(", ")
		}
		b.WriteString(strings.TrimSuffix(strings.TrimPrefix(opWrite(n).Desc, "w.Write("), ")"))
	}
	return b.String() + ")"
}

// discouragedPart: with StrictChars off, the discouraged characters are
// accepted wherever the others are, and nothing else changes.
func discouragedPart() Part {
	chars := []string{"\u007f", "\u0080", "\u009f", "\ufdd0", "\ufdef", "\U0001fffe", "\U0010ffff", "\u0085", "\x01", "\uffff", "\xff", "\ufffd", "\u0084\u0086"}
	return Part{"discouraged", fmt.Sprintf("%d discouraged, illegal and ordinary characters in every value, through every entry point, in each of 8 places at several depths, StrictChars on and off, against the reference model", len(chars)), func(c *Ctx) {
		nodes := func(s string) (out []Op) {
			w := func(n xw.Writable) { out = append(out, opWrite(n), opWriteX(n)) }
			st := func(n xw.Startable) { out = append(out, opStart(n), opStartX(n), opBlock(n)) }
			w(xw.Text(s))
			w(xw.Attr{Name: "a", Value: s})
			w(xw.Attr{Prefix: "p", URI: "u" + s, Name: "a"})
			w(xw.Comment{Content: s})
			st(xw.Comment{Content: s})
			w(xw.CommentContent(s))
			w(xw.CData{Content: s})
			st(xw.CData{Content: s})
			w(xw.CDataContent(s))
			w(xw.PI{Target: "t", Content: s})
			w(xw.Elem{Name: "k", URI: "u" + s, Attrs: []xw.Attr{{Name: "a", Value: s}}, Content: []xw.Writable{xw.Text(s)}})
			w(xw.Elem{Name: "k", Content: []xw.Writable{xw.Comment{Content: s}, xw.Elem{Name: "in"}}})
			w(xw.Elem{Name: "k", Content: []xw.Writable{xw.CData{Content: s}, xw.Elem{Name: "in"}}})
			st(xw.Elem{Name: "k", Content: []xw.Writable{xw.Comment{Content: s}, xw.CData{Content: s}}})
			w(xw.DTDEntity{Name: "n", Content: s})
			w(xw.DTDEntity{Name: "n", SystemID: "s" + s})
			w(xw.Notation{Name: "n", SystemID: "s" + s})
			w(xw.Notation{Name: "n", PublicID: "s" + s})
			st(xw.DTD{Name: "n", SystemID: "s" + s})
			w(xw.DTDAttr{Name: "a", Type: "CDATA", Value: s})
			w(xw.DTDAttList{Name: "l", Attrs: []xw.DTDAttr{{Name: "a", Type: "CDATA", Default: xw.DTDAttrFixed, Value: s}}})
			return
		}
		var places [][]Op
		for _, h := range homes() {
			places = append(places, h)
			if len(h) > 0 && strings.Contains(h[len(h)-1].Desc, "Elem") || len(h) > 1 {
				deep := []Op{}
				for i := 0; i < 9; i++ {
					deep = append(deep, opStart(xw.Elem{Name: "d"}))
				}
				if h[0].Desc != opStart(xw.Doc{}).Desc && h[0].Desc != inDTD.Desc {
					places = append(places, append(deep, h...))
				}
			}
		}
		for _, h := range places {
			for _, ch := range chars {
				for _, v := range []string{ch, "a" + ch, ch + "a", strings.Repeat("ab", 40) + ch + "c"} {
					for _, o := range nodes(v) {
						for strict := 0; strict < 2; strict++ {
							if !c.Take() {
								continue
							}
							h, o, strict := h, o, strict == 1
							c.Run(func() string { return fmt.Sprintf("StrictChars=%v: %s; %s", strict, descOps(h), o.Desc) }, func() error {
								st := &Setup{Opts: []xw.Option{withBuf(64), opt(func(w *xw.Writer) { w.StrictChars = strict })}, Model: func(m *Model) { m.Strict = strict }}
								r, err := runOps(append(append([]Op{}, h...), o, opEndAny()), st)
								if err != nil {
									return shortenOrNil(err)
								}
								c.res.Traces++
								c.Outcome(r.Out)
								if !r.Poisoned {
									if err := checkTree(r, true); err != nil {
										return err
									}
								}
								// and again, after a writer of the other setting
								snapshot(&Setup{Opts: []xw.Option{withBuf(64), opt(func(w *xw.Writer) { w.StrictChars = !strict })}}, []Op{o})
								_, err = runOps(append(append([]Op{}, h...), o, opEndAny()), st)
								return shortenOrNil(err)
							})
						}
					}
				}
			}
		}
	}}
}

// sectionPart: sections written in pieces with other calls between the pieces.
func sectionPart(th bool) Part {
	n := pick(th, 4, 5)
	return Part{"sections", fmt.Sprintf("every sequence of up to %d calls of an alphabet of pieces (empty, delimiter fragments, refused ones), flushes, Next, refused calls of other kinds and ends, in a comment or a CDATA section in every place where one can stand", n), func(c *Ctx) {
		alpha := func(comment bool) func(i int) []Op {
			return func(int) []Op {
				var out []Op
				if comment {
					for _, s := range []string{"", "-", "a-", ">", "->", "b", "--", "\x01"} {
						out = append(out, opWriteX(xw.CommentContent(s)))
					}
					out = append(out, opWrite(xw.CommentContent("-")), opEndX(xw.CommentNode), opStart(xw.Comment{Content: "-"}), opWriteX(xw.CDataContent("]")))
				} else {
					for _, s := range []string{"", "]", "]]", ">", "]>", "b", "]]>", "\x01"} {
						out = append(out, opWriteX(xw.CDataContent(s)))
					}
					out = append(out, opWrite(xw.CDataContent("]")), opEndX(xw.CDataNode), opStart(xw.CData{Content: "]]"}), opWriteX(xw.CommentContent("-")))
				}
				return append(out, opFlush(), opNext(), opEndAny(), opEnd(xw.ElemNode), opWriteX(xw.Attr{Name: "a"}))
			}
		}
		e, doc := opStart(xw.Elem{Name: "r"}), opStart(xw.Doc{})
		for _, pre := range [][]Op{{opStart(xw.Comment{})}, {e, opStart(xw.Comment{Content: "-"})}, {doc, opStart(xw.Comment{Content: "c"})}, {inDTD, opStart(xw.Comment{})}} {
			c.sequences(seqOpts{depth: n, judge: judgeTree(false), prefix: pre}, alpha(true))
		}
		for _, pre := range [][]Op{{e, opStart(xw.CData{})}, {e, opStart(xw.CData{Content: "]"})}, {doc, e, e, opStart(xw.CData{Content: "]]"})}} {
			c.sequences(seqOpts{depth: n, judge: judgeTree(false), prefix: pre}, alpha(false))
		}
	}}
}

// rawSweepPart: Raw of every length around the boundaries with every special
// byte at its ends, in every kind of place.
func rawSweepPart(th bool) Part {
	lens := sweepLens(pick(th, 70, 200), pick(th, 4200, 1<<17))
	pieces := []string{"\x00", "\n", " ", "\xff", "<", "]", "-", "?", ">", "&", "\ufeff", "\r\n", "\u20ac", "\xe2\x82"}
	type place struct {
		ops          []Op
		before, rest string
	}
	places := []place{
		{nil, "", ""}, {[]Op{inElem}, "<e", "/>"}, {[]Op{inElem, opNext()}, "<e>", "</e>"}, {[]Op{inElem, opWrite(xw.Text("t&"))}, "<e>t&amp;", "</e>"}, {[]Op{inElem, opWrite(xw.Attr{Name: "a", Value: "v"})}, "<e a=\"v\"", "/>"},
		{[]Op{opStart(xw.Comment{}), opWrite(xw.CommentContent("c"))}, "<!--c", "-->"}, {[]Op{inElem, opStart(xw.CData{Content: "d"}), opNext()}, "<e><![CDATA[d", "]]></e>"},
		{[]Op{inDTD, opNext()}, "<!DOCTYPE d [", "]>"}, {[]Op{opStart(xw.Doc{SuppressEncoding: true})}, "<?xml version=\"1.0\"?>\n", ""},
	}
	return Part{"raw-values", fmt.Sprintf("Raw of every length (0..%d, then around every power of two) with each of %d special pieces at the start, the end, everywhere, at both ends and alternating, in %d places, with buffers of 16, 64 and 2048 bytes, flushed before or not, followed by a second Raw: the bytes are there unchanged", pick(th, 70, 200), len(pieces), len(places)), func(c *Ctx) {
		for _, p := range places {
			for _, n := range lens {
				for _, sp := range pieces {
					for pos := 0; pos < 7; pos++ {
						v, ok := sweepValue("r", sp, n, pos)
						if !ok || pos == 2 || pos == 3 || !c.Take() {
							continue
						}
						p := p
						c.Run(func() string { return fmt.Sprintf("%s; Raw of %d bytes, %q at place %d", descOps(p.ops), n, sp, pos) }, func() error {
							for k, buf := range []int{16, 64, 2048} {
								var s sink
								w := xw.Open(&s, withBuf(buf))
								apply(w, p.ops)
								if (n+k)%2 == 0 {
									w.Flush()
								}
								err := w.WriteRaw(v)
								if err == nil {
									err = w.Write(xw.Raw(v), xw.Raw("|"))
								}
								if err == nil {
									err = w.EndAllFlush()
								}
								c.res.Traces++
								if want := p.before + v + v + "|" + p.rest; err != nil || s.String() != want {
									return fmt.Errorf("with a buffer of %d: %s, %v", buf, firstDiff(s.String(), want), err)
								}
							}
							c.Outcome(v)
							return nil
						})
					}
				}
			}
		}
	}}
}

// encOptionsPart: every combination of the writer's options behind an encoder.
func encOptionsPart(th bool) Part {
	type opt1 struct {
		name string
		o    xw.Option
	}
	opts := []opt1{
		{"StrictChars=false", lax()}, {"Enforce=false", noEnforce()}, {"WithIndent", xw.WithIndent()}, {"WithIndentString", xw.WithIndentString("\t\t")}, {"NewlineString=CRLF", opt(func(w *xw.Writer) { w.NewlineString = "\r\n" })},
		{"Version=1.1", opt(func(w *xw.Writer) { w.Version = "1.1" })}, {"InitialBufSize=17", withBuf(17)},
	}
	fresh := func(mask int) []xw.Option {
		var out []xw.Option
		for i, o := range opts {
			if mask&(1<<i) != 0 {
				out = append(out, o.o)
			}
		}
		return out
	}
	alpha := append(alphaFull(0), opWrite(xw.Text("\u007f")), opWrite(xw.Comment{Content: "\u0080"}), opWrite(xw.PI{Target: "a b"}), opWrite(xw.Elem{Name: "", Attrs: []xw.Attr{{Name: "a b"}}}), opStart(xw.Doc{}.WithStandalone(true)), opStart(xw.Doc{}), opWrite(nest(3, "n")))
	return Part{"options", fmt.Sprintf("every combination of %d options given to OpenEncoding, before or after opening, through %d encodings, for every pair of calls of the alphabet: the calls return, and the decoded document is, what Open gives with the same options", len(opts), len(crossEncs)), func(c *Ctx) {
		for mask := 0; mask < 1<<len(opts); mask++ {
			for _, a := range alpha {
				for bi, b := range alpha {
					if !c.Take() {
						continue
					}
					mask, ops := mask, []Op{a, b}
					e := crossEncs[(mask+bi)%len(crossEncs)]
					late := bi%3 == 0 && mask&(1<<6) == 0
					c.Run(func() string { return fmt.Sprintf("options %#b, late %v, %s: %s", mask, late, e.name, descOps(ops)) }, func() error {
						mk := func(o func(os ...xw.Option) *xw.Writer) *xw.Writer {
							if !late {
								return o(fresh(mask)...)
							}
							w := o()
							for _, f := range fresh(mask) {
								f(w)
							}
							return w
						}
						plain := &Setup{Open: func(dst io.Writer) *xw.Writer {
							return mk(func(os ...xw.Option) *xw.Writer { return xw.Open(dst, os...) })
						}}
						_, want, errs := snapshot(plain, ops)
						if !utf8.ValidString(want) {
							return errSkip
						}
						if _, err := e.enc.NewEncoder().String(want); err != nil {
							return errSkip
						}
						c.res.Traces++
						c.Outcome(want)
						st := &Setup{Open: func(dst io.Writer) *xw.Writer {
							return mk(func(os ...xw.Option) *xw.Writer { return xw.OpenEncoding(dst, "UTF-8", e.enc.NewEncoder(), os...) })
						}}
						_, got, gotErrs := snapshot(st, ops)
						dec, err := e.enc.NewDecoder().String(got)
						if err != nil || dec != want || gotErrs[:2] != errs[:2] {
							return fmt.Errorf("the calls return %s and the document reads %q, by Open %s, %q (%v)", gotErrs, clip(dec), errs, clip(want), err)
						}
						return nil
					})
				}
			}
		}
	}}
}

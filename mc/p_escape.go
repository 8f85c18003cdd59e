package main

// C03 text and attribute values survive; C04 comments, CDATA and PIs are
// verbatim and cannot be broken out of.

import (
	"fmt"
	"strings"
	"unicode/utf8"

	xw "github.com/shabbyrobe/xmlwriter"
)

// encodeRune is the UTF-8-style encoding of r, also for surrogates (which Go
// strings can carry as invalid UTF-8).
func encodeRune(r rune) string {
	if r >= 0xD800 && r <= 0xDFFF {
		return string([]byte{0xE0 | byte(r>>12), 0x80 | byte(r>>6)&0x3F, 0x80 | byte(r)&0x3F})
	}
	return string(r)
}

// textSite is one way to hand character data or an attribute value over.
type textSite struct {
	name string
	attr bool
	f    func(w *xw.Writer, s string) error
}

var textSites = []textSite{
	{"WriteText", false, func(w *xw.Writer, s string) error {
		if err := w.StartElem(xw.Elem{Name: "e"}); err != nil {
			return err
		}
		return w.WriteText(s)
	}},
	{"WriteAttr", true, func(w *xw.Writer, s string) error {
		if err := w.StartElem(xw.Elem{Name: "e"}); err != nil {
			return err
		}
		return w.WriteAttr(xw.Attr{Name: "a", Value: s})
	}},
	{"Write(Text)", false, func(w *xw.Writer, s string) error {
		if err := w.Start(xw.Elem{Name: "e"}); err != nil {
			return err
		}
		return w.Write(xw.Text(s))
	}},
	{"Write(Attr)", true, func(w *xw.Writer, s string) error {
		if err := w.Start(xw.Elem{Name: "e"}); err != nil {
			return err
		}
		return w.Write(xw.Attr{Name: "a", Value: s})
	}},
	{"Elem.Content", false, func(w *xw.Writer, s string) error {
		return w.WriteElem(xw.Elem{Name: "e", Content: []xw.Writable{xw.Text(s)}})
	}},
	{"Elem.Attrs", true, func(w *xw.Writer, s string) error {
		return w.WriteElem(xw.Elem{Name: "e", Attrs: []xw.Attr{{Name: "a", Value: s}}})
	}},
	{"Block Text", false, func(w *xw.Writer, s string) error { return w.Block(xw.Elem{Name: "e"}, xw.Text(s)) }},
	{"Block Attr", true, func(w *xw.Writer, s string) error {
		return w.Block(xw.Elem{Name: "e"}, xw.Attr{Name: "a", Value: s})
	}},
	{"prefixed Attr", true, func(w *xw.Writer, s string) error {
		if err := w.Start(xw.Elem{Name: "e"}); err != nil {
			return err
		}
		return w.Write(xw.Attr{Prefix: "p", URI: s + "x", Name: "a", Value: s})
	}},
	{"Elem URI", true, func(w *xw.Writer, s string) error {
		return w.Write(xw.Elem{Prefix: "q", URI: "x" + s, Name: "e", Attrs: []xw.Attr{{Name: "a", Value: s}}})
	}},
}

type escConf struct {
	name string
	st   *Setup
}

var escConfs = []escConf{
	{"default", &Setup{}},
	{"Enforce=false", &Setup{Opts: []xw.Option{noEnforce()}}},
	{"WithIndent", &Setup{Opts: []xw.Option{xw.WithIndent()}}},
	{"InitialBufSize=16", &Setup{Opts: []xw.Option{withBuf(16)}}},
}

// checkSite writes s at the site and reads it back.
func checkSite(st *Setup, site textSite, s string) error {
	out, err := produce(st, func(w *xw.Writer) error { return site.f(w, s) })
	if err != nil {
		return fmt.Errorf("refused: %v", err)
	}
	t, err := parseFragment(out)
	if err != nil {
		return fmt.Errorf("%v\noutput: %q", err, clip(out))
	}
	if len(t.Kids) != 1 || t.Kids[0].Kind != "elem" {
		return fmt.Errorf("the value leaked out of its element\noutput: %q", clip(out))
	}
	e := t.Kids[0].mergeText()
	want := readBack(s)
	if site.attr {
		if len(e.Attrs) != 1 || len(e.Kids) != 0 {
			return fmt.Errorf("the value leaked out of the attribute\noutput: %q", clip(out))
		}
		if e.Attrs[0].Value != want {
			return fmt.Errorf("attribute reads back as %q, want %q\noutput: %q", clip(e.Attrs[0].Value), clip(want), clip(out))
		}
		for _, n := range e.NS {
			w := readBack(s + "x")
			if n.Name == "xmlns:q" {
				w = readBack("x" + s)
			}
			if n.Value != w {
				return fmt.Errorf("namespace URI reads back as %q, want %q\noutput: %q", clip(n.Value), clip(w), clip(out))
			}
		}
		return nil
	}
	got := ""
	switch {
	case len(e.Kids) == 1 && e.Kids[0].Kind == "text":
		got = e.Kids[0].Value
	case len(e.Kids) > 0:
		return fmt.Errorf("text became markup: %s\noutput: %q", e, clip(out))
	}
	if got != want {
		return fmt.Errorf("text reads back as %q, want %q\noutput: %q", clip(got), clip(want), clip(out))
	}
	return nil
}

const ruleVal = "every value of the stated finite space is written through the real API and read back with an independent parser; non-trivial = a distinct output"

var escAlpha = []string{"a", "<", ">", "&", "'", "\"", "\t", "\n", "\r", "]", " ", ";", "#", "\x00", "\x1f", "\x7f", "\x80", "\xed", "é", "\uFFFD", "\uFFFE", "𐀀"}

func init() {
	register(&Prop{ID: "C03", Level: "exploration", Rule: ruleVal,
		Assumptions: []string{"strings longer than the bound behave like their substrings and like the long-value sweep: the escaper keeps no state but the position"},
		Parts: func(th bool) []Part {
			return []Part{
				sweepPart(th, "value-lengths", "text", "attr"),
				{"all-code-points", "every code point U+0000..U+10FFFF (surrogates as invalid UTF-8), alone and between letters, in every text and attribute site", func(c *Ctx) {
					sites := textSites
					for lo := rune(0); lo <= 0x10FFFF; lo += 64 {
						for _, site := range sites {
							if !c.Thorough && site.name != "WriteText" && site.name != "WriteAttr" && lo > 0x3000 && lo&0xFFFF < 0xFF00 && !(lo >= 0xD7C0 && lo <= 0xE000) {
								continue
							}
							lo, site := lo, site
							c.Case(func() string {
								return fmt.Sprintf("%s of each of U+%04X..U+%04X, alone and as xRy", site.name, lo, lo+63)
							}, func() error {
								for r := lo; r < lo+64; r++ {
									for _, s := range []string{encodeRune(r), "x" + encodeRune(r) + "y"} {
										if err := checkSite(&Setup{Opts: []xw.Option{withBuf(64)}}, site, s); err != nil {
											return fmt.Errorf("%s(%q): %v", site.name, s, err)
										}
										c.res.Traces++
									}
								}
								c.Outcome(fmt.Sprint(site.name, lo))
								return nil
							})
						}
					}
				}},
				{"all-bytes", "every byte string of length <= 2 (thorough: 3)", func(c *Ctx) {
					var all []string
					for i := 0; i < 256; i++ {
						all = append(all, string([]byte{byte(i)}))
					}
					n := pick(c.Thorough, 2, 3)
					for _, site := range []textSite{textSites[0], textSites[1]} {
						for k := 0; k < n; k++ {
							total := 1
							for i := 0; i < k; i++ {
								total *= 256
							}
							for p := 0; p < total; p++ {
								p, k, site := p, k, site
								c.Case(func() string {
									return fmt.Sprintf("%s of all 256 completions of byte prefix #%d (length %d)", site.name, p, k)
								}, func() error {
									pre := ""
									for i, q := 0, p; i < k; i, q = i+1, q/256 {
										pre += all[q%256]
									}
									for _, b := range all {
										if err := checkSite(small, site, pre+b); err != nil {
											return fmt.Errorf("%s(%q): %v", site.name, pre+b, err)
										}
										c.res.Traces++
									}
									c.Outcome(site.name + pre)
									return nil
								})
							}
						}
					}
				}},
				{"strings", "every string of up to 4 (thorough: 5) items of a 22-item alphabet of special characters and bytes, every site, every configuration", func(c *Ctx) {
					allStrings(escAlpha, pick(c.Thorough, 4, 5), func(s string, parts []string) bool {
						for _, cf := range escConfs {
							for _, site := range textSites {
								if len(parts) > 2 && (cf.name == "WithIndent" || site.name != "WriteText" && site.name != "WriteAttr") {
									continue
								}
								cf, site := cf, site
								c.Case(func() string { return fmt.Sprintf("%s(%q), %s", site.name, s, cf.name) }, func() error {
									if cf.name == "WithIndent" && strings.HasPrefix(site.name, "Block") && s == "" {
										return errSkip
									}
									c.res.Traces++
									c.Outcome(site.name + s)
									return checkSite(cf.st, site, s)
								})
							}
						}
						return !c.Stop()
					})
				}},
				{"chunks", "every string of up to 4 (thorough: 5) items of a 10-item alphabet, cut into text writes in every way", func(c *Ctx) {
					al := []string{"a", "]", ">", "&", "\r", "\n", "<", "\xe2", "\x82", "\xac"}
					allStrings(al, pick(c.Thorough, 4, 5), func(s string, parts []string) bool {
						ps := append([]string{}, parts...)
						c.Case(func() string { return fmt.Sprintf("text %q written in every chunking", s) }, func() error {
							var bad error
							chunkings(ps, func(ch []string) {
								if bad != nil {
									return
								}
								want := ""
								out, err := produce(small, func(w *xw.Writer) error {
									if err := w.StartElem(xw.Elem{Name: "e"}); err != nil {
										return err
									}
									for _, p := range ch {
										want += readBack(p)
										if err := w.WriteText(p); err != nil {
											return err
										}
									}
									return nil
								})
								if err != nil {
									bad = fmt.Errorf("chunks %q refused: %v", ch, err)
									return
								}
								t, err := parseFragment(out)
								if err != nil {
									bad = fmt.Errorf("chunks %q: %v: %q", ch, err, out)
									return
								}
								t.mergeText()
								got := ""
								if len(t.Kids) == 1 && len(t.Kids[0].Kids) == 1 {
									got = t.Kids[0].Kids[0].Value
								}
								if got != want {
									bad = fmt.Errorf("chunks %q read back as %q, want %q: %q", ch, got, want, out)
								}
								c.res.Traces++
							})
							c.Outcome(s)
							return bad
						})
						return !c.Stop()
					})
				}},
				{"long", "a special item at every offset around the buffer boundaries of several buffer sizes", func(c *Ctx) {
					specials := append([]string{"]]>", "&amp;", "\r\n"}, escAlpha...)
					for _, buf := range []int{16, 17, 64, 2048} {
						for off := 0; off <= 2*buf+40 && off <= 4200; off++ {
							if buf == 2048 && off > 60 && off < 1990 && !c.Thorough {
								continue
							}
							if buf == 2048 && off > 2080 && !c.Thorough {
								break
							}
							for _, sp := range specials {
								for _, site := range textSites[:2] {
									buf, off, sp, site := buf, off, sp, site
									c.Case(func() string {
										return fmt.Sprintf("InitialBufSize=%d: %s(strings.Repeat(\"f\", %d)+%q+\"tail\")", buf, site.name, off, sp)
									}, func() error {
										c.res.Traces++
										return checkSite(&Setup{Opts: []xw.Option{withBuf(buf)}}, site, strings.Repeat("f", off)+sp+"tail"+sp)
									})
								}
							}
						}
					}
				}},
			}
		}})

	register(&Prop{ID: "C04", Level: "model_checking", Rule: ruleVal + "; accept/refuse is compared with the XML 1.0 grammar on every value",
		Assumptions: []string{"line-end normalisation by readers is not undone: comments, CDATA and PIs are compared byte for byte with what was passed in"},
		Parts: func(th bool) []Part {
			run := func(c *Ctx, kind string, st *Setup, strict bool, s string, ch []string, initial bool) error {
				var ops []Op
				mk := func(p string) Op {
					if kind == "comment" {
						return opWriteX(xw.CommentContent(p))
					}
					return opWriteX(xw.CDataContent(p))
				}
				start := func(p string) Op {
					if kind == "comment" {
						return opStart(xw.Comment{Content: p})
					}
					return opStart(xw.CData{Content: p})
				}
				ops = append(ops, opStart(xw.Elem{Name: "e"}))
				if initial && len(ch) > 0 {
					ops = append(ops, start(ch[0]))
					ch = ch[1:]
				} else {
					ops = append(ops, start(""))
				}
				for _, p := range ch {
					ops = append(ops, mk(p))
				}
				if kind == "comment" {
					ops = append(ops, opEndX(xw.CommentNode))
				} else {
					ops = append(ops, opEndX(xw.CDataNode))
				}
				ops = append(ops, opWrite(xw.Text("after")))
				st2 := &Setup{Opts: st.Opts, Model: func(m *Model) { m.Strict = strict }}
				r, err := runOps(ops, st2)
				if err == errSkip {
					return nil
				}
				if err != nil {
					return fmt.Errorf("%s: %v", descOps(ops), err)
				}
				c.res.Traces++
				if r.Poisoned {
					return nil
				}
				c.Outcome(r.Out)
				if err := checkTree(r, false); err != nil {
					return fmt.Errorf("%s: %v", descOps(ops), err)
				}
				return nil
			}
			chunked := func(kind string, al []string, n int) func(c *Ctx) {
				return func(c *Ctx) {
					allStrings(al, n, func(s string, parts []string) bool {
						ps := append([]string{}, parts...)
						c.Case(func() string { return fmt.Sprintf("%s content %q in every chunking", kind, s) }, func() error {
							var bad error
							chunkings(ps, func(ch []string) {
								for _, initial := range []bool{false, true} {
									if bad == nil {
										bad = run(c, kind, small, true, s, ch, initial)
									}
								}
							})
							return bad
						})
						return !c.Stop()
					})
				}
			}
			whole := func(c *Ctx, o Op, strict bool, st *Setup) error {
				ops := []Op{opStart(xw.Elem{Name: "e"}), opWrite(xw.Text("before")), o, opWrite(xw.Text("after"))}
				r, err := runOps(ops, &Setup{Opts: st.Opts, Model: func(m *Model) { m.Strict = strict }})
				if err == errSkip {
					return nil
				}
				if err != nil {
					return fmt.Errorf("%s: %v", o.Desc, err)
				}
				c.res.Traces++
				if r.Poisoned {
					return nil
				}
				if err := checkTree(r, false); err != nil {
					return fmt.Errorf("%s: %v", o.Desc, err)
				}
				return nil
			}
			runes := func(kind string, mk func(s string) Op) Part {
				return Part{"code-points-" + kind, "every code point (quick: below U+3000, around the surrogates, and the ends of every plane) in " + kind + " content, alone and between letters, StrictChars on and off", func(c *Ctx) {
					for lo := rune(0); lo <= 0x10FFFF; lo += 256 {
						lo := lo
						if in := lo & 0xFFFF; !th && lo >= 0x3000 && in >= 0x300 && in < 0xFC00 && !(lo >= 0xD700 && lo <= 0xE000) {
							continue // the quick tier visits the low code points, the surrogates and the ends of every plane
						}
						for _, strict := range []bool{true, false} {
							strict := strict
							c.Case(func() string {
								return fmt.Sprintf("%s with each of U+%04X..U+%04X, StrictChars=%v", kind, lo, lo+255, strict)
							}, func() error {
								st := &Setup{Opts: []xw.Option{withBuf(64), opt(func(w *xw.Writer) { w.StrictChars = strict })}}
								for r := lo; r < lo+256; r++ {
									for _, s := range []string{encodeRune(r), "x" + encodeRune(r) + "y"} {
										if err := whole(c, mk(s), strict, st); err != nil {
											return err
										}
									}
								}
								c.Outcome(fmt.Sprint(kind, lo, strict))
								return nil
							})
						}
					}
				}}
			}
			return []Part{
				{"comment-chunks", "every comment content of up to 6 (thorough: 8) items over {-,>,a} (and 4 over a wider alphabet) in every chunking, first chunk as initial content or not", func(c *Ctx) {
					chunked("comment", []string{"-", ">", "a"}, pick(c.Thorough, 6, 8))(c)
					chunked("comment", []string{"-", ">", "<", "!", "&", "\n", "]", "\r"}, pick(c.Thorough, 4, 5))(c)
				}},
				{"cdata-chunks", "the same for CDATA over {],>,a}", func(c *Ctx) {
					chunked("cdata", []string{"]", ">", "a"}, pick(c.Thorough, 6, 8))(c)
					chunked("cdata", []string{"]", ">", "<", "!", "[", "&", "\n", "é"}, pick(c.Thorough, 4, 5))(c)
				}},
				{"whole", "every PI / comment / CDATA content of up to 4 (thorough: 5) items of an 11-item alphabet, written whole, indented and not", func(c *Ctx) {
					al := []string{"?", ">", "-", "]", "<", " ", "a", "\n", "&", "\x01", "\xff"}
					allStrings(al, pick(c.Thorough, 4, 5), func(s string, parts []string) bool {
						for _, o := range []Op{opWriteX(xw.PI{Target: "t", Content: s}), opWriteX(xw.Comment{Content: s}), opWriteX(xw.CData{Content: s}),
							opWrite(xw.Elem{Name: "w", Content: []xw.Writable{xw.Comment{Content: s}}}), opWrite(xw.Elem{Name: "w", Content: []xw.Writable{xw.CData{Content: s}}})} {
							for i, st := range []*Setup{small, {Opts: []xw.Option{xw.WithIndent()}}} {
								if i == 1 && strings.HasPrefix(o.Desc, "w.Write(Elem") {
									continue
								}
								o, st := o, st
								c.Case(func() string { return o.Desc }, func() error { c.Outcome(o.Desc); return whole(c, o, true, st) })
							}
						}
						return !c.Stop()
					})
				}},
				runes("comment", func(s string) Op { return opWrite(xw.Comment{Content: s}) }),
				runes("cdata", func(s string) Op { return opWrite(xw.CData{Content: s}) }),
				runes("pi", func(s string) Op { return opWrite(xw.PI{Target: "t", Content: s}) }),
				{"wrapped", "comment content and text that an indenter's Wrap returns, for every string of up to 4 (thorough: 5) items: checked and escaped like the caller's own", func(c *Ctx) { wrapChecked(c, th) }},
				sweepPart(th, "value-lengths", "comment", "cdata", "pi"),
				{"long", "delimiter fragments at every offset around the buffer boundary", func(c *Ctx) {
					for _, buf := range []int{16, 2048} {
						lo, hi := 0, 60
						if buf == 2048 {
							lo, hi = 2000, 2060
						}
						for off := lo; off <= hi; off++ {
							for _, sp := range []string{"-", "--", "->", "]]", "]]>", "]>", "?>", "?", "é", "\x01"} {
								pad := strings.Repeat("f", off)
								for _, o := range []Op{opWriteX(xw.PI{Target: "t", Content: pad + sp + "z"}), opWriteX(xw.Comment{Content: pad + sp + "z"}), opWriteX(xw.CData{Content: pad + sp + "z"}), opWriteX(xw.CData{Content: pad + sp})} {
									o, buf := o, buf
									c.Case(func() string { return fmt.Sprintf("InitialBufSize=%d %s", buf, o.Desc) }, func() error {
										return whole(c, o, true, &Setup{Opts: []xw.Option{withBuf(buf)}})
									})
								}
							}
						}
					}
				}},
			}
		}})
	_ = utf8.RuneError
}

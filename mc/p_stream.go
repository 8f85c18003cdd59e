package main

// C15 buffering and flushing, C27 sink faults.

import (
	"errors"
	"fmt"
	"io"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
	"golang.org/x/text/encoding/unicode"
)

// mop is a call with the text that must be in the sink after the next Flush.
type mop struct {
	Op
	mark string
}

func streamAlpha(i int) []mop {
	k := func(s string) string { return fmt.Sprintf("%s%d", s, i) }
	long := k("long") + strings.Repeat("x<é", 23) + "."
	return []mop{
		{opStartX(xw.Elem{Name: k("e"), Attrs: []xw.Attr{{Name: "b", Value: k("v")}}}), "<" + k("e") + ` b="` + k("v")},
		{opWriteX(xw.Text(k("t"))), k("t")},
		{opWriteX(xw.Text(long)), k("long")},
		{opWriteX(xw.Attr{Name: k("a"), Value: k("w")}), k("a") + `="` + k("w")},
		{opEndX(xw.ElemNode), ""},
		{opWriteX(xw.Comment{Content: k("c")}), k("c") + "-->"},
		{opStartX(xw.Comment{}), "<!--"},
		{opWrite(xw.CommentContent(k("m"))), k("m")},
		{opEndX(xw.CommentNode), "-->"},
		{opWriteX(xw.CData{Content: long}), k("long")},
		{opWriteX(xw.PI{Target: k("p"), Content: k("z")}), k("z") + "?>"},
		{opWriteX(xw.Elem{Name: k("w"), Content: []xw.Writable{xw.Elem{Name: k("in")}, xw.Text(k("u"))}}), "</" + k("w") + ">"},
		{opStart(xw.Doc{}), "<?xml"},
		{opStart(xw.DTD{Name: k("d")}), "<!DOCTYPE " + k("d")},
		{opWriteX(xw.DTDElem{Name: k("de"), Decl: "ANY"}), k("de") + " ANY>"},
		{opWriteX(xw.DTDAttList{Name: k("al"), Attrs: []xw.DTDAttr{{Name: k("y"), Type: xw.DTDAttrID}}}), k("y") + " ID #IMPLIED>"},
		{opWriteX(xw.DTDEntity{Name: k("en"), Content: k("ec")}), `"` + k("ec") + `">`},
		{opWriteX(xw.Notation{Name: k("no"), SystemID: k("sy")}), `"` + k("sy") + `">`},
		{opEndX(xw.DTDNode), ""},
		{opEndAny(), ""},
		{opNext(), ""},
	}
}

// mseqs enumerates every accepted sequence of exactly n marked calls after a
// prefix.
func mseqs(prefix []mop, n int, f func(ops []mop) bool) {
	var rec func(seq []mop, left int) bool
	rec = func(seq []mop, left int) bool {
		m := newModel()
		for _, o := range seq {
			if o.M(m) != Accept {
				return true
			}
		}
		if left == 0 {
			return f(seq)
		}
		for _, o := range streamAlpha(len(seq)) {
			if !rec(append(seq[:len(seq):len(seq)], o), left-1) {
				return false
			}
		}
		return true
	}
	rec(prefix, n)
}

func plain(ms []mop) []Op {
	out := make([]Op, len(ms))
	for i, m := range ms {
		out[i] = m.Op
	}
	return out
}

// finish closes whatever is open in a way that is legal.
func finish(w *xw.Writer) error { return w.EndAllFlush() }

// runAll returns the complete output of ops with options.
func runAll(st *Setup, ops []Op) (string, error) {
	var s sink
	w := st.open(&s)
	for _, o := range ops {
		if err := o.Do(w); err != nil {
			return s.String(), fmt.Errorf("%s: %v", o.Desc, err)
		}
	}
	if err := finish(w); err != nil {
		return s.String(), fmt.Errorf("EndAllFlush: %v", err)
	}
	return s.String(), nil
}

func bufSetup(n int) *Setup { return &Setup{Opts: []xw.Option{withBuf(n)}} }

// richDocs is a set of documents that use every kind of node, with values
// longer than small buffers.
func richDocs() [][]Op {
	long := strings.Repeat("0123456789<&>\"'é€😀\r\n\t", 9)
	body := []Op{
		opStart(xw.Elem{Name: "root", Prefix: "p", URI: "urn:" + strings.Repeat("u", 40), Attrs: []xw.Attr{{Name: "a", Value: long}, {Prefix: "q", URI: "v", Name: "b"}}}),
		opWriteX(xw.Text(long)),
		opWriteX(xw.Comment{Content: strings.Repeat("comment ", 12)}),
		opWriteX(xw.CData{Content: strings.Repeat("]] cdata ", 12)}),
		opWriteX(xw.PI{Target: "target", Content: strings.Repeat("pi ? ", 12)}),
		opWriteX(xw.Elem{Name: strings.Repeat("n", 70), Content: []xw.Writable{xw.Elem{Name: "in", Full: true}, xw.Text(long), xw.CData{Content: "x"}}}),
		opStartX(xw.Elem{Name: "deep"}), opStartX(xw.Elem{Name: "deeper"}), opStartX(xw.Comment{}),
		opWrite(xw.CommentContent("one")), opWrite(xw.CommentContent(strings.Repeat("two ", 20))), opEndX(xw.CommentNode),
		opWrite(xw.Text("tail")), opEndElem("deeper"), opStartX(xw.CData{}), opWrite(xw.CDataContent("a]")), opWrite(xw.CDataContent(strings.Repeat("]", 30))), opEndX(xw.CDataNode),
	}
	dtd := []Op{
		opStart(xw.Doc{}.WithStandalone(true)),
		opStartX(xw.DTD{Name: "root", PublicID: strings.Repeat("pub ", 9), SystemID: strings.Repeat("sys", 9)}),
		opWriteX(xw.DTDElem{Name: "root", Decl: "(#PCDATA|a|b|c)*"}),
		opWriteX(xw.DTDAttList{Name: "root", Attrs: []xw.DTDAttr{{Name: "a", Type: xw.DTDAttrString, Value: long}, {Name: "b", Type: xw.DTDAttrNmtoken, Default: xw.DTDAttrFixed, Value: "v"}, {Name: "c", Type: xw.DTDAttrID, Default: xw.DTDAttrRequired}}}),
		opWriteX(xw.DTDEntity{Name: "ent", Content: strings.Repeat("entity ", 8)}),
		opWriteX(xw.DTDEntity{Name: "ext", SystemID: strings.Repeat("s", 40), PublicID: "p", NDataID: "no"}),
		opWriteX(xw.Notation{Name: "no", PublicID: strings.Repeat("n", 40)}),
		opWriteX(xw.Comment{Content: "in dtd"}),
		opEndX(xw.DTDNode),
	}
	return [][]Op{body, append(append([]Op{}, dtd...), body...), dtd,
		{opWriteX(xw.Text("a\ufffd"))}, {}}
}

// --- faults -------------------------------------------------------------------

var errSink = errors.New("sink failed")

// faultSink fails at the k-th write (1-based).
type faultSink struct {
	b     []byte
	n     int
	at    int
	kind  int // 0: error, nothing taken; 1: error, half taken; 2: short write, nil error; 3: error although everything was taken
	once  bool
	after int // calls after the failing one
}

func (f *faultSink) Write(p []byte) (int, error) {
	f.n++
	if f.at > 0 && (f.n == f.at || f.n > f.at && !f.once) {
		if f.n > f.at {
			f.after++
		}
		switch f.kind {
		case 0:
			return 0, errSink
		case 1:
			f.b = append(f.b, p[:len(p)/2]...)
			return len(p) / 2, errSink
		case 2:
			if len(p) == 0 {
				return 0, nil
			}
			f.b = append(f.b, p[:len(p)-1]...)
			return len(p) - 1, nil
		case 3:
			f.b = append(f.b, p...)
			return len(p), errSink
		}
	}
	if f.at > 0 && f.n > f.at {
		f.after++
	}
	f.b = append(f.b, p...)
	return len(p), nil
}

var faultNames = []string{"error, nothing written", "error, half written", "short write without an error", "error, everything written"}

// checkFault runs ops against a sink that fails at write k.
func checkFault(c *Ctx, open func(dst io.Writer) *xw.Writer, ops []Op, flushEach bool, clean string, at, kind int, once, goOn bool) error {
	f := &faultSink{at: at, kind: kind, once: once}
	w := open(f)
	reported := false
	for _, o := range ops {
		before := f.n
		err := o.Do(w)
		if err != nil {
			if before < at && f.n < at {
				return fmt.Errorf("%s failed before the sink did: %v", o.Desc, err)
			}
			reported = true
			if !goOn {
				break
			}
		}
		if flushEach {
			err := w.Flush()
			if f.n >= at && err == nil && kind != 2 {
				return fmt.Errorf("the sink failed during or before %s but the Flush after it returned nil", o.Desc)
			}
			if err != nil && f.n < at {
				return fmt.Errorf("Flush failed before the sink did: %v", err)
			}
			if err != nil && kind != 2 && !errors.Is(err, errSink) {
				return fmt.Errorf("Flush reports %q instead of the sink's own error", err)
			}
		}
	}
	err := w.EndAllFlush()
	if f.n < at {
		return fmt.Errorf("harness: the fault was not reached (%d writes)", f.n)
	}
	c.Outcome(fmt.Sprint(string(f.b), at, kind, once))
	if kind == 2 && err == nil && string(f.b) == clean {
		return nil // the rest was delivered by another write: nothing was lost
	}
	if err == nil {
		return fmt.Errorf("the sink failed at write %d (%s; reported by an earlier call: %v) but EndAllFlush returned nil", at, faultNames[kind], reported)
	}
	if kind != 2 && !errors.Is(err, errSink) {
		return fmt.Errorf("EndAllFlush reports %q instead of the sink's own error", err)
	}
	if err := w.Flush(); err == nil {
		return fmt.Errorf("a Flush after the failure returned nil")
	}
	got := string(f.b)
	if !strings.HasPrefix(clean, got) {
		return fmt.Errorf("the sink holds %q, which is not a prefix of the fault-free output %q", clip(got), clip(clean))
	}
	if f.after > 0 && kind != 2 {
		return fmt.Errorf("%d writes were attempted after the sink had failed", f.after)
	}
	return nil
}

func init() {
	register(&Prop{ID: "C15", Level: "model_checking",
		Rule:        "every accepted sequence of up to the stated number of calls x every buffer size of a list x every placement of Flush calls, and rich documents x every buffer size up to beyond their length; the output with a buffer larger than the document is the oracle, the calls' own values are the oracle for what a Flush delivers; non-trivial = a distinct (document, setting)",
		Assumptions: []string{"the destination accepts every write (C27 covers failing ones) and does not retain the slice it is given"},
		Parts: func(th bool) []Part {
			sizes := []int{1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 23, 31, 32, 33, 64, 100, 2047, 2048, 2049, 0, -1}
			var rp []Part
			type cfg struct {
				name   string
				prefix []mop
				n      int
			}
			in := []mop{{opStart(xw.Doc{}), ""}, {opStart(xw.Elem{Name: "root"}), ""}}
			dt := []mop{{opStart(xw.Doc{}), ""}, {opStart(xw.DTD{Name: "root"}), ""}}
			for _, g := range []cfg{{"top", nil, pick(th, 3, 4)}, {"in-root", in, pick(th, 3, 4)}, {"in-dtd", dt, pick(th, 3, 4)}} {
				g := g
				rp = append(rp, Part{"sizes-" + g.name, fmt.Sprintf("every accepted sequence of %d calls with every buffer size of %v", g.n, sizes), func(c *Ctx) {
					mseqs(g.prefix, g.n, func(ms []mop) bool {
						ops := plain(ms)
						c.Case(func() string { return descOps(ops) + " with every buffer size" }, func() error {
							want, err := runAll(bufSetup(1<<16), ops)
							if err != nil {
								return err
							}
							for _, n := range sizes {
								got, err := runAll(bufSetup(n), ops)
								if err != nil {
									return fmt.Errorf("InitialBufSize=%d: %v", n, err)
								}
								c.res.Traces++
								if got != want {
									return fmt.Errorf("InitialBufSize=%d gives %q, a large buffer %q", n, clip(got), clip(want))
								}
							}
							c.Outcome(want)
							if c.part.Evals%2003 == 3 {
								c.Sample(descOps(ops) + " => " + clip(want))
							}
							return nil
						})
						return !c.Stop()
					})
				}})
				rp = append(rp, Part{"flush-" + g.name, fmt.Sprintf("every accepted sequence of %d calls with a Flush after every subset of its calls, with buffer sizes 16 and 2048", g.n), func(c *Ctx) {
					mseqs(g.prefix, g.n, func(ms []mop) bool {
						c.Case(func() string { return descOps(plain(ms)) + " with Flush after every subset of calls" }, func() error {
							want, err := runAll(bufSetup(1<<16), plain(ms))
							if err != nil {
								return err
							}
							first := len(g.prefix)
							canon := make([]string, len(ms))
							for i := range ms {
								m, _ := modelState(plain(ms[:i+1]))
								canon[i] = m.canon()
							}
							for _, bs := range []int{16, 2048} {
								for mask := 0; mask < 1<<uint(len(ms)-first); mask++ {
									var s sink
									w := bufSetup(bs).open(&s)
									for i, o := range ms {
										if err := o.Do(w); err != nil {
											return fmt.Errorf("%s: %v", o.Desc, err)
										}
										st := canon[i] + " held back " + fmt.Sprint(bs, len(want)-len(s.b))
										c.State(st)
										if i < first || mask>>uint(i-first)&1 == 0 {
											c.Trans(st, "call")
											continue
										}
										c.Trans(st, "flush")
										if err := w.Flush(); err != nil {
											return fmt.Errorf("Flush: %v", err)
										}
										got := s.String()
										if !strings.HasPrefix(want, got) {
											return fmt.Errorf("flushed %q is not a prefix of %q (buffer %d, flush mask %b)", clip(got), clip(want), bs, mask)
										}
										for _, p := range ms[:i+1] {
											if !strings.Contains(got, p.mark) {
												return fmt.Errorf("after a Flush the sink holds only %q, without %q of %s (buffer %d)", clip(got), p.mark, p.Desc, bs)
											}
										}
										n := len(s.b)
										if err := w.Flush(); err != nil || len(s.b) != n {
											return fmt.Errorf("a second Flush delivered more: %q (%v)", s.b[n:], err)
										}
									}
									if err := finish(w); err != nil {
										return err
									}
									c.res.Traces++
									if s.String() != want {
										return fmt.Errorf("with flush mask %b and buffer %d the output is %q, without flushing %q", mask, bs, clip(s.String()), clip(want))
									}
								}
							}
							c.Outcome(want)
							return nil
						})
						return !c.Stop()
					})
				}})
			}
			rp = append(rp,
				Part{"rich-every-size", "rich documents with every buffer size from 1 to beyond the document's length, with and without a Flush after every call", func(c *Ctx) {
					for di, ops := range richDocs() {
						ops := ops
						want, err := runAll(bufSetup(1<<16), ops)
						for n := 1; n <= len(want)+40 || n <= 2; n++ {
							n := n
							c.Case(func() string { return fmt.Sprintf("rich document %d with InitialBufSize=%d", di, n) }, func() error {
								if err != nil {
									return err
								}
								got, err := runAll(bufSetup(n), ops)
								if err != nil {
									return err
								}
								if got != want {
									return fmt.Errorf("gives %q, a large buffer %q", clip(got), clip(want))
								}
								var fl []Op
								for _, o := range ops {
									fl = append(fl, o, opFlush())
								}
								got, err = runAll(bufSetup(n), fl)
								if err != nil {
									return err
								}
								c.res.Traces += 2
								if got != want {
									return fmt.Errorf("flushing after every call gives %q, not flushing %q", clip(got), clip(want))
								}
								c.Outcome(fmt.Sprint(di, n))
								return nil
							})
						}
					}
				}},
				Part{"held-back", "after every call of rich documents, for every buffer size up to 300 (thorough: 3000): at most InitialBufSize bytes are held back", func(c *Ctx) {
					for di, ops := range richDocs() {
						for n := 1; n <= pick(th, 300, 3000); n++ {
							di, n, ops := di, n, ops
							c.Case(func() string { return fmt.Sprintf("rich document %d with InitialBufSize=%d", di, n) }, func() error {
								var a, b sink
								wa, wb := bufSetup(n).open(&a), bufSetup(n).open(&b)
								for _, o := range ops {
									if err := o.Do(wa); err != nil {
										return err
									}
									if err := o.Do(wb); err != nil {
										return err
									}
									if err := wb.Flush(); err != nil {
										return err
									}
									if !strings.HasPrefix(b.String(), a.String()) {
										return fmt.Errorf("after %s the sink holds %q, not a prefix of %q", o.Desc, clip(a.String()), clip(b.String()))
									}
									if held := len(b.b) - len(a.b); held > n {
										return fmt.Errorf("after %s %d bytes are held back", o.Desc, held)
									}
								}
								c.res.Traces++
								c.Outcome(fmt.Sprint(di, n))
								return nil
							})
						}
					}
				}},
				Part{"value-lengths", "every value length 0..70 with every buffer size 1..40 at every kind of site", func(c *Ctx) {
					for bs := 1; bs <= 40; bs++ {
						for l := 0; l <= pick(th, 70, 200); l++ {
							bs, l := bs, l
							c.Case(func() string { return fmt.Sprintf("values of length %d, InitialBufSize=%d", l, bs) }, func() error {
								v := strings.Repeat("é<a>😀", l/5+1)
								v = string([]rune(v)[:l])
								ops := []Op{
									opStart(xw.Elem{Name: "n" + strings.Repeat("m", l), Attrs: []xw.Attr{{Name: "a", Value: v}}}),
									opWrite(xw.Text(v)), opWrite(xw.Comment{Content: v}), opWrite(xw.CData{Content: v}), opWrite(xw.PI{Target: "t", Content: v}),
								}
								want, err := runAll(bufSetup(1<<16), ops)
								if err != nil {
									return err
								}
								got, err := runAll(bufSetup(bs), ops)
								if err != nil {
									return err
								}
								c.res.Traces++
								if got != want {
									return fmt.Errorf("gives %q, a large buffer %q", clip(got), clip(want))
								}
								r, err := runOps(ops, bufSetup(bs))
								if err != nil {
									return err
								}
								c.Outcome(want)
								return checkTree(r, false)
							})
						}
					}
				}},
			)
			return rp
		}})

	utf16 := func(bs int) func(dst io.Writer) *xw.Writer {
		return func(dst io.Writer) *xw.Writer {
			return xw.OpenEncoding(dst, "utf-16be", unicode.UTF16(unicode.BigEndian, unicode.UseBOM).NewEncoder(), withBuf(bs))
		}
	}
	register(&Prop{ID: "C27", Level: "fault_enumeration",
		Rule:        "every document of the set x buffer sizes x every write the fault-free run makes to the sink x the kinds of failure (error with nothing / half / everything written, short write) x permanent or transient x flushing after every call or only at the end; non-trivial = a distinct (sink content, fault)",
		Assumptions: []string{"after the first failed call the caller either goes straight to EndAllFlush or makes the remaining calls regardless (as ec.Do(a, b, c) does); both are explored", "a short write without an error (which io.Writer forbids) must be reported or made good; it is injected on the UTF-8 path only: x/text's transform.Writer does not look at the count"},
		Parts: func(th bool) []Part {
			sweep := func(c *Ctx, desc string, open func(bs int) func(io.Writer) *xw.Writer, kinds int, sizes []int, ops []Op) {
				for _, bs := range sizes {
					for _, fe := range []bool{false, true} {
						run := ops
						if fe {
							run = nil
							for _, o := range ops {
								run = append(run, o, opFlush())
							}
						}
						cf := &faultSink{}
						w := open(bs)(cf)
						var cerr error
						for _, o := range run {
							if err := o.Do(w); err != nil && cerr == nil {
								cerr = err
							}
						}
						if err := w.EndAllFlush(); err != nil && cerr == nil {
							cerr = err
						}
						clean := string(cf.b)
						if cerr != nil {
							c.Case(func() string { return desc + ", no fault" }, func() error { return cerr })
							continue
						}
						for at := 1; at <= cf.n; at++ {
							for kind := 0; kind < kinds; kind++ {
								for _, once := range []bool{false, true} {
									at, kind, once, bs, fe := at, kind, once, bs, fe
									c.Case(func() string {
										return fmt.Sprintf("%s; buffer %d, flush after each call %v; sink write %d of %d: %s, once=%v", desc, bs, fe, at, cf.n, faultNames[kind], once)
									}, func() error {
										c.res.Traces += 2
										if err := checkFault(c, open(bs), ops, fe, clean, at, kind, once, false); err != nil {
											return err
										}
										if err := checkFault(c, open(bs), ops, fe, clean, at, kind, once, true); err != nil {
											return fmt.Errorf("when the caller carries on after an error: %v", err)
										}
										return nil
									})
								}
							}
						}
					}
				}
			}
			utf8w := func(bs int) func(io.Writer) *xw.Writer {
				return func(dst io.Writer) *xw.Writer { return xw.Open(dst, withBuf(bs)) }
			}
			indented := func(bs int) func(io.Writer) *xw.Writer {
				return func(dst io.Writer) *xw.Writer { return xw.Open(dst, withBuf(bs), xw.WithIndent()) }
			}
			return []Part{
				{"rich", "rich documents, UTF-8", func(c *Ctx) {
					for di, ops := range richDocs() {
						sweep(c, fmt.Sprintf("rich document %d", di), utf8w, 4, []int{1, 7, 16, 64, 512, 1 << 15}, ops)
					}
				}},
				{"rich-indented", "rich documents, indented", func(c *Ctx) {
					for di, ops := range richDocs() {
						sweep(c, fmt.Sprintf("rich document %d, indented", di), indented, 4, []int{1, 16, 512}, ops)
					}
				}},
				{"rich-utf16", "rich documents through an encoder", func(c *Ctx) {
					for di, ops := range richDocs() {
						sweep(c, fmt.Sprintf("rich document %d in UTF-16", di), utf16, 2, []int{1, 16, 512}, ops)
					}
				}},
				errorValuesPart(th, utf16),
				{"sequences", "every accepted sequence of calls below a root element", func(c *Ctx) {
					for n := 0; n <= pick(th, 2, 3); n++ {
						for _, pre := range [][]mop{nil, {{opStart(xw.Doc{}), ""}, {opStart(xw.Elem{Name: "root"}), ""}}, {{opStart(xw.Doc{}), ""}, {opStart(xw.DTD{Name: "root"}), ""}}} {
							mseqs(pre, n, func(ms []mop) bool {
								sweep(c, descOps(plain(ms)), utf8w, 4, []int{1, 16, 2048}, plain(ms))
								return !c.Stop()
							})
						}
					}
				}},
			}
		}})
}

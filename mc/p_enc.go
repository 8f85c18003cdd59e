package main

// C16: encodings other than UTF-8.

import (
	"fmt"
	"io"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/korean"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"
	"golang.org/x/text/encoding/unicode"
	"golang.org/x/text/encoding/unicode/utf32"
)

type encCase struct {
	name  string
	label string
	enc   encoding.Encoding
	// probe encodes single runes without a byte order mark
	probe encoding.Encoding
	wide  bool // represents all of Unicode
	multi bool
}

func label(s string) string {
	b := []byte{}
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z', c >= '0' && c <= '9' && len(b) > 0:
			b = append(b, c)
		case len(b) > 0:
			b = append(b, '-')
		}
	}
	return string(b)
}

func encCases() []encCase {
	var out []encCase
	seen := map[string]bool{}
	for _, e := range charmap.All {
		n := fmt.Sprint(e)
		if seen[n] {
			continue
		}
		seen[n] = true
		out = append(out, encCase{n, label(n), e, e, false, false})
	}
	for _, e := range []encoding.Encoding{japanese.ShiftJIS, japanese.EUCJP, korean.EUCKR, simplifiedchinese.GBK, traditionalchinese.Big5} {
		out = append(out, encCase{fmt.Sprint(e), label(fmt.Sprint(e)), e, e, false, true})
	}
	out = append(out, encCase{"GB18030", "gb18030", simplifiedchinese.GB18030, simplifiedchinese.GB18030, true, true})
	out = append(out, encCase{"UTF-8", "utf-8", unicode.UTF8, unicode.UTF8, true, true})
	for _, e := range []struct {
		n  string
		en unicode.Endianness
	}{{"be", unicode.BigEndian}, {"le", unicode.LittleEndian}} {
		p := unicode.UTF16(e.en, unicode.IgnoreBOM)
		out = append(out, encCase{"UTF-16" + e.n + " with BOM", "utf-16", unicode.UTF16(e.en, unicode.UseBOM), p, true, true},
			encCase{"UTF-16" + e.n + " without BOM", "utf-16" + e.n, p, p, true, true})
	}
	for _, e := range []struct {
		n  string
		en utf32.Endianness
	}{{"be", utf32.BigEndian}, {"le", utf32.LittleEndian}} {
		p := utf32.UTF32(e.en, utf32.IgnoreBOM)
		out = append(out, encCase{"UTF-32" + e.n + " with BOM", "utf-32", utf32.UTF32(e.en, utf32.UseBOM), p, true, true},
			encCase{"UTF-32" + e.n + " without BOM", "utf-32" + e.n, p, p, true, true})
	}
	return out
}

func (e encCase) setup(opts ...xw.Option) *Setup {
	return &Setup{Open: func(dst io.Writer) *xw.Writer {
		return xw.OpenEncoding(dst, e.label, e.enc.NewEncoder(), opts...)
	}, Model: func(m *Model) { m.Enc = e.label }}
}

func (e encCase) decode(s string) (string, error) {
	return e.enc.NewDecoder().String(s)
}

// asciiRefs: the bytes of an ASCII character reference mean the same in the
// encoding (x/text writes references as raw ASCII bytes).
func (e encCase) asciiRefs() bool {
	if e.wide {
		return true
	}
	b, err := e.probe.NewEncoder().String("&#0123456789;")
	return err == nil && b == "&#0123456789;"
}

type repr int

const (
	reprNo repr = iota
	reprYes
	reprLossy // the encoder accepts it but its own decoder does not give it back
)

func (e encCase) represents(en *encoding.Encoder, de *encoding.Decoder, r rune) repr {
	if e.wide && !(e.multi && strings.HasPrefix(e.name, "GB")) {
		return reprYes
	}
	b, err := en.String(string(r))
	if err != nil {
		return reprNo
	}
	d, err := de.String(b)
	if err != nil || d != string(r) {
		return reprLossy
	}
	return reprYes
}

// specials are runes of every UTF-8 length, representable somewhere or nowhere.
var specials = []string{"a", "é", "ß", "ж", "€", "中", "あ", "한", "\ufffd", "😀", "\U00020000", "\u00a0", "\u0080", "\u2028", "ÿ", "&", "]", "\U0010fffd"}

const knownEbcdic = "ebcdic-char-refs"
const knownUnrepr = "unrepresentable-outside-text"

func init() {
	register(&Prop{ID: "C16", Level: "model_checking",
		Rule:        "every code point x every stateless x/text encoding in text and attribute values, every alignment of characters against the buffer, every short call sequence through every encoding; the output is decoded with the encoding's own decoder, parsed and compared; non-trivial = a distinct (encoding, block) or output",
		Assumptions: []string{"characters that the x/text encoder itself does not round-trip are left out", "stateful encodings (ISO-2022-JP, HZ-GB2312) are left out: x/text's HTMLEscapeUnsupported does not return them to their initial state"},
		Parts: func(th bool) []Part {
			return []Part{
				{"code-points", "every strict XML character (quick: all of the BMP and the ends of every other plane) in text and in an attribute value, 1024 at a time, through every encoding", func(c *Ctx) {
					for _, e := range encCases() {
						en, de, refs := e.probe.NewEncoder(), e.probe.NewDecoder(), e.asciiRefs()
						for lo := rune(0); lo <= 0x10FFFF; lo += 1024 {
							lo, e := lo, e
							if in := lo & 0xFFFF; !th && lo > 0xFFFF && in >= 0x400 && in < 0xFC00 && !(lo < 0x20800 && e.multi) {
								continue
							}
							c.Case(func() string { return fmt.Sprintf("%s, U+%04X..U+%04X", e.name, lo, lo+1023) }, func() error {
								var yes, all strings.Builder
								for r := lo; r < lo+1024; r++ {
									if !specChars(string(r), true) || r >= 0xD800 && r <= 0xDFFF {
										continue
									}
									switch e.represents(en, de, r) {
									case reprYes:
										yes.WriteRune(r)
										all.WriteRune(r)
									case reprNo:
										if refs {
											all.WriteRune(r)
										}
									}
								}
								v := all.String()
								var s sink
								w := e.setup(withBuf(100)).open(&s)
								for _, o := range []Op{opStart(xw.Doc{}), opStart(xw.Elem{Name: "r"}), opWrite(xw.Attr{Name: "a", Value: v}), opWrite(xw.Text(v)), opWrite(xw.Comment{Content: "c" + strings.Replace(yes.String(), "-", "", -1)})} {
									if err := o.Do(w); err != nil {
										return err
									}
								}
								if err := w.EndAllFlush(); err != nil {
									return err
								}
								c.res.Traces++
								c.Outcome(fmt.Sprint(e.name, lo))
								d, err := e.decode(s.String())
								if err != nil {
									return fmt.Errorf("the output does not decode: %v", err)
								}
								t, err := parseFragment(d)
								if err != nil {
									return fmt.Errorf("%v", err)
								}
								t.mergeText()
								if len(t.Kids) != 2 || len(t.Kids[1].Attrs) != 1 {
									return fmt.Errorf("wrong shape: %s", clip(t.String()))
								}
								if enc := t.Kids[0]; !strings.Contains(enc.String(), e.label) {
									return fmt.Errorf("the declaration does not say %q: %s", e.label, enc.String())
								}
								if got := t.Kids[1].Attrs[0].Value; got != v {
									return fmt.Errorf("attribute value: %s", firstDiff(got, v))
								}
								var text, comment string
								for _, k := range t.Kids[1].Kids {
									if k.Kind == "text" {
										text += k.Value
									} else {
										comment = k.Value
									}
								}
								if text != v {
									return fmt.Errorf("text: %s", firstDiff(text, v))
								}
								if want := readBack("c" + strings.Replace(yes.String(), "-", "", -1)); comment != want {
									return fmt.Errorf("comment: %s", firstDiff(comment, want))
								}
								return nil
							})
						}
					}
				}},
				{"alignment", "every alignment of characters of every UTF-8 length against buffers of 1..24 bytes, with a Flush after every call or none", func(c *Ctx) {
					for _, e := range encCases() {
						en, de, refs := e.probe.NewEncoder(), e.probe.NewDecoder(), e.asciiRefs()
						for bs := 1; bs <= pick(th, 24, 64); bs++ {
							for pad := 0; pad <= bs; pad++ {
								e, bs, pad := e, bs, pad
								c.Case(func() string { return fmt.Sprintf("%s, InitialBufSize=%d, %d bytes of padding", e.name, bs, pad) }, func() error {
									v := strings.Repeat("x", pad)
									for _, s := range specials {
										r := []rune(s)[0]
										if rp := e.represents(en, de, r); specChars(s, true) && rp != reprLossy && (refs || rp == reprYes) {
											v += s
										}
									}
									for _, fl := range []bool{false, true} {
										ops := []Op{opStart(xw.Doc{}), opStart(xw.Elem{Name: "r"}), opWrite(xw.Attr{Name: "a", Value: v}), opWrite(xw.Text(v)), opWrite(xw.Text(v)), opWrite(xw.Elem{Name: "z"})}
										var run []Op
										for _, o := range ops {
											run = append(run, o)
											if fl {
												run = append(run, opFlush())
											}
										}
										st := e.setup(withBuf(bs))
										r, err := runOps(run, st)
										if err != nil {
											return err
										}
										c.res.Traces++
										d, err := e.decode(r.Out)
										if err != nil {
											return fmt.Errorf("the output does not decode: %v", err)
										}
										r.Out = d
										if err := checkTree(r, false); err != nil {
											return err
										}
										c.Outcome(e.name + d)
										big, err := runAll(e.setup(withBuf(1<<16)), run)
										if err != nil {
											return err
										}
										if bigd, err := e.decode(big); err != nil || bigd != d {
											return fmt.Errorf("a large buffer gives %q (%v), this one %q", clip(bigd), err, clip(d))
										}
									}
									return nil
								})
							}
						}
					}
				}},
				{"flush-delivers", "after a Flush everything written so far can be decoded, at every alignment", func(c *Ctx) {
					for _, e := range encCases() {
						en, de, refs := e.probe.NewEncoder(), e.probe.NewDecoder(), e.asciiRefs()
						for bs := 1; bs <= 24; bs++ {
							for _, s := range specials {
								e, bs, s := e, bs, s
								if r := []rune(s)[0]; !specChars(s, true) || e.represents(en, de, r) == reprLossy || s == "&" || !refs && e.represents(en, de, r) == reprNo {
									continue
								}
								c.Case(func() string { return fmt.Sprintf("%s, InitialBufSize=%d, text %q, Flush after each", e.name, bs, s) }, func() error {
									var k sink
									w := e.setup(withBuf(bs)).open(&k)
									if err := w.StartElem(xw.Elem{Name: "r"}); err != nil {
										return err
									}
									want := "<r>"
									one := s
									if e.represents(en, de, []rune(s)[0]) == reprNo {
										one = fmt.Sprintf("&#%d;", []rune(s)[0])
									}
									for i := 0; i < 30; i++ {
										if err := w.WriteText(s); err != nil {
											return err
										}
										want += one
										if err := w.Flush(); err != nil {
											return err
										}
										got, err := e.decode(k.String())
										if err != nil || got != want {
											return fmt.Errorf("after %d writes and a Flush the sink decodes to %q (%v), want %q", i+1, clip(got), err, clip(want))
										}
									}
									c.res.Traces++
									c.Outcome(e.name + want)
									return nil
								})
							}
						}
					}
				}},
				{"sequences", "every call sequence of up to 2 (thorough: 3) calls over the full alphabet through every encoding: decoded, it is what the UTF-8 writer gives with another label, and the same bytes with a Flush after every call", func(c *Ctx) {
					for _, e := range encCases() {
						e := e
						for _, pre := range [][]Op{nil, {opStart(xw.Doc{}), opStart(xw.Elem{Name: "root"})}} {
							pre := pre
							c.sequences(seqOpts{depth: pick(th, 2, 3), prefix: pre, setup: e.setup(withBuf(32)), pruneRefused: true, judge: func(ops []Op, r *runResult) error {
								if r.Poisoned {
									return nil
								}
								_, want, errs := snapshot(nil, ops)
								if strings.Contains(errs, "end:") {
									return errSkip // a comment ending in '-' is completed by the runner
								}
								d, err := e.decode(r.Out)
								if err != nil {
									return err
								}
								if w := strings.Replace(want, `encoding="UTF-8"`, `encoding="`+e.label+`"`, -1); d != w {
									return fmt.Errorf("decodes to %q, want %q", clip(d), clip(w))
								}
								var fl []Op
								for _, o := range ops {
									fl = append(fl, o, opFlush())
								}
								fr, err := runOps(fl, e.setup(withBuf(32)))
								if err != nil {
									return fmt.Errorf("with a Flush after every call: %v", err)
								}
								if fr.Out != r.Out {
									return fmt.Errorf("with a Flush after every call the bytes are %q, without %q", clip(fr.Out), clip(r.Out))
								}
								return nil
							}}, alphaFull)
						}
					}
				}},
				{"rich", "rich documents through every encoding with several buffer sizes, indented and not, flushing after every call or not: decoded, they are the document", func(c *Ctx) {
					for _, e := range encCases() {
						en, de := e.probe.NewEncoder(), e.probe.NewDecoder()
						for di, ops := range richDocs() {
							lossy := !e.asciiRefs()
							plainOut, _ := runAll(nil, ops)
							for _, r := range plainOut {
								lossy = lossy || r != '\n' && e.represents(en, de, r) == reprLossy
							}
							if lossy {
								continue
							}
							for _, bs := range []int{16, 17, 33, 64, 500, 2048, 5000} {
								for v := 0; v < 4; v++ {
									e, di, ops, bs, v := e, di, ops, bs, v
									c.Case(func() string {
										return fmt.Sprintf("%s, rich document %d, InitialBufSize=%d, indented %v, flushing %v", e.name, di, bs, v&1 > 0, v&2 > 0)
									}, func() error {
										opts := []xw.Option{withBuf(bs)}
										if v&1 > 0 {
											opts = append(opts, xw.WithIndent())
										}
										run := ops
										if v&2 > 0 {
											run = nil
											for _, o := range ops {
												run = append(run, o, opFlush())
											}
										}
										r, err := runOps(run, e.setup(opts...))
										if err != nil {
											return err
										}
										c.res.Traces++
										c.Outcome(e.name + r.Out)
										if r.Out, err = e.decode(r.Out); err != nil {
											return fmt.Errorf("the output does not decode: %v", err)
										}
										if v&1 > 0 {
											var is sink
											w := xw.Open(&is, xw.WithIndent())
											for _, o := range ops {
												if err := o.Do(w); err != nil {
													return err
												}
											}
											if err := w.EndAllFlush(); err != nil {
												return err
											}
											var b strings.Builder
											for _, ch := range is.String() {
												if e.represents(en, de, ch) == reprNo {
													fmt.Fprintf(&b, "&#%d;", ch)
												} else {
													b.WriteRune(ch)
												}
											}
											want := strings.Replace(b.String(), `encoding="UTF-8"`, `encoding="`+e.label+`"`, 1)
											if r.Out != want {
												return fmt.Errorf("%s", firstDiff(r.Out, want))
											}
											return nil
										}
										return checkTree(r, false)
									})
								}
							}
						}
					}
				}},
				{"other-sites", "a character the encoding represents, and one it does not, at every other site (names, comments, CDATA, PIs, declarations)", func(c *Ctx) {
					type site struct {
						name  string
						ops   func(s string) []Op
						refs  bool // character references are allowed here
						chars []string
					}
					names := []string{"é", "ā", "ß", "ñ"} // on which CheckName and the grammar agree (C12)
					any := []string{"é", "ж", "€", "中", "한", "あ", "😀", "ß"}
					sites := []site{
						{"element name", func(s string) []Op { return []Op{opWrite(xw.Elem{Name: "a" + s})} }, false, names},
						{"attribute name", func(s string) []Op {
							return []Op{opStart(xw.Elem{Name: "a"}), opWrite(xw.Attr{Name: "b" + s, Value: "v"})}
						}, false, names},
						{"comment", func(s string) []Op { return []Op{opWrite(xw.Comment{Content: "a" + s + "b"})} }, false, any},
						{"comment content", func(s string) []Op { return []Op{opStart(xw.Comment{}), opWrite(xw.CommentContent("a" + s))} }, false, any},
						{"CDATA", func(s string) []Op {
							return []Op{opStart(xw.Elem{Name: "a"}), opWrite(xw.CData{Content: "a" + s + "b"})}
						}, false, any},
						{"PI target", func(s string) []Op { return []Op{opWrite(xw.PI{Target: "a" + s, Content: "v"})} }, false, names},
						{"PI content", func(s string) []Op { return []Op{opWrite(xw.PI{Target: "a", Content: "v" + s})} }, false, any},
						{"DTD name", func(s string) []Op { return []Op{opStart(xw.DTD{Name: "a" + s})} }, false, names},
						{"DTD system ID", func(s string) []Op { return []Op{opStart(xw.DTD{Name: "a", SystemID: "s" + s})} }, false, any},
						{"DTD attribute default", func(s string) []Op {
							return []Op{opStart(xw.DTD{Name: "a"}), opWrite(xw.DTDAttList{Name: "l", Attrs: []xw.DTDAttr{{Name: "x", Type: xw.DTDAttrString, Value: "v" + s}}})}
						}, true, any},
						{"namespace URI", func(s string) []Op { return []Op{opWrite(xw.Elem{Prefix: "p", URI: "u" + s, Name: "a"})} }, true, any},
						{"text", func(s string) []Op { return []Op{opStart(xw.Elem{Name: "a"}), opWrite(xw.Text("t" + s))} }, true, any},
						{"attribute value", func(s string) []Op {
							return []Op{opWrite(xw.Elem{Name: "a", Attrs: []xw.Attr{{Name: "b", Value: "t" + s}}})}
						}, true, any},
						{"element content", func(s string) []Op {
							return []Op{opWrite(xw.Elem{Name: "a", Content: []xw.Writable{xw.Text("t" + s)}})}
						}, true, any},
					}
					for _, e := range encCases() {
						en, de := e.probe.NewEncoder(), e.probe.NewDecoder()
						for _, si := range sites {
							for _, ch := range si.chars {
								e, si, ch := e, si, ch
								rp := e.represents(en, de, []rune(ch)[0])
								if rp == reprLossy {
									continue
								}
								c.Case(func() string { return fmt.Sprintf("%s, %q in %s", e.name, ch, si.name) }, func() error {
									ops := si.ops(ch)
									r, err := runOps(ops, e.setup(withBuf(32)))
									if err != nil {
										if rp == reprNo && !si.refs && strings.Contains(err.Error(), "must be accepted") {
											return nil // refusing what cannot be written is fine
										}
										return err
									}
									c.res.Traces++
									c.Outcome(e.name + si.name + r.Out)
									raw := r.Out
									d, err := e.decode(raw)
									if err != nil {
										return err
									}
									r.Out = d
									err = checkTree(r, false)
									if err != nil && rp == reprNo && !e.asciiRefs() {
										// exactly: the reference is there, but as ASCII bytes
										ref := fmt.Sprintf("&#%d;", []rune(ch)[0])
										plainOut, perr := runAll(nil, ops)
										parts := strings.Split(plainOut, ch)
										for i := range parts {
											parts[i], _ = e.probe.NewEncoder().String(parts[i])
										}
										if perr == nil && raw == strings.Join(parts, ref) {
											return knownErr{knownEbcdic, err}
										}
									}
									if err != nil && rp == reprNo && !si.refs {
										plainOut, perr := runAll(nil, ops)
										if perr == nil && d == strings.Replace(plainOut, ch, fmt.Sprintf("&#%d;", []rune(ch)[0]), -1) {
											return knownErr{knownUnrepr, err}
										}
									}
									return err
								})
							}
						}
					}
				}},
			}
		}})
}

func firstDiff(got, want string) string {
	g, w := []rune(got), []rune(want)
	for i := 0; i < len(g) && i < len(w); i++ {
		if g[i] != w[i] {
			lo := i - 3
			if lo < 0 {
				lo = 0
			}
			hg, hw := i+8, i+8
			if hg > len(g) {
				hg = len(g)
			}
			if hw > len(w) {
				hw = len(w)
			}
			return fmt.Sprintf("at character %d got %q, want %q", i, string(g[lo:hg]), string(w[lo:hw]))
		}
	}
	return fmt.Sprintf("got %d characters, want %d", len(g), len(w))
}

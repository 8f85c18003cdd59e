package main

import (
	"fmt"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

// docValues are the declarations of every combination of options.
func docValues(th bool) []xw.Doc {
	str := func(s string) *string { return &s }
	no, yes := false, true
	fvs, fes := []*string{nil, str("1.1")}, []*string{nil, str("latin-1"), str("1bad")}
	if th {
		fvs, fes = append(fvs, str("1.0"), str("")), append(fes, str(""), str("UTF-8"))
	}
	var out []xw.Doc
	for _, sv := range []bool{false, true} {
		for _, fv := range fvs {
			for _, se := range []bool{false, true} {
				for _, fe := range fes {
					for _, sa := range []*bool{nil, &no, &yes} {
						out = append(out, xw.Doc{SuppressVersion: sv, ForcedVersion: fv, SuppressEncoding: se, ForcedEncoding: fe, Standalone: sa})
					}
				}
			}
		}
	}
	return out
}

// docsPart puts every declaration after and before other things.
func docsPart(th bool) Part {
	return Part{"declared-documents", "every combination of SuppressVersion, ForcedVersion, SuppressEncoding, ForcedEncoding and Standalone, at the start, after a document, after a document with the same declaration, after an element, after a comment and an instruction, and after a refused one; followed by nothing, an element, a type declaration, a comment, an instruction or another document", func(c *Ctx) {
		elem := xw.Elem{Name: "r", Attrs: []xw.Attr{{Name: "a", Value: "v"}}, Content: []xw.Writable{xw.Elem{Name: "k"}}}
		for _, d := range docValues(th) {
			befores := [][]Op{nil,
				{opStart(xw.Doc{}.WithStandalone(true)), opWrite(xw.Elem{Name: "first"}), opEndAll()},
				{opStart(d), opWrite(xw.Elem{Name: "first"}), opEndAll()},
				{opStart(d), opEndAny()},
				{opWrite(elem)},
				{opWrite(xw.Comment{Content: "c"}), opWrite(xw.PI{Target: "t", Content: "p"})},
				{opStart(xw.Doc{}.ForceEncoding("no good").WithStandalone(false)), opStart(xw.Elem{Name: "e"}), opStart(d), opEndAny()},
			}
			afters := [][]Op{nil, {opWrite(elem)},
				{opStart(xw.DTD{Name: "r", SystemID: "s"}), opWrite(xw.DTDElem{Name: "r", Decl: "ANY"}), opEndAny(), opStart(elem), opEndAll()},
				{opWrite(xw.Comment{Content: "c"}), opStart(xw.Elem{Name: "r"})}, {opWrite(xw.PI{Target: "t", Content: "p"})},
				{opStart(d), opWrite(xw.Elem{Name: "r"}), opEndDoc(), opStart(xw.Doc{})},
			}
			for i, b := range befores {
				for j, a := range afters {
					d, i, j := d, i, j
					ops := append(append(append([]Op{}, b...), opStart(d)), a...)
					c.Case(func() string { return fmt.Sprintf("%s after %d, before %d", describe(d), i, j) }, func() error {
						return c.ends(ops, small, false)
					})
				}
			}
		}
	}}
}

// layoutsPart: the bytes of the declaration and what follows it under every
// other option of the writer, changed before opening or between documents.
func layoutsPart(th bool) Part {
	return Part{"written", "every combination of the declaration's options x Writer.Version x NewlineString x no, the standard or another indenter x Enforce x StrictChars, set when opening or between two documents: the bytes of the declaration, and the newline after it", func(c *Ctx) {
		for _, d := range docValues(th) {
			for _, wv := range []string{"", "1.1"} {
				for _, nl := range []string{"\n", "\r\n", ""} {
					for ind := 0; ind < 3; ind++ {
						for flags := 0; flags < 4; flags++ {
							for when := 0; when < 3; when++ {
								d, wv, nl, ind, flags, when := d, wv, nl, ind, flags, when
								if d.ForcedEncoding != nil && !d.SuppressEncoding && !specEncName(*d.ForcedEncoding) && *d.ForcedEncoding != "" {
									continue
								}
								c.Case(func() string {
									return fmt.Sprintf("%s with Version %q, NewlineString %q, indenter %d, flags %b, when %d", describe(d), wv, nl, ind, flags, when)
								}, func() error {
									set := func(w *xw.Writer) {
										w.Version, w.NewlineString = wv, nl
										w.Enforce, w.StrictChars = flags&1 == 0, flags&2 == 0
										switch ind {
										case 1:
											w.Indenter = xw.NewStandardIndenter()
										case 2:
											w.Indenter = silentIndenter{}
										}
									}
									var s sink
									w := xw.Open(&s, opt(func(w *xw.Writer) {
										if when == 0 {
											set(w)
										}
									}))
									c.res.Traces++
									if when == 2 {
										if err := firstErr(func() error { return w.StartDoc(xw.Doc{}.WithStandalone(true)) }, func() error { return w.EndDoc() }); err != nil {
											return err
										}
									}
									if when > 0 {
										set(w)
									}
									if err := w.Flush(); err != nil {
										return err
									}
									s.b = s.b[:0]
									want := declOf(d, wv, "UTF-8")
									if err := firstErr(func() error { return w.Start(d) }, func() error { return w.WriteElem(xw.Elem{Name: "r"}) }, w.EndDoc, w.Flush); err != nil {
										return err
									}
									got := s.String()
									c.Outcome(got)
									body := strings.TrimLeft(got, "\r\n")
									if when < 2 && body != got || ind != 1 && body != got {
										return fmt.Errorf("got %q, want nothing before the declaration", got)
									}
									i := strings.Index(body, "?>")
									if i < 0 || strings.TrimRight(body[:i], " ") != want {
										return fmt.Errorf("got %q, want %q", got, want)
									}
									rest := body[i+2:]
									if !strings.HasPrefix(rest, nl) {
										return fmt.Errorf("after the declaration: %q, want %q first", rest, nl)
									}
									rest = rest[len(nl):]
									if ind == 1 {
										rest = strings.Trim(rest, "\r\n")
									}
									if rest != "<r/>" {
										return fmt.Errorf("after the declaration and %q: %q", nl, rest)
									}
									return nil
								})
							}
						}
					}
				}
			}
		}
	}}
}

// silentIndenter writes nothing.
type silentIndenter struct{}

func (silentIndenter) Indent(w *xw.Writer, last, next xw.Event) error { return nil }
func (silentIndenter) Wrap(s string) string                           { return s }

// declOf is the declaration d is written as, without its end.
func declOf(d xw.Doc, version, enc string) string {
	want := "<?xml"
	if !d.SuppressVersion {
		v := version
		if v == "" {
			v = "1.0"
		}
		if d.ForcedVersion != nil {
			v = *d.ForcedVersion
		}
		want += ` version="` + v + `"`
	}
	if !d.SuppressEncoding {
		if d.ForcedEncoding != nil {
			enc = *d.ForcedEncoding
		}
		if enc != "" {
			want += ` encoding="` + enc + `"`
		}
	}
	if d.Standalone != nil {
		want += map[bool]string{true: ` standalone="yes"`, false: ` standalone="no"`}[*d.Standalone]
	}
	return want
}

func firstErr(fs ...func() error) error {
	for _, f := range fs {
		if err := f(); err != nil {
			return err
		}
	}
	return nil
}

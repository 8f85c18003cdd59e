package main

import (
	"encoding/xml"
	"fmt"
	"io"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

// documentShape: the model's tree is a document entity (caller kept the
// document-level ordering that the writer leaves to the caller).
func documentShape(t *XNode) bool {
	roots, dtds := 0, 0
	for i, k := range t.Kids {
		switch k.Kind {
		case "xmldecl":
			if i != 0 {
				return false
			}
		case "doctype":
			dtds++
			if dtds > 1 || roots > 0 {
				return false
			}
		case "elem":
			roots++
		case "comment", "pi":
		default:
			return false
		}
	}
	return roots == 1
}

// judgeWF: the output is complete and well formed.
func judgeWF(ops []Op, r *runResult) error {
	if r.Poisoned {
		return nil
	}
	if _, err := parseFragment(r.Out); err != nil {
		return fmt.Errorf("%v\noutput: %q", err, clip(r.Out))
	}
	if documentShape(r.Tree) {
		if _, err := parseDocument(r.Out); err != nil {
			return fmt.Errorf("document: %v\noutput: %q", err, clip(r.Out))
		}
		// second, independent reader
		d := xml.NewDecoder(strings.NewReader(r.Out))
		for {
			_, err := d.RawToken()
			if err == io.EOF {
				break
			}
			if err != nil {
				return fmt.Errorf("encoding/xml: %v\noutput: %q", err, clip(r.Out))
			}
		}
	}
	return nil
}

func judgeTree(short bool) func(ops []Op, r *runResult) error {
	return func(ops []Op, r *runResult) error {
		if r.Poisoned {
			return nil
		}
		return checkTree(r, short)
	}
}

func pick(th bool, q, t int) int {
	if th {
		return t
	}
	return q
}

const ruleSeq = "every sequence of public API calls up to the stated length over the stated alphabet (stateless re-execution against the real Writer, each call compared with the reference model); non-trivial = a distinct output document; states = distinct canonical model states, transitions = distinct (state, call) pairs exercised on the real code"

var stdAssume = []string{
	"the caller does not write duplicate attribute names, nodes out of document order, Raw content or malformed DTD content models (these are documented as the caller's responsibility)",
	"values are drawn from the stated alphabets; the alphabets contain every character the library treats specially",
}

func init() {
	register(&Prop{ID: "C01", Level: "model_checking", Rule: ruleSeq, Assumptions: stdAssume, Parts: func(th bool) []Part {
		return []Part{
			{"full", fmt.Sprintf("all call sequences of length <= %d over the full 37-call alphabet", pick(th, 3, 4)), func(c *Ctx) {
				c.sequences(seqOpts{depth: pick(th, 3, 4), judge: judgeWF}, alphaFull)
			}},
			{"in-doc", "the same below an open document and root element", func(c *Ctx) {
				c.sequences(seqOpts{depth: pick(th, 3, 4), judge: judgeWF, prefix: []Op{opStart(xw.Doc{}), opStart(xw.Elem{Name: "root"})}}, alphaFull)
			}},
			{"after-dtd", "the same after a document type declaration", func(c *Ctx) {
				c.sequences(seqOpts{depth: pick(th, 3, 4), judge: judgeWF, prefix: []Op{opStart(xw.Doc{}), opStart(xw.DTD{Name: "r"})}}, alphaFull)
			}},
			{"tree-deep", "element content, longer sequences", func(c *Ctx) {
				c.sequences(seqOpts{depth: pick(th, 5, 7), judge: judgeWF, pruneRefused: true, prefix: []Op{opStart(xw.Doc{}), opStart(xw.Elem{Name: "root"})}}, alphaTree)
			}},
			{"dtd-deep", "markup declarations, longer sequences", func(c *Ctx) {
				c.sequences(seqOpts{depth: pick(th, 5, 6), judge: judgeWF, pruneRefused: true, prefix: []Op{opStart(xw.Doc{})}}, alphaDTD)
			}},
			{"content-deep", "comment and CDATA sections in pieces", func(c *Ctx) {
				c.sequences(seqOpts{depth: pick(th, 4, 5), judge: judgeWF, prefix: []Op{opStart(xw.Elem{Name: "root"})}}, alphaContent)
			}},
			{"text-pieces", fmt.Sprintf("every sequence of up to %d calls that write text in pieces that can join into markup delimiters", pick(th, 5, 6)), func(c *Ctx) {
				c.sequences(seqOpts{depth: pick(th, 5, 6), judge: judgeWF, pruneRefused: true, prefix: []Op{opStart(xw.Elem{Name: "root"})}}, textPieces)
			}},
			{"equal-calls", "call sequences over the full alphabet with the same values at every position", func(c *Ctx) {
				c.sequences(seqOpts{depth: pick(th, 3, 4), judge: judgeWF, prefix: []Op{opStart(xw.Elem{Name: "root"})}}, sameValues(alphaFull))
			}},
			refusalsPart(th, judgeWF), compoundPart(th), delimFieldsPart(judgeWF), listsPart(th),
		}
	}})
	register(&Prop{ID: "C02", Level: "model_checking", Rule: ruleSeq, Assumptions: stdAssume, Parts: func(th bool) []Part {
		j := judgeTree(false)
		return []Part{
			{"full", fmt.Sprintf("all call sequences of length <= %d over the full alphabet", pick(th, 3, 4)), func(c *Ctx) {
				c.sequences(seqOpts{depth: pick(th, 3, 4), judge: j}, alphaFull)
			}},
			{"in-doc", "the same below an open document and root element", func(c *Ctx) {
				c.sequences(seqOpts{depth: pick(th, 3, 4), judge: j, prefix: []Op{opStart(xw.Doc{}), opStart(xw.Elem{Name: "root"})}}, alphaFull)
			}},
			{"tree-deep", "element content, longer sequences", func(c *Ctx) {
				c.sequences(seqOpts{depth: pick(th, 6, 7), judge: j, pruneRefused: true}, alphaTree)
			}},
			{"dtd-deep", "markup declarations, longer sequences", func(c *Ctx) {
				c.sequences(seqOpts{depth: pick(th, 4, 5), judge: j, pruneRefused: true, prefix: []Op{opStart(xw.Doc{}), opStart(xw.DTD{Name: "r"})}}, alphaDTD)
			}},
			{"text-pieces", fmt.Sprintf("every sequence of up to %d calls that write text in pieces", pick(th, 5, 6)), func(c *Ctx) {
				c.sequences(seqOpts{depth: pick(th, 5, 6), judge: j, pruneRefused: true, prefix: []Op{opStart(xw.Elem{Name: "root"})}}, textPieces)
			}},
			{"equal-calls", "call sequences with the same values at every position: full alphabet, element content, markup declarations, sections in pieces", func(c *Ctx) {
				for _, pre := range [][]Op{nil, {opStart(xw.Elem{Name: "root"})}, {opStart(xw.Doc{}), opStart(xw.DTD{Name: "r"})}} {
					c.sequences(seqOpts{depth: pick(th, 3, 4), judge: j, prefix: pre}, sameValues(alphaFull))
				}
				c.sequences(seqOpts{depth: pick(th, 5, 6), judge: j, pruneRefused: true, prefix: []Op{opStart(xw.Elem{Name: "root"})}}, sameValues(alphaTree))
				c.sequences(seqOpts{depth: pick(th, 4, 5), judge: j, pruneRefused: true, prefix: []Op{opStart(xw.DTD{Name: "r"})}}, sameValues(alphaDTD))
				c.sequences(seqOpts{depth: pick(th, 4, 5), judge: j, prefix: []Op{opStart(xw.Elem{Name: "root"})}}, alphaContent)
			}},
			blocksPart(th), elemCoincidences(), repeatPart(th), refusalsPart(th, j), listsPart(th), delimFieldsPart(j),
			{"node-pairs", "as coincidences, for content nodes other than elements", pairsPart("content").Run},
		}
	}})
}

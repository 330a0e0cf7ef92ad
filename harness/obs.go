package main

import (
	"fmt"
	"strings"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/parser"

	"verif/harness/ref"
)

// What a parse case looks at. Each property names the aspects its statement is about.
const (
	aValid     = 1 << iota // IsValid against the grammar
	aMatch                 // Matches against the grammar
	aLevel                 // level and feature of the result
	aParse                 // parses or not
	aErrKind               // the kind of the error
	aOuter                 // start's lower and end's upper time
	aInner                 // start's upper and end's lower time
	aYMD                   // calendar days
	aFlags                 // uncertain, approximate
	aPrec                  // precision where predicted
	aOpen                  // open, unknown
	aIncl                  // inclusivity
	aRangeEDTF             // EDTF strings of start and end
)

var cornerName = [4]string{"start.lower", "start.upper", "end.lower", "end.upper"}

func corners(d *edtf.EDTFDate) (c [4]*edtf.Date, ok bool) {
	if d == nil || d.Start == nil || d.End == nil {
		return c, false
	}
	c = [4]*edtf.Date{d.Start.Lower, d.Start.Upper, d.End.Lower, d.End.Upper}
	for _, x := range c {
		if x == nil {
			return c, false
		}
	}
	return c, true
}

func errKind(err error) string {
	switch {
	case err == nil:
		return "none"
	case edtf.IsUnsupported(err):
		return "unsupported"
	case edtf.IsNotImplemented(err):
		return "notimplemented"
	case edtf.IsUnrecognized(err):
		return "unrecognized"
	case edtf.IsInvalid(err):
		return "invalid"
	case edtf.IsNotSet(err):
		return "notset"
	}
	return "other"
}

// checkParse is the conformance monitor: one string, the aspects asked for,
// against the reference model.
func checkParse(c *Ctx, s string, aspects int) (decided bool) {
	e := ref.Classify(s)
	return checkAgainst(c, s, &e, aspects)
}

func checkAgainst(c *Ctx, s string, e *ref.Exp, aspects int) (decided bool) {
	c.counts["family "+string(e.Family)]++
	if aspects&aValid != 0 && e.Valid != ref.Maybe {
		got := parser.IsValid(s)
		decided = true
		if got != (e.Valid == ref.Yes) {
			c.Fail("valid", "IsValid = %v, but as %s it should be %v", got, e.Family, !got)
		}
	}
	if aspects&aMatch != 0 && (e.Match || e.Valid == ref.No) {
		l, f, err := parser.Matches(s)
		decided = true
		switch {
		case e.Valid == ref.No:
			if err == nil {
				c.Fail("match", "matches level %d %q, but it is not EDTF", l, f)
			}
		case err != nil:
			c.Fail("match", "does not match: %v, but it is level %d %q", err, e.Level, e.Feature)
		case l != e.Level || f != e.Feature:
			c.Fail("match", "matches level %d %q, but it is level %d %q", l, f, e.Level, e.Feature)
		}
	}
	const parseAspects = aLevel | aParse | aErrKind | aOuter | aInner | aYMD | aFlags | aPrec | aOpen | aIncl | aRangeEDTF
	if aspects&parseAspects == 0 {
		return decided
	}
	d, err := parser.ParseString(s)
	if (d == nil) == (err == nil) {
		c.Fail("struct", "ParseString returned result %v and error %v", d, err)
		return true
	}
	if err != nil {
		c.counts["errors"]++
		if aspects&aParse != 0 && e.Parse != ref.Maybe {
			decided = true
			if e.Parse == ref.Yes {
				c.Fail("parse", "does not parse: %v", err)
			}
		}
		if aspects&aErrKind != 0 && e.Parse == ref.No && e.ErrKind != "" {
			decided = true
			if k := errKind(err); k != e.ErrKind {
				c.Fail("errkind", "error is of the kind %q, should be %q: %v", k, e.ErrKind, err)
			}
		}
		return decided
	}
	c.counts["results"]++
	if aspects&aParse != 0 && e.Parse != ref.Maybe {
		decided = true
		if e.Parse == ref.No {
			c.Fail("parse", "parses as %s, but it should not", render(d))
			return
		}
	}
	cs, ok := corners(d)
	if !ok {
		c.Fail("struct", "the result lacks a start, end, lower or upper")
		return true
	}
	if e.Parse == ref.No {
		return decided
	}
	if aspects&aLevel != 0 && e.Match {
		decided = true
		if d.Level != e.Level || d.Feature != e.Feature {
			c.Fail("level", "result is level %d %q, should be level %d %q", d.Level, d.Feature, e.Level, e.Feature)
		}
		if d.EDTF != s {
			c.Fail("level", "result's EDTF is %q", d.EDTF)
		}
	}
	if aspects&aRangeEDTF != 0 && e.RangeEDTF {
		decided = true
		if d.Start.EDTF != e.StartEDTF || d.End.EDTF != e.EndEDTF {
			c.Fail("rangeedtf", "start.edtf %q end.edtf %q, should be %q and %q", d.Start.EDTF, d.End.EDTF, e.StartEDTF, e.EndEDTF)
		}
	}
	return checkCorners(c, d, cs, e, aspects) || decided
}

// checkCorners compares the four dates of a result with those expected.
func checkCorners(c *Ctx, d *edtf.EDTFDate, cs [4]*edtf.Date, e *ref.Exp, aspects int) (decided bool) {
	for i := range cs {
		x, p := cs[i], &e.C[i]
		outer := i == 0 || i == 3
		if p.Kind != ref.KAny {
			if aspects&aOpen != 0 {
				decided = true
				if x.Open != (p.Kind == ref.KOpen) || x.Unknown != (p.Kind == ref.KUnknown) {
					c.Fail("open", "%s is open=%v unknown=%v: %s", cornerName[i], x.Open, x.Unknown, render(d))
				}
				if p.Kind != ref.KTime && (x.Timestamp != nil || x.DateTime != "") {
					c.Fail("open", "%s is open or unknown but has a time: %s", cornerName[i], render(d))
				}
			}
			if p.Kind == ref.KTime && (outer && aspects&aOuter != 0 || !outer && aspects&aInner != 0) {
				decided = true
				if x.Timestamp == nil {
					c.Fail("bounds", "%s has no timestamp, should be %s", cornerName[i], ref.RFC3339(p.Sec))
				} else if u := x.Timestamp.Unix(); u != p.Sec {
					c.Fail("bounds", "%s is %s, should be %s: %s", cornerName[i], ref.RFC3339(u), ref.RFC3339(p.Sec), render(d))
				} else if x.DateTime != ref.RFC3339(p.Sec) {
					c.Fail("bounds", "%s has datetime %q, should be %s", cornerName[i], x.DateTime, ref.RFC3339(p.Sec))
				}
			}
			if aspects&aYMD != 0 && p.YMD != 0 {
				decided = true
				if p.YMD == 2 {
					if x.YMD != nil {
						c.Fail("ymd", "%s has a calendar day %s, should have none", cornerName[i], x.YMD)
					}
				} else {
					y, m, dd := ref.CivilOf(floorDay(p.Sec))
					if x.YMD == nil {
						c.Fail("ymd", "%s has no calendar day", cornerName[i])
					} else if x.YMD.Year != y || x.YMD.Month != m || x.YMD.Day != dd {
						c.Fail("ymd", "%s has calendar day %s, should be %d-%d-%d", cornerName[i], x.YMD, y, m, dd)
					}
				}
			}
		}
		if aspects&aFlags != 0 && p.Flags {
			decided = true
			if int(x.Uncertain) != p.U || int(x.Approximate) != p.A {
				c.Fail("flags", "%s is uncertain %d approximate %d, should be %d and %d", cornerName[i], x.Uncertain, x.Approximate, p.U, p.A)
			}
		}
		if aspects&aPrec != 0 && p.Prec != 0 {
			decided = true
			if int(x.Precision) != p.Prec {
				c.Fail("precision", "%s has precision %d, should be %d", cornerName[i], x.Precision, p.Prec)
			}
		}
		if aspects&aIncl != 0 && p.InclSet {
			decided = true
			if int(x.Inclusivity) != p.Incl {
				c.Fail("inclusivity", "%s has inclusivity %d, should be %d", cornerName[i], x.Inclusivity, p.Incl)
			}
		}
	}
	return decided
}

func floorDay(sec int64) int64 {
	d := sec / 86400
	if sec%86400 < 0 {
		d--
	}
	return d
}

func renderDate(x *edtf.Date) string {
	if x == nil {
		return "nil"
	}
	s := x.DateTime
	if s == "" {
		s = "-"
	}
	if x.Timestamp != nil && x.DateTime != ref.RFC3339(x.Timestamp.Unix()) {
		s += fmt.Sprintf("(%d)", x.Timestamp.Unix())
	}
	if x.Open {
		s += " open"
	}
	if x.Unknown {
		s += " unknown"
	}
	return s
}

func render(d *edtf.EDTFDate) string {
	if d == nil {
		return "nil"
	}
	cs, _ := corners(d)
	var p []string
	for _, x := range cs {
		p = append(p, renderDate(x))
	}
	return fmt.Sprintf("L%d %q [%s]", d.Level, d.Feature, strings.Join(p, ", "))
}

func dump(s string) {
	e := ref.Classify(s)
	fmt.Printf("%q %+v\n", s, e)
}

package ref

import "strings"

// Tri is a three-valued prediction: the model says Yes or No only where the
// property says so, and Maybe where either answer is right.
type Tri int8

const (
	Maybe Tri = iota
	Yes
	No
)

// Flag values, as documented in the README.
const (
	ALL       = 2
	ANY       = 4
	DAY       = 8
	MONTH     = 32
	YEAR      = 64
	DECADE    = 128
	CENTURY   = 256
	MILLENIUM = 512
)

type Kind int8

const (
	KAny Kind = iota // not predicted
	KTime
	KOpen
	KUnknown
)

// Corner is the prediction for one of the four dates of a result.
type Corner struct {
	Kind    Kind
	Sec     int64
	YMD     int8 // 0 not predicted, 1 present (the day of Sec), 2 absent
	U, A    int  // flags, predicted if Flags
	Flags   bool
	Prec    int // 0 not predicted
	Incl    int
	InclSet bool
}

// Family names which feature of the model a string belongs to.
type Family string

const (
	FDate      Family = "date"
	FDateTime  Family = "datetime"
	FInterval  Family = "interval"
	FYYear     Family = "yyear"
	FSeason    Family = "season"
	FQual      Family = "qualified"
	FUnspec    Family = "unspecified"
	FExt       Family = "extended"
	FExp       Family = "exponential"
	FSig       Family = "significant"
	FSub       Family = "subyear"
	FSet       Family = "set"
	FInterval2 Family = "interval2"
	FSpecial   Family = "special"
	FWide      Family = "wide" // EDTF, or lenient EDTF, beyond what the README documents
	FJunk      Family = "junk"
)

// Exp is what the model predicts about one string.
type Exp struct {
	Family  Family
	Valid   Tri
	Match   bool // Level and Feature are predicted
	Level   int
	Feature string
	Parse   Tri
	ErrKind string    // "", "unsupported", "notimplemented", "unrecognized"
	C       [4]Corner // start lower, start upper, end lower, end upper
	Inner   bool      // the inner corners' times are predicted too
	// EDTF strings of start and end, if predicted
	RangeEDTF  bool
	StartEDTF  string
	EndEDTF    string
	IsInterval bool
	Why        string
}

func dig(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

func num(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

// ---------------------------------------------------------------- components

// Comp is a date with optional masks and qualifiers: the general form behind
// dates, qualified dates, unspecified digits, and interval sides.
type Comp struct {
	Neg        bool
	Y, M, D    string  // digits and X; M, D may be ""
	Lq, Rq     [3]byte // qualifier to the left and right of each component, 0 if none
	HasX       bool
	HasL, HasR bool
}

func isQ(c byte) bool { return c == '?' || c == '~' || c == '%' }

func dx(s string) bool {
	for i := 0; i < len(s); i++ {
		if (s[i] < '0' || s[i] > '9') && s[i] != 'X' {
			return false
		}
	}
	return s != ""
}

// is there a month 01-12 matching a two character mask?
func monthMask(m string) bool {
	for i := 1; i <= 12; i++ {
		if maskMatch(m, i, 2) {
			return true
		}
	}
	return false
}

func dayMask(d string) bool {
	for i := 1; i <= 31; i++ {
		if maskMatch(d, i, 2) {
			return true
		}
	}
	return false
}

func maskMatch(mask string, n, w int) bool {
	for i := w - 1; i >= 0; i-- {
		c := byte('0' + n%10)
		n /= 10
		if mask[i] != 'X' && mask[i] != c {
			return false
		}
	}
	return n == 0
}

// scanComp reads (-)?YYYY(-MM(-DD)?)? with X for any digit and a qualifier on
// either side of any component. A minus sign stands after a left qualifier of
// the year.
func scanComp(s string) (c Comp, ok bool) {
	i := 0
	for k := 0; k < 3; k++ {
		if i < len(s) && isQ(s[i]) {
			c.Lq[k] = s[i]
			c.HasL = true
			i++
		}
		w := 2
		if k == 0 {
			w = 4
			if i < len(s) && s[i] == '-' {
				c.Neg = true
				i++
			}
		}
		if len(s) < i+w || !dx(s[i:i+w]) {
			return c, false
		}
		v := s[i : i+w]
		i += w
		switch k {
		case 0:
			c.Y = v
		case 1:
			if !monthMask(v) {
				return c, false
			}
			c.M = v
		case 2:
			if !dayMask(v) {
				return c, false
			}
			c.D = v
		}
		if strings.IndexByte(v, 'X') >= 0 {
			c.HasX = true
		}
		if i < len(s) && isQ(s[i]) {
			c.Rq[k] = s[i]
			c.HasR = true
			i++
		}
		if i == len(s) {
			return c, true
		}
		if s[i] != '-' || k == 2 {
			return c, false
		}
		i++
	}
	return c, false
}

func (c *Comp) plain() bool { return !c.HasX && !c.HasL && !c.HasR }

// Flags returns the uncertain and the approximate flags of the date.
func (c *Comp) flags() (u, a int) {
	bit := [3]int{YEAR, MONTH, DAY}
	add := func(q byte, mask int) {
		if q == '?' || q == '%' {
			u |= mask
		}
		if q == '~' || q == '%' {
			a |= mask
		}
	}
	all := 0
	for k := 0; k < 3; k++ {
		all |= bit[k]
		add(c.Lq[k], bit[k])
		add(c.Rq[k], all)
	}
	return
}

type ymd struct{ y, m, d int }

// hull finds the first and the last existing date which matches the digits.
func (c *Comp) hull() (lo, hi ymd, ok bool) {
	M, D := c.M, c.D
	if M == "" {
		M = "XX"
	}
	if D == "" {
		D = "XX"
	}
	// one year: first and last
	if strings.IndexByte(c.Y, 'X') < 0 {
		y := num(c.Y)
		if c.Neg {
			y = -y
		}
		lo, ok1 := firstIn(y, M, D)
		hi, ok2 := lastIn(y, M, D)
		return lo, hi, ok1 && ok2
	}
	// the years from all X zero to all X nine
	y0 := num(strings.ReplaceAll(c.Y, "X", "0"))
	y9 := num(strings.ReplaceAll(c.Y, "X", "9"))
	found := false
	for y := y0; y <= y9 && !found; y++ {
		if maskMatch(c.Y, y, 4) {
			lo, found = firstIn(y, M, D)
		}
	}
	if !found {
		return lo, hi, false
	}
	for y := y9; y >= y0; y-- {
		if maskMatch(c.Y, y, 4) {
			if h, ok := lastIn(y, M, D); ok {
				return lo, h, true
			}
		}
	}
	return lo, hi, false
}

func firstIn(y int, M, D string) (ymd, bool) {
	for m := 1; m <= 12; m++ {
		if !maskMatch(M, m, 2) {
			continue
		}
		n := Dim(y, m)
		for d := 1; d <= n; d++ {
			if maskMatch(D, d, 2) {
				return ymd{y, m, d}, true
			}
		}
	}
	return ymd{}, false
}

func lastIn(y int, M, D string) (ymd, bool) {
	for m := 12; m >= 1; m-- {
		if !maskMatch(M, m, 2) {
			continue
		}
		for d := Dim(y, m); d >= 1; d-- {
			if maskMatch(D, d, 2) {
				return ymd{y, m, d}, true
			}
		}
	}
	return ymd{}, false
}

// span is a date's bounds.
type span struct {
	lo, hi ymd
}

func (s span) lower() int64 { return Unix(s.lo.y, s.lo.m, s.lo.d, 0, 0, 0) }
func (s span) upper() int64 { return Unix(s.hi.y, s.hi.m, s.hi.d, 23, 59, 59) }

// alone: the four corners of a date which stands alone.
func (s span) alone() (t [4]int64) {
	t[0] = s.lower()
	t[3] = s.upper()
	if s.lo == s.hi {
		t[1] = t[0]
		t[2] = t[3]
	} else {
		t[1] = t[0] + 86399
		t[2] = t[3] - 86399
	}
	return
}

func (e *Exp) setTimes(t [4]int64) {
	e.Inner = true
	for i := range t {
		e.C[i].Kind = KTime
		e.C[i].Sec = t[i]
		e.C[i].YMD = 1
	}
}

func (e *Exp) single(s span) {
	if s.lo.m != 0 {
		e.setTimes(s.alone())
	}
}

func (e *Exp) noQual() {
	for i := range e.C {
		e.C[i].Flags = true
	}
}

func (e *Exp) noIncl() {
	for i := range e.C {
		e.C[i].InclSet = true
	}
}

// maskClass classifies a mask for what the properties predict about it:
// supported: X for the last digits of each component;
// leading: the first digit of the year is unspecified.
func (c *Comp) maskClass() (supported, leading bool) {
	if c.Y[0] == 'X' {
		return false, true
	}
	tail := func(s string) bool {
		seen := false
		for i := 0; i < len(s); i++ {
			if s[i] == 'X' {
				seen = true
			} else if seen {
				return false
			}
		}
		return true
	}
	return tail(c.Y) && (c.M == "" || tail(c.M)) && (c.D == "" || tail(c.D)), false
}

// precision predicted for masked dates, 0 if none.
func (c *Comp) precision() int {
	if !c.HasX {
		return 0
	}
	nx := strings.Count(c.Y, "X")
	if nx == 4 {
		return 0
	}
	if nx > 0 {
		if strings.IndexByte(c.M, 'X') >= 0 || strings.IndexByte(c.D, 'X') >= 0 {
			return 0
		}
		if c.Y[4-nx:] != "XXX"[:nx] {
			return 0
		}
		return [4]int{0, DECADE, CENTURY, MILLENIUM}[nx]
	}
	if c.M == "XX" && (c.D == "" || c.D == "XX") {
		return YEAR
	}
	if c.D == "XX" && strings.IndexByte(c.M, 'X') < 0 {
		return MONTH
	}
	return 0
}

// resolve predicts whether a scanned date parses, and its span.
func (c *Comp) resolve() (p Tri, kind string, s span) {
	sup, lead := c.maskClass()
	if lead && c.HasX {
		if c.Neg {
			return No, "", s
		}
		return No, "notimplemented", s
	}
	if c.HasX && c.Neg {
		p = Maybe
		lo, hi, ok := c.hullNeg()
		if !ok {
			return Maybe, "", s
		}
		return Maybe, "", span{lo: lo, hi: hi}
	}
	lo, hi, ok := c.hull()
	if !ok {
		return No, "", s
	}
	s = span{lo: lo, hi: hi}
	if !sup {
		return Maybe, "", s
	}
	return Yes, "", s
}

func (c *Comp) hullNeg() (lo, hi ymd, ok bool) {
	M, D := c.M, c.D
	if M == "" {
		M = "XX"
	}
	if D == "" {
		D = "XX"
	}
	for n := 9999; n >= 0 && !ok; n-- {
		if maskMatch(c.Y, n, 4) {
			lo, ok = firstIn(-n, M, D)
		}
	}
	if !ok {
		return
	}
	for n := 0; n <= 9999; n++ {
		if maskMatch(c.Y, n, 4) {
			if h, k := lastIn(-n, M, D); k {
				return lo, h, true
			}
		}
	}
	return lo, hi, false
}

func isPlainDate(s string) (Comp, bool) {
	c, ok := scanComp(s)
	return c, ok && c.plain()
}

// ---------------------------------------------------------------- classify

// Classify predicts what the library says about s.
func Classify(s string) Exp {
	return classify(s)
}

func classify(s string) Exp {
	switch s {
	case "":
		e := Exp{Family: FSpecial, Valid: Yes, Parse: Yes, Level: -1, Feature: "Unknown"}
		for i := range e.C {
			e.C[i] = Corner{Kind: KUnknown, YMD: 2, Flags: true, InclSet: true}
		}
		return e
	case "..":
		e := Exp{Family: FSpecial, Valid: Yes, Parse: Yes, Level: -1, Feature: "Open"}
		for i := range e.C {
			e.C[i] = Corner{Kind: KOpen, YMD: 2, Flags: true, InclSet: true}
		}
		return e
	}
	if len(s) > 4096 {
		// only years and sets can be that long
		return classifyLong(s)
	}
	for _, f := range []func(string) (Exp, bool){
		clDate, clDateTime, clInterval0, clYYear, clSeason, clQualified, clUnspec,
		clExt, clExp, clSig, clSub, clSet, clGroup, clInterval2,
	} {
		if e, ok := f(s); ok {
			return e
		}
	}
	if wide(s) {
		return Exp{Family: FWide}
	}
	return Exp{Family: FJunk, Valid: No, Parse: No, ErrKind: "unrecognized"}
}

func classifyLong(s string) Exp {
	for _, f := range []func(string) (Exp, bool){clYYear, clExp, clSig, clSet} {
		if e, ok := f(s); ok {
			return e
		}
	}
	if wide(s) {
		return Exp{Family: FWide}
	}
	return Exp{Family: FJunk, Valid: No, Parse: No, ErrKind: "unrecognized"}
}

func clDate(s string) (e Exp, ok bool) {
	c, ok := isPlainDate(s)
	if !ok {
		return e, false
	}
	e = Exp{Family: FDate, Valid: Yes, Match: true, Level: 0, Feature: "Date"}
	var sp span
	e.Parse, e.ErrKind, sp = c.resolve()
	e.single(sp)
	e.noQual()
	e.noIncl()
	e.RangeEDTF, e.StartEDTF, e.EndEDTF = true, s, s
	return e, true
}

func clDateTime(s string) (e Exp, ok bool) {
	t := strings.IndexByte(s, 'T')
	if t < 0 {
		return e, false
	}
	c, ok := isPlainDate(s[:t])
	if !ok || c.D == "" {
		return e, false
	}
	r := s[t+1:]
	if len(r) < 8 || r[2] != ':' || r[5] != ':' || !dig(r[0:2]) || !dig(r[3:5]) || !dig(r[6:8]) {
		return e, false
	}
	hh, mm, ss := num(r[0:2]), num(r[3:5]), num(r[6:8])
	off := 0
	fuzzy := false
	z := r[8:]
	switch {
	case z == "" || z == "Z":
	case (z[0] == '+' || z[0] == '-') && (len(z) == 3 && dig(z[1:3]) || len(z) == 6 && dig(z[1:3]) && z[3] == ':' && dig(z[4:6])):
		oh, om := num(z[1:3]), 0
		if len(z) == 6 {
			om = num(z[4:6])
		}
		fuzzy = oh > 23 || om > 59
		off = oh*3600 + om*60
		if z[0] == '-' {
			off = -off
		}
	default:
		return e, false
	}
	e = Exp{Family: FDateTime, Valid: Yes, Match: true, Level: 0, Feature: "Date and Time"}
	timeOK := hh <= 23 && mm <= 59 && ss <= 59
	if fuzzy || !timeOK {
		e.Valid, e.Match = Maybe, false
	}
	var sp span
	e.Parse, e.ErrKind, sp = c.resolve()
	if !timeOK {
		e.Parse = No
	}
	e.noIncl()
	e.noQual()
	if fuzzy {
		if e.Parse == Yes {
			e.Parse = Maybe
		}
		return e, true
	}
	if e.Parse == Yes {
		u := Unix(sp.lo.y, sp.lo.m, sp.lo.d, hh, mm, ss) - int64(off)
		e.setTimes([4]int64{u, u, u, u})
		for i := range e.C {
			e.C[i].YMD = 0
		}
		if u < Unix(-9999, 1, 1, 0, 0, 0) || u > Unix(9999, 12, 31, 23, 59, 59) {
			// the instant lies beyond the years Go can write
			e.Parse = Maybe
		}
	}
	return e, true
}

// sides sets the corners of an interval of two resolved sides.
func (e *Exp) sides(a, b span) {
	if a.lo.m == 0 || b.lo.m == 0 {
		return // not resolved
	}
	e.setTimes([4]int64{a.lower(), a.upper(), b.lower(), b.upper()})
}

func both(a, b Tri) Tri {
	if a == No || b == No {
		return No
	}
	if a == Maybe || b == Maybe {
		return Maybe
	}
	return Yes
}

func (e *Exp) interval(a, b *Comp) {
	e.IsInterval = true
	pa, ka, sa := a.resolve()
	pb, kb, sb := b.resolve()
	e.Parse = both(pa, pb)
	if e.Parse == No {
		if ka == "notimplemented" && pb != No || kb == "notimplemented" && pa != No {
			e.ErrKind = "notimplemented"
		}
	}
	e.sides(sa, sb)
	au, aa := a.flags()
	bu, ba := b.flags()
	for i := range e.C {
		e.C[i].Flags, e.C[i].InclSet = true, true
		if i < 2 {
			e.C[i].U, e.C[i].A, e.C[i].Prec = au, aa, a.precision()
		} else {
			e.C[i].U, e.C[i].A, e.C[i].Prec = bu, ba, b.precision()
		}
	}
}

func clInterval0(s string) (e Exp, ok bool) {
	l, r, ok := cut1(s, '/')
	if !ok {
		return e, false
	}
	a, ok1 := isPlainDate(l)
	b, ok2 := isPlainDate(r)
	if !ok1 || !ok2 {
		return e, false
	}
	e = Exp{Family: FInterval, Valid: Yes, Match: true, Level: 0, Feature: "Time Interval"}
	e.interval(&a, &b)
	e.RangeEDTF, e.StartEDTF, e.EndEDTF = true, l, r
	return e, true
}

func clInterval2(s string) (e Exp, ok bool) {
	l, r, ok := cut1(s, '/')
	if !ok {
		return e, false
	}
	a, ok1 := scanComp(l)
	b, ok2 := scanComp(r)
	if !ok1 || !ok2 || a.HasR || b.HasR {
		return e, false
	}
	e = Exp{Family: FInterval2, Valid: Yes, Match: true, Level: 2, Feature: "Interval"}
	if a.Neg && a.HasX || b.Neg && b.HasX || a.HasX && oddMask(&a) || b.HasX && oddMask(&b) {
		e.Valid = Maybe
	}
	e.interval(&a, &b)
	e.RangeEDTF, e.StartEDTF, e.EndEDTF = true, l, r
	return e, true
}

// oddMask: a mask with X before a digit of the same month or day.
func oddMask(c *Comp) bool {
	odd := func(s string) bool { return len(s) == 2 && s[0] == 'X' && s[1] != 'X' }
	return odd(c.M) || odd(c.D)
}

func cut1(s string, b byte) (l, r string, ok bool) {
	i := strings.IndexByte(s, b)
	if i < 0 || strings.IndexByte(s[i+1:], b) >= 0 {
		return "", "", false
	}
	return s[:i], s[i+1:], true
}

// yearExp: the expectations of a single year.
func (e *Exp) year(y int) {
	sp := span{lo: ymd{y, 1, 1}, hi: ymd{y, 12, 31}}
	e.single(sp)
	e.noQual()
	e.noIncl()
}

// signedDigits splits -?d+.
func signedDigits(s string) (neg bool, d string, ok bool) {
	if strings.HasPrefix(s, "-") {
		neg = true
		s = s[1:]
	}
	return neg, s, dig(s)
}

func clYYear(s string) (e Exp, ok bool) {
	if len(s) < 2 || s[0] != 'Y' {
		return e, false
	}
	neg, d, ok := signedDigits(s[1:])
	if !ok {
		return e, false
	}
	e = Exp{Family: FYYear, Valid: Yes, Match: true, Level: 1, Feature: "Letter-prefixed calendar year"}
	switch {
	case len(d) == 4:
		y := num(d)
		if neg {
			y = -y
		}
		e.Parse = Yes
		e.year(y)
	case len(d) > 4 && d[0] != '0':
		e.Parse, e.ErrKind = No, "unsupported"
	default:
		// fewer than four digits are not EDTF, leading zeros neither
		e.Valid, e.Match = Maybe, false
		t := strings.TrimLeft(d, "0")
		if len(t) <= 4 {
			y := num(t)
			if neg {
				y = -y
			}
			e.year(y)
		} else {
			e.Parse = No
		}
	}
	return e, true
}

// expYear evaluates nEm: the year if within ±9999.
func expYear(neg bool, n, m string) (y int, fits, zero bool) {
	n = strings.TrimLeft(n, "0")
	m = strings.TrimLeft(m, "0")
	if n == "" {
		return 0, true, true
	}
	if len(m) > 3 {
		return 0, false, false
	}
	k := num(m)
	if len(n)+k > 4 {
		return 0, false, false
	}
	y = num(n)
	for ; k > 0; k-- {
		y *= 10
	}
	if neg {
		y = -y
	}
	return y, true, false
}

func scanExp(s string) (neg bool, n, m string, lower, ok bool) {
	if len(s) < 4 || s[0] != 'Y' && s[0] != 'y' {
		return
	}
	i := strings.IndexAny(s, "Ee")
	if i < 0 {
		return
	}
	neg, n, ok = signedDigits(s[1:i])
	m = s[i+1:]
	if !ok || !dig(m) {
		return false, "", "", false, false
	}
	return neg, n, m, s[0] == 'y' || s[i] == 'e', true
}

func clExp(s string) (e Exp, ok bool) {
	neg, n, m, lower, ok := scanExp(s)
	if !ok {
		return e, false
	}
	e = Exp{Family: FExp, Valid: Yes, Match: true, Level: 2, Feature: "Exponential year"}
	if lower {
		e.Valid, e.Match = Maybe, false
	}
	y, fits, zero := expYear(neg, n, m)
	bigExp := len(m) > 9
	switch {
	case fits && !(zero && bigExp) && !bigExp:
		e.Parse = Yes
		e.year(y)
	case fits:
		e.Parse = Maybe
		e.year(y)
	default:
		e.Parse = No
		if !bigExp && !lower {
			e.ErrKind = "unsupported"
		}
	}
	if lower && e.Parse == Yes {
		e.Parse = Maybe
	}
	return e, true
}

func clSig(s string) (e Exp, ok bool) {
	i := strings.LastIndexByte(s, 'S')
	if i < 1 || !dig(s[i+1:]) {
		return e, false
	}
	base, nd := s[:i], strings.TrimLeft(s[i+1:], "0")
	e = Exp{Family: FSig, Valid: Yes, Match: true, Level: 2, Feature: "Significant digits"}
	var y int
	neg, d, isYear := signedDigits(base)
	isYear = isYear && len(d) == 4
	fits := true
	vague := false
	switch {
	case isYear:
		y = num(d)
	case base[0] == 'Y' && dig(strings.TrimPrefix(base[1:], "-")):
		neg, d, _ = signedDigits(base[1:])
		if len(d) > 4 && d[0] == '0' || len(d) < 4 {
			vague = true
			d = strings.TrimLeft(d, "0")
		}
		if len(d) > 4 {
			fits = false
			if vague {
				e.ErrKind = ""
			} else {
				e.ErrKind = "unsupported"
			}
		} else {
			y = num(d)
		}
	default:
		var n, m string
		var lower, okx bool
		neg, n, m, lower, okx = scanExp(base)
		if !okx {
			return e, false
		}
		var zero bool
		y, fits, zero = expYear(false, n, m)
		if !fits && len(m) <= 9 && !lower {
			e.ErrKind = "unsupported"
		}
		vague = lower || zero || len(m) > 9
	}
	if neg {
		y = -y
	}
	if vague {
		e.Valid, e.Match = Maybe, false
	}
	if !fits {
		e.Parse = No
		return e, true
	}
	e.noQual()
	e.noIncl()
	if nd == "" || neg && y == 0 {
		// no significant digits at all, or minus zero
		e.Valid, e.Match = Maybe, false
		e.Parse = Maybe
		return e, true
	}
	if len(nd) > 1 || num(nd) > 4 {
		e.Parse = No
		return e, true
	}
	p := 1
	for k := num(nd); k > 0; k-- {
		p *= 10
	}
	a := y
	if a < 0 {
		a = -a
	}
	lo, hi := a/p*p, a/p*p+p-1
	e.Parse = Yes
	if vague {
		e.Parse = Maybe
	}
	if neg {
		lo, hi = -hi, -lo
	}
	A := span{lo: ymd{lo, 1, 1}, hi: ymd{lo, 12, 31}}
	B := span{lo: ymd{hi, 1, 1}, hi: ymd{hi, 12, 31}}
	e.sides(A, B)
	e.Inner = true
	if neg && hi == 0 {
		// -0000: whether the year 0 is the last of them or -0001 is not said
		e.C[2].Kind, e.C[3].Kind = KAny, KAny
	}
	return e, true
}

var seasonMonths = map[int][2]int{ // first month, length in months
	21: {3, 3}, 22: {6, 3}, 23: {9, 3}, 24: {12, 3},
	25: {3, 3}, 26: {6, 3}, 27: {9, 3}, 28: {12, 3},
	29: {9, 3}, 30: {12, 3}, 31: {3, 3}, 32: {6, 3},
	33: {1, 3}, 34: {4, 3}, 35: {7, 3}, 36: {10, 3},
	37: {1, 4}, 38: {5, 4}, 39: {9, 4},
	40: {1, 6}, 41: {7, 6},
}

func (e *Exp) months(y, code int) {
	sm := seasonMonths[code]
	ey, em := y, sm[0]+sm[1]-1
	if em > 12 {
		ey++
		em -= 12
	}
	A := span{lo: ymd{y, sm[0], 1}, hi: ymd{y, sm[0], 1}}
	B := span{lo: ymd{ey, em, Dim(ey, em)}, hi: ymd{ey, em, Dim(ey, em)}}
	e.sides(A, B)
	e.noQual()
	e.noIncl()
	e.Parse = Yes
	if ey > 9999 {
		e.Parse = Maybe
	}
}

func clSeason(s string) (e Exp, ok bool) {
	e = Exp{Family: FSeason, Valid: Yes, Match: true, Level: 1, Feature: "Seasons"}
	neg := strings.HasPrefix(s, "-")
	t := strings.TrimPrefix(s, "-")
	if len(t) == 7 && t[4] == '-' && dig(t[:4]) && dig(t[5:]) {
		k := num(t[5:])
		if k < 21 || k > 24 {
			return e, false
		}
		y := num(t[:4])
		if neg {
			y = -y
		}
		e.months(y, k)
		return e, true
	}
	i := strings.IndexByte(s, ',')
	if i < 0 {
		return e, false
	}
	w, rest := s[:i], s[i+1:]
	ws := " \t\n\f\r"
	lw := strings.ToLower(strings.TrimRight(w, ws))
	code := map[string]int{"spring": 21, "summer": 22, "fall": 23, "winter": 24}[lw]
	y := strings.TrimLeft(rest, ws)
	if code == 0 || len(y) != 4 || !dig(y) {
		return e, false
	}
	e.months(num(y), code)
	if !(len(w) == len(lw) && len(rest) == 5 && rest[0] == ' ') || !ascii(s) {
		e.Valid, e.Match = Maybe, false
		if e.Parse == Yes {
			e.Parse = Maybe
		}
	}
	return e, true
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func clSub(s string) (e Exp, ok bool) {
	if len(s) != 7 || s[4] != '-' || !dig(s[:4]) || !dig(s[5:]) {
		return e, false
	}
	k := num(s[5:])
	if k < 25 || k > 41 {
		return e, false
	}
	e = Exp{Family: FSub, Valid: Yes, Match: true, Level: 2, Feature: "Sub-year groupings"}
	e.months(num(s[:4]), k)
	if k == 28 || k == 30 {
		// over the new year the end is the month of February, not its last day
		y := num(s[:4]) + 1
		e.C[2].Sec = Unix(y, 2, 1, 0, 0, 0)
	}
	return e, true
}

func (e *Exp) comp(c *Comp) {
	var sp span
	e.Parse, e.ErrKind, sp = c.resolve()
	e.single(sp)
	u, a := c.flags()
	for i := range e.C {
		e.C[i].U, e.C[i].A, e.C[i].Flags, e.C[i].InclSet = u, a, true, true
		e.C[i].Prec = c.precision()
	}
}

func last(c *Comp) int {
	switch {
	case c.D != "":
		return 2
	case c.M != "":
		return 1
	}
	return 0
}

func clQualified(s string) (e Exp, ok bool) {
	c, ok := scanComp(s)
	if !ok || c.HasX || c.HasL || !c.HasR {
		return e, false
	}
	for k := 0; k < 3; k++ {
		if c.Rq[k] != 0 && k != last(&c) {
			return e, false
		}
	}
	e = Exp{Family: FQual, Valid: Yes, Match: true, Level: 1, Feature: "Qualification of a date (complete)"}
	e.comp(&c)
	e.RangeEDTF, e.StartEDTF, e.EndEDTF = true, s, s
	return e, true
}

// Level 2 qualification, one kind only, positive years
func clGroup(s string) (e Exp, ok bool) {
	c, ok := scanComp(s)
	if !ok || c.HasX || c.Neg || c.HasL == c.HasR {
		return e, false
	}
	e = Exp{Family: FQual, Valid: Yes, Match: true, Level: 2, Feature: "Qualification (Group)"}
	if c.HasL {
		e.Feature = "Qualification (Individual)"
	}
	e.comp(&c)
	e.RangeEDTF, e.StartEDTF, e.EndEDTF = true, s, s
	return e, true
}

func clUnspec(s string) (e Exp, ok bool) {
	c, ok := scanComp(s)
	if !ok || !c.HasX || c.Neg || c.HasL || c.HasR {
		return e, false
	}
	e = Exp{Family: FUnspec, Valid: Yes, Match: true, Level: 2, Feature: "Unspecified Digit"}
	yx := strings.IndexByte(c.Y, 'X') >= 0
	mx := strings.IndexByte(c.M, 'X') >= 0
	l1 := false
	switch {
	case c.M == "":
		l1 = dig(c.Y[:2]) && c.Y[3] == 'X'
	case c.D == "":
		l1 = !yx && c.M == "XX"
	default:
		l1 = !yx && (c.M == "XX" || !mx) && c.D == "XX"
	}
	if l1 {
		e.Level, e.Feature = 1, "Unspecified digit(s) from the right"
	}
	if oddMask(&c) {
		e.Valid, e.Match = Maybe, false
	}
	e.comp(&c)
	e.RangeEDTF, e.StartEDTF, e.EndEDTF = true, s, s
	return e, true
}

func clExt(s string) (e Exp, ok bool) {
	l, r, ok := cut1(s, '/')
	if !ok {
		return e, false
	}
	var d string
	var k Kind
	var at int
	switch {
	case l == "" || l == "..":
		d, at = r, 0
		k = KUnknown
		if l == ".." {
			k = KOpen
		}
		e.Feature = "Extended Interval (Start)"
	case r == "" || r == "..":
		d, at = l, 2
		k = KUnknown
		if r == ".." {
			k = KOpen
		}
		e.Feature = "Extended Interval (End)"
	default:
		return e, false
	}
	c, ok := isPlainDate(d)
	if !ok {
		return e, false
	}
	e.Family, e.Valid, e.Match, e.Level = FExt, Yes, true, 1
	e.IsInterval = true
	var sp span
	e.Parse, e.ErrKind, sp = c.resolve()
	e.Inner = true
	o := 2 - at
	e.C[at] = Corner{Kind: k, YMD: 2}
	e.C[at+1] = Corner{Kind: k, YMD: 2}
	e.C[o] = Corner{Kind: KTime, Sec: sp.lower(), YMD: 1}
	e.C[o+1] = Corner{Kind: KTime, Sec: sp.upper(), YMD: 1}
	e.noQual()
	e.noIncl()
	e.RangeEDTF, e.StartEDTF, e.EndEDTF = true, l, r
	return e, true
}

func clSet(s string) (e Exp, ok bool) {
	if len(s) < 3 {
		return e, false
	}
	incl := 0
	switch {
	case s[0] == '[' && s[len(s)-1] == ']':
		incl = ANY
	case s[0] == '{' && s[len(s)-1] == '}':
		incl = ALL
	default:
		return e, false
	}
	e = Exp{Family: FSet, Valid: Yes, Match: true, Level: 2, Feature: "Set representation", Parse: Yes}
	parts := strings.Split(s[1:len(s)-1], ",")
	openS, openE := false, false
	var ms []span
	var names []string
	for i, p := range parts {
		var ds []string
		if j := strings.Index(p, ".."); j >= 0 {
			a, b := p[:j], p[j+2:]
			switch {
			case a == "" && b != "":
				if i != 0 {
					return e, false
				}
				openS = true
				ds = []string{b}
			case a != "" && b == "":
				if i != len(parts)-1 {
					return e, false
				}
				openE = true
				ds = []string{a}
			case a != "" && b != "":
				ds = []string{a, b}
			default:
				return e, false
			}
		} else {
			ds = []string{p}
		}
		for _, d := range ds {
			c, ok := isPlainDate(d)
			if !ok {
				return e, false
			}
			p, _, sp := c.resolve()
			e.Parse = both(e.Parse, p)
			ms = append(ms, sp)
			names = append(names, d)
		}
	}
	for i := range e.C {
		e.C[i].Flags = true
		e.C[i].InclSet = true
		e.C[i].Incl = incl
	}
	if openS {
		e.C[0].Incl, e.C[1].Incl = 0, 0
	}
	if openE {
		e.C[2].Incl, e.C[3].Incl = 0, 0
	}
	if e.Parse != Yes {
		return e, true
	}
	mn, mx := ms[0], ms[0]
	for _, m := range ms {
		if m.lower() < mn.lower() {
			mn = m
		}
		if m.upper() > mx.upper() {
			mx = m
		}
	}
	// several members may share the extreme bound; then only the outer bound is predicted
	mnU, mxU := true, true
	for _, m := range ms {
		if m.lower() == mn.lower() && m != mn {
			mnU = false
		}
		if m.upper() == mx.upper() && m != mx {
			mxU = false
		}
	}
	// and one that shares both may be taken as a date by itself
	if !mnU && mx.lower() == mn.lower() {
		mxU = false
	}
	if !mxU && mn.upper() == mx.upper() {
		mnU = false
	}
	set := func(i int, v int64) {
		e.C[i].Kind, e.C[i].Sec, e.C[i].YMD = KTime, v, 1
	}
	open := func(i int) { e.C[i].Kind, e.C[i].YMD = KOpen, 2 }
	e.Inner = true
	switch {
	case openS && openE:
		open(0)
		open(1)
		open(2)
		open(3)
	case openS:
		open(0)
		open(1)
		set(2, mn.lower())
		set(3, mx.upper())
	case openE:
		set(0, mn.lower())
		set(1, mx.upper())
		open(2)
		open(3)
	default:
		set(0, mn.lower())
		set(3, mx.upper())
		same := mn == mx
		if len(names) == 1 {
			t := mn.alone()
			set(1, t[1])
			set(2, t[2])
		} else if !same {
			if mnU {
				set(1, mn.upper())
			}
			if mxU {
				set(2, mx.lower())
			}
		}
	}
	return e, true
}

// Package ref is the reference model the monitors compare the library with. It
// is written from the EDTF specification and /verif/properties.jsonl, uses no
// regular expression, no package time and nothing of the library.
package ref

// Leap reports whether y is a leap year of the proleptic Gregorian calendar
// (astronomical numbering: year 0 exists).
func Leap(y int) bool {
	if y < 0 {
		y = -y
	}
	if y%400 == 0 {
		return true
	}
	return y%4 == 0 && y%100 != 0
}

var mdays = [13]int{0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}

// Dim is the number of days in month m of year y, 0 if there is no such month.
func Dim(y, m int) int {
	if m < 1 || m > 12 {
		return 0
	}
	if m == 2 && Leap(y) {
		return 29
	}
	return mdays[m]
}

func floorDiv(a, b int) int {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// DayNumber is the number of days from 1970-01-01 to y-m-d.
func DayNumber(y, m, d int) int64 {
	// days before year y since 0000-01-01
	n := 365*y + floorDiv(y-1, 4) - floorDiv(y-1, 100) + floorDiv(y-1, 400) + 1
	for i := 1; i < m; i++ {
		n += Dim(y, i)
	}
	n += d - 1
	return int64(n) - 719528
}

// CivilOf is the inverse of DayNumber.
func CivilOf(n int64) (int, int, int) {
	// estimate the year, then walk
	y := 1970 + floorDiv(int(n)*400, 146097)
	for DayNumber(y+1, 1, 1) <= n {
		y++
	}
	for DayNumber(y, 1, 1) > n {
		y--
	}
	r := int(n - DayNumber(y, 1, 1))
	m := 1
	for r >= Dim(y, m) {
		r -= Dim(y, m)
		m++
	}
	return y, m, r + 1
}

// Unix is the second of y-m-d hh:mm:ss UTC.
func Unix(y, m, d, hh, mm, ss int) int64 {
	return DayNumber(y, m, d)*86400 + int64(hh*3600+mm*60+ss)
}

func pad(b []byte, n, w int) []byte {
	var t [20]byte
	i := len(t)
	for n > 0 || w > 0 {
		i--
		t[i] = byte('0' + n%10)
		n /= 10
		w--
	}
	return append(b, t[i:]...)
}

// YearString is a year as EDTF writes it: four digits, with a minus sign if negative.
func YearString(y int) string {
	var b []byte
	if y < 0 {
		b = append(b, '-')
		y = -y
	}
	return string(pad(b, y, 4))
}

// RFC3339 formats a Unix second in UTC.
func RFC3339(sec int64) string {
	dn := sec / 86400
	r := int(sec % 86400)
	if r < 0 {
		r += 86400
		dn--
	}
	y, m, d := CivilOf(dn)
	b := make([]byte, 0, 24)
	if y < 0 {
		b = append(b, '-')
		y = -y
	}
	b = pad(b, y, 4)
	b = append(b, '-')
	b = pad(b, m, 2)
	b = append(b, '-')
	b = pad(b, d, 2)
	b = append(b, 'T')
	b = pad(b, r/3600, 2)
	b = append(b, ':')
	b = pad(b, r/60%60, 2)
	b = append(b, ':')
	b = pad(b, r%60, 2)
	b = append(b, 'Z')
	return string(b)
}

// ParseRFC3339 parses what RFC3339 writes (UTC only) back to a Unix second.
func ParseRFC3339(s string) (int64, bool) {
	neg := false
	if len(s) > 0 && s[0] == '-' {
		neg = true
		s = s[1:]
	}
	// a datetime with an offset may be one day beyond the year 9999
	var more int
	if len(s) == 21 && s[:4] == "1000" && s[4] == '0' {
		more = 10000
		s = "0" + s[2:]
	}
	if len(s) != 20 || s[4] != '-' || s[7] != '-' || s[10] != 'T' || s[13] != ':' || s[16] != ':' || s[19] != 'Z' {
		return 0, false
	}
	f := func(a, b int) int {
		n := 0
		for ; a < b; a++ {
			if s[a] < '0' || s[a] > '9' {
				return -1
			}
			n = n*10 + int(s[a]-'0')
		}
		return n
	}
	y, m, d, hh, mm, ss := f(0, 4), f(5, 7), f(8, 10), f(11, 13), f(14, 16), f(17, 19)
	if y < 0 || m < 1 || m > 12 || d < 1 || hh < 0 || hh > 23 || mm < 0 || mm > 59 || ss < 0 || ss > 59 {
		return 0, false
	}
	y += more
	if neg {
		y = -y
	}
	if d > Dim(y, m) {
		return 0, false
	}
	return Unix(y, m, d, hh, mm, ss), true
}

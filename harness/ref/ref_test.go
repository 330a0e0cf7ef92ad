package ref

import (
	"testing"
	"time"
)

func TestCal(t *testing.T) {
	a := time.Date(-9999, 1, 1, 0, 0, 0, 0, time.UTC)
	for a.Year() < 10000 {
		y, m, d := a.Date()
		n := DayNumber(y, int(m), d)
		if n*86400 != a.Unix() {
			t.Fatal(a, n)
		}
		yy, mm, dd := CivilOf(n)
		if yy != y || mm != int(m) || dd != d {
			t.Fatal(a, yy, mm, dd)
		}
		if RFC3339(n*86400+86399) != a.Add(86399*time.Second).Format(time.RFC3339) {
			t.Fatal(a)
		}
		x, ok := ParseRFC3339(RFC3339(n*86400 + 3661))
		if !ok || x != n*86400+3661 {
			t.Fatal(a)
		}
		a = a.AddDate(0, 0, 1)
	}
}

func TestYear10000(t *testing.T) {
	n, ok := ParseRFC3339("10000-01-01T07:01:39Z")
	if !ok || n != 253402300800+7*3600+99 {
		t.Fatal(n, ok)
	}
}

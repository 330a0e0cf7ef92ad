From 49a715ac28065edd806a860eb2eef86cedc81db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:52 +0000
Subject: [PATCH 01/27] fix: anchor both alternatives of the season pattern

The top-level alternation left '^' on one branch and '$' on the other, so
any Level 1 string starting with YYYY-MM (2004-06-11%, 1985-04-12/..,
1985-04-XX) was parsed as the season/month YYYY-MM and lost its qualifier,
open end or day. The (?i) flag also leaked in to the rest of the pattern.
---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index d377452..a0933b9 100644
--- a/re/re.go
+++ b/re/re.go
@@ -36,7 +36,7 @@ const PATTERN_TIME_INTERVAL string = PATTERN_DATE + `/` + PATTERN_DATE
 
 const PATTERN_LETTER_PREFIXED_CALENDAR_YEAR string = `Y(\-?\d+)`
 
-const PATTERN_SEASON string = PATTERN_YEAR + `\-(0[1-9]|1[0-2]|2[1-4])|(?i)(spring|summer|fall|winter)\s*,\s*(\d{4})`
+const PATTERN_SEASON string = `(?:` + PATTERN_YEAR + `\-(0[1-9]|1[0-2]|2[1-4])|(?i:(spring|summer|fall|winter))\s*,\s*(\d{4}))`
 
 const PATTERN_QUALIFIED_DATE string = PATTERN_DATE + `(\?|~|%)`
 
-- 
2.43.0


From 040b31061bf6409951cd510efc662de7e1c4fade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:54 +0000
Subject: [PATCH 02/27] fix: anchor the Level 2 pattern at the end of the
 string

Anything that merely started like a Level 2 string (1999junk) was reported
as valid, and the case-insensitive flag of the exponential year pattern
leaked in to every other Level 2 pattern (201x).
---
 re/level2.go | 2 +-
 re/re.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/re/level2.go b/re/level2.go
index 5a6e561..e61f3b8 100644
--- a/re/level2.go
+++ b/re/level2.go
@@ -45,5 +45,5 @@ func init() {
 		PATTERN_INTERVAL,
 	}
 
-	Level2 = regexp.MustCompile(`^` + `(` + strings.Join(level2_patterns, "|") + `)`)
+	Level2 = regexp.MustCompile(`^` + `(` + strings.Join(level2_patterns, "|") + `)$`)
 }
diff --git a/re/re.go b/re/re.go
index a0933b9..c6a65f5 100644
--- a/re/re.go
+++ b/re/re.go
@@ -50,7 +50,7 @@ const PATTERN_NEGATIVE_YEAR = `\-` + PATTERN_YEAR
 
 // Level 2
 
-const PATTERN_EXPONENTIAL_YEAR string = `(?i)Y(\-?\d+E\d+)`
+const PATTERN_EXPONENTIAL_YEAR string = `(?i:Y(\-?\d+E\d+))`
 
 const PATTERN_SIGNIFICANT_DIGITS string = `(?:` + PATTERN_YEAR + `|` + PATTERN_LETTER_PREFIXED_CALENDAR_YEAR + `|` + PATTERN_EXPONENTIAL_YEAR + `)S(\d+)`
 
-- 
2.43.0


From 7dca5e2e56836296e9f70c252c74d70b581f46ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:54 +0000
Subject: [PATCH 03/27] fix: do not accept a doubled minus sign as a negative
 year

---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index c6a65f5..5327bbe 100644
--- a/re/re.go
+++ b/re/re.go
@@ -46,7 +46,7 @@ const PATTERN_INTERVAL_START = `(\.\.)?\/` + PATTERN_DATE
 
 const PATTERN_INTERVAL_END = PATTERN_DATE + `\/(\.\.)?`
 
-const PATTERN_NEGATIVE_YEAR = `\-` + PATTERN_YEAR
+const PATTERN_NEGATIVE_YEAR = `\-(\d{4})`
 
 // Level 2
 
-- 
2.43.0


From b947bd6e2983adf0bdfbbaca319b2f0a2cdde4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:38 +0000
Subject: [PATCH 04/27] fix: reject out of range exponential years before
 expanding them

Y1E646456993 panicked (the value is infinite and has no integer form), the
low 64 bits of a bigger value could pass for a supported year
(Y18446744073709553616E0 was read as 2000) and Y1E646456992 took 260MB.
---
 common/exponential.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/common/exponential.go b/common/exponential.go
index 0acaab7..2434193 100644
--- a/common/exponential.go
+++ b/common/exponential.go
@@ -14,13 +14,17 @@ func ParseExponentialNotation(notation string) (int, error) {
 		return 0, err
 	}
 
-	var i = new(big.Int)
-	yyyy, _ := flt.Int(i)
+	// Compare the value before expanding it in to an integer: infinity has no
+	// integer form, an integer bigger than 64 bits does not survive Int64()
+	// and the integer form of a big exponent takes hundreds of megabytes.
 
-	if yyyy.Int64() > int64(edtf.MAX_YEARS) || yyyy.Int64() < int64(0-edtf.MAX_YEARS) {
+	max := big.NewFloat(float64(edtf.MAX_YEARS))
+	min := big.NewFloat(float64(0 - edtf.MAX_YEARS))
+
+	if flt.Cmp(max) > 0 || flt.Cmp(min) < 0 {
 		return 0, edtf.Unsupported("exponential notation", notation)
 	}
 
-	yyyy_i := int(yyyy.Int64())
-	return yyyy_i, nil
+	yyyy, _ := flt.Int64()
+	return int(yyyy), nil
 }
-- 
2.43.0


From dff65c42e44b208a2b58ae5fc9eba8ca2756f204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:39 +0000
Subject: [PATCH 05/27] fix: do not panic when there are more significant
 digits than year digits

The check compared the length of the number of digits, rather than the
number of digits, with the length of the year so 1950S5 panicked.
---
 level2/significant_digits.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/level2/significant_digits.go b/level2/significant_digits.go
index 925d1ea..1e4d7f8 100644
--- a/level2/significant_digits.go
+++ b/level2/significant_digits.go
@@ -101,11 +101,12 @@ func ParseSignificantDigits(edtf_str string) (*edtf.EDTFDate, error) {
 		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)
 	}
 
-	if len(strconv.Itoa(digits)) > len(strconv.Itoa(yyyy)) {
+	str_yyyy = strconv.Itoa(yyyy)
+
+	if digits > len(strings.TrimPrefix(str_yyyy, "-")) {
 		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)
 	}
 
-	str_yyyy = strconv.Itoa(yyyy)
 	prefix_yyyy := str_yyyy[0 : len(str_yyyy)-digits]
 
 	first := strings.Repeat("0", digits)
-- 
2.43.0


From 71650d7034e805afa4c8987add871ceac86e0f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:40 +0000
Subject: [PATCH 06/27] fix: zero-pad the years of synthesized date strings

The season, sub-year grouping, exponential year and significant digits
parsers build an EDTF string to parse. Years before 1000 were written with
less than four digits so -0980-21, 0500-28, Y5E2 and 0950S2 were rejected.
---
 common/year.go               | 11 +++++++++++
 level1/season.go             |  2 +-
 level2/exponential_year.go   |  3 +--
 level2/significant_digits.go |  2 +-
 level2/sub_year_grouping.go  |  4 ++--
 5 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/common/year.go b/common/year.go
index 16e8463..192e9f3 100644
--- a/common/year.go
+++ b/common/year.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"fmt"
 	"time"
 )
 
@@ -8,6 +9,16 @@ func FlipYear(yyyy int) int {
 	return yyyy - (yyyy * 2)
 }
 
+// FormatYear returns 'yyyy' as a (zero-padded) four-digit EDTF year string, preceded by a minus sign if it is negative.
+func FormatYear(yyyy int) string {
+
+	if yyyy < 0 {
+		return fmt.Sprintf("-%04d", FlipYear(yyyy))
+	}
+
+	return fmt.Sprintf("%04d", yyyy)
+}
+
 func TimeToBCE(t time.Time) time.Time {
 	return t.AddDate(-2*t.Year(), 0, 0)
 }
diff --git a/level1/season.go b/level1/season.go
index e8b3cf7..4800350 100644
--- a/level1/season.go
+++ b/level1/season.go
@@ -173,7 +173,7 @@ func ParseSeason(edtf_str string) (*edtf.EDTFDate, error) {
 
 	end_dd = dm
 
-	_str := fmt.Sprintf("%04d-%02d-%02d/%04d-%02d-%02d", start_yyyy, start_mm, start_dd, end_yyyy, end_mm, end_dd)
+	_str := fmt.Sprintf("%s-%02d-%02d/%s-%02d-%02d", common.FormatYear(start_yyyy), start_mm, start_dd, common.FormatYear(end_yyyy), end_mm, end_dd)
 
 	sp, err := common.DateSpanFromEDTF(_str)
 
diff --git a/level2/exponential_year.go b/level2/exponential_year.go
index ea90b09..37f3bea 100644
--- a/level2/exponential_year.go
+++ b/level2/exponential_year.go
@@ -4,7 +4,6 @@ import (
 	"github.com/sfomuseum/go-edtf"
 	"github.com/sfomuseum/go-edtf/common"
 	"github.com/sfomuseum/go-edtf/re"
-	"strconv"
 )
 
 /*
@@ -47,7 +46,7 @@ func ParseExponentialYear(edtf_str string) (*edtf.EDTFDate, error) {
 		return nil, err
 	}
 
-	str_yyyy := strconv.Itoa(yyyy)
+	str_yyyy := common.FormatYear(yyyy)
 
 	sp, err := common.DateSpanFromEDTF(str_yyyy)
 
diff --git a/level2/significant_digits.go b/level2/significant_digits.go
index 1e4d7f8..c693524 100644
--- a/level2/significant_digits.go
+++ b/level2/significant_digits.go
@@ -101,7 +101,7 @@ func ParseSignificantDigits(edtf_str string) (*edtf.EDTFDate, error) {
 		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)
 	}
 
-	str_yyyy = strconv.Itoa(yyyy)
+	str_yyyy = common.FormatYear(yyyy)
 
 	if digits > len(strings.TrimPrefix(str_yyyy, "-")) {
 		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)
diff --git a/level2/sub_year_grouping.go b/level2/sub_year_grouping.go
index b96888f..5d3b14b 100644
--- a/level2/sub_year_grouping.go
+++ b/level2/sub_year_grouping.go
@@ -96,7 +96,7 @@ func ParseSubYearGroupings(edtf_str string) (*edtf.EDTFDate, error) {
 			return nil, err
 		}
 
-		end_yyyy = strconv.Itoa(y + 1)
+		end_yyyy = common.FormatYear(y + 1)
 
 	case "29": // Spring - Southern Hemisphere
 		start_mm = "09"
@@ -116,7 +116,7 @@ func ParseSubYearGroupings(edtf_str string) (*edtf.EDTFDate, error) {
 			return nil, err
 		}
 
-		end_yyyy = strconv.Itoa(y + 1)
+		end_yyyy = common.FormatYear(y + 1)
 
 	case "31": // Autumn - Southern Hemisphere
 		start_mm = "03"
-- 
2.43.0


From 7d73d05dd254630e167d7ebbdd9aff03017f081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:41 +0000
Subject: [PATCH 07/27] fix: IsExtendedInterval reports false for other strings

---
 level1/extended_interval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/level1/extended_interval.go b/level1/extended_interval.go
index a80e971..5c410a3 100644
--- a/level1/extended_interval.go
+++ b/level1/extended_interval.go
@@ -62,7 +62,7 @@ func IsExtendedInterval(edtf_str string) bool {
 		return true
 	}
 
-	return true
+	return false
 }
 
 func ParseExtendedInterval(edtf_str string) (*edtf.EDTFDate, error) {
-- 
2.43.0


From a7c4753bb1a7950c1b7400e731d6481bda1efc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:42 +0000
Subject: [PATCH 08/27] fix: apply the UTC offset of a BCE date and time after
 negating its year

Converting first and negating the year of the result afterwards was two
years off whenever the offset crosses a year boundary:
-0001-01-01T00:00:00+01:00 was read as 0000-12-31T23:00:00Z.
---
 level0/date_and_time.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/level0/date_and_time.go b/level0/date_and_time.go
index 2fc5227..59a4675 100644
--- a/level0/date_and_time.go
+++ b/level0/date_and_time.go
@@ -69,12 +69,12 @@ func ParseDateAndTime(edtf_str string) (*edtf.EDTFDate, error) {
 		return nil, err
 	}
 
-	t = t.UTC()
-
 	if is_bce {
 		t = common.TimeToBCE(t)
 	}
 
+	t = t.UTC()
+
 	upper_date := &edtf.Date{}
 
 	lower_date := &edtf.Date{}
-- 
2.43.0


From 426f947e18d9c579b3427a6047c0c74063974956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:43 +0000
Subject: [PATCH 09/27] fix: NotSet returns a NotSetError

---
 errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors.go b/errors.go
index 5debc12..24446c2 100644
--- a/errors.go
+++ b/errors.go
@@ -12,7 +12,7 @@ func (e *NotSetError) Error() string {
 }
 
 func NotSet() error {
-	return &NotImplementedError{}
+	return &NotSetError{}
 }
 
 func IsNotSet(e error) bool {
-- 
2.43.0


From 3ebd43e1d1c0399e89b8da7bc6dd6ca5752063e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:44 +0000
Subject: [PATCH 10/27] fix: a date is neither before nor after another which
 shares its bound

Equal bounds counted as both before and after, so a date and time was
before and after itself (and not between itself and a later date) and
2020-12-31T23:59:59Z was after 2020.
---
 edtf.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/edtf.go b/edtf.go
index b1c7726..fcf3eef 100644
--- a/edtf.go
+++ b/edtf.go
@@ -116,11 +116,7 @@ func (d *EDTFDate) After(u *EDTFDate) (bool, error) {
 		return false, fmt.Errorf("Failed to derive lower time for cessation date (%s), %w", d.EDTF, err)
 	}
 
-	if u_t.After(*t) {
-		return false, nil
-	}
-
-	return true, nil
+	return t.After(*u_t), nil
 }
 
 // Before reports whether the EDTFDate instance `d` is after `u`.
@@ -142,9 +138,5 @@ func (d *EDTFDate) Before(u *EDTFDate) (bool, error) {
 		return false, fmt.Errorf("Failed to derive upper time for cessation date (%s), %w", d.EDTF, err)
 	}
 
-	if u_t.Before(*t) {
-		return false, nil
-	}
-
-	return true, nil
+	return t.Before(*u_t), nil
 }
-- 
2.43.0


From 8f5bf780badd37e100e7a58c79f0aa41d150e198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:11 +0000
Subject: [PATCH 11/27] fix: do not count the minus sign as a digit of a
 significant digits year

Y-1950S2 was rejected as a year with more than four digits although -1950S2
and Y-1950 are supported.
---
 level2/significant_digits.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/level2/significant_digits.go b/level2/significant_digits.go
index c693524..2bf7cba 100644
--- a/level2/significant_digits.go
+++ b/level2/significant_digits.go
@@ -65,7 +65,7 @@ func ParseSignificantDigits(edtf_str string) (*edtf.EDTFDate, error) {
 
 	} else if str_year != "" {
 
-		if len(str_year) > 4 {
+		if len(strings.TrimPrefix(str_year, "-")) > 4 {
 			return nil, edtf.Unsupported(SIGNIFICANT_DIGITS, edtf_str)
 		}
 
-- 
2.43.0


From 9302b6152af9d938305efd9f0fbcab2baad79068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:12 +0000
Subject: [PATCH 12/27] fix: resolve unspecified digits after a leading zero,
 and in February

1984-0X was read as October to December 1984, 2004-06-0X was rejected as
invalid and so was 2001-02-2X, whose last day is the 28th.
---
 common/range.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/common/range.go b/common/range.go
index 14de55f..575bcac 100644
--- a/common/range.go
+++ b/common/range.go
@@ -367,6 +367,12 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 			start_mm = "01"
 			end_mm = "12"
 
+		} else if strings.HasPrefix(mm, "0") {
+			start_mm = "01"
+			end_mm = "09"
+
+			precision = edtf.NONE
+			precision.AddFlag(edtf.MONTH)
 		} else {
 			start_mm = "10"
 			end_mm = "12"
@@ -391,12 +397,27 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 		case "X":
 			start_dd = "01"
 			end_dd = ""
+		case "0":
+			start_dd = "01"
+			end_dd = "09"
 		case "1":
 			start_dd = "10"
 			end_dd = "19"
 		case "2":
 			start_dd = "20"
 			end_dd = "29"
+
+			// most Februaries end before the 29th
+
+			days, err := calendar.DaysInMonthWithString(fmt.Sprintf("%s-%s", end_yyyy, end_mm))
+
+			if err != nil {
+				return nil, err
+			}
+
+			if days < 29 {
+				end_dd = strconv.Itoa(days)
+			}
 		case "3":
 			start_dd = "30"
 			end_dd = ""
-- 
2.43.0


From c8bef2957d0b807db01a8e703b9874897d551f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:12 +0000
Subject: [PATCH 13/27] fix: there are no days in a month which does not exist

---
 calendar/calendar.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/calendar/calendar.go b/calendar/calendar.go
index 75d3866..ce3b64a 100644
--- a/calendar/calendar.go
+++ b/calendar/calendar.go
@@ -52,6 +52,10 @@ func DaysInMonth(yyyy int, mm int) (int, error) {
 		yyyy = yyyy - (yyyy * 2)
 	}
 
+	if mm < 1 || mm > 12 {
+		return 0, errors.New("Invalid month")
+	}
+
 	next_yyyy := yyyy
 	next_mm := mm + 1
 
-- 
2.43.0


From a0f3bc27133ff463b9967a76c27891a50ff63d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:13 +0000
Subject: [PATCH 14/27] fix: SetTime encodes the date time string in UTC, as
 documented

---
 date.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.go b/date.go
index 1ba96d5..8c57901 100644
--- a/date.go
+++ b/date.go
@@ -19,7 +19,7 @@ type Date struct {
 }
 
 func (d *Date) SetTime(t *time.Time) {
-	d.DateTime = t.Format(time.RFC3339)
+	d.DateTime = t.UTC().Format(time.RFC3339)
 	d.Timestamp = NewTimestampWithTime(t)
 }
 
-- 
2.43.0


From 357d7a1eea0cf0f0c4633fb894eee6e7d957eb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:15 +0000
Subject: [PATCH 15/27] fix: reject the promise of parse_edtf with the error
 message

fmt.Printf wrote the message to the console and the promise was rejected
with the number of bytes written, which is what the web page displayed.
---
 cmd/parse-wasm/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/parse-wasm/main.go b/cmd/parse-wasm/main.go
index 94971fb..e8c8872 100644
--- a/cmd/parse-wasm/main.go
+++ b/cmd/parse-wasm/main.go
@@ -24,14 +24,14 @@ func ParseFunc() js.Func {
 			edtf_d, err := parser.ParseString(edtf_str)
 
 			if err != nil {
-				reject.Invoke(fmt.Printf("Failed to parse '%s', %v\n", edtf_str, err))
+				reject.Invoke(fmt.Sprintf("Failed to parse '%s', %v", edtf_str, err))
 				return nil
 			}
 
 			enc, err := json.Marshal(edtf_d)
 
 			if err != nil {
-				reject.Invoke(fmt.Printf("Failed to marshal result for '%s', %v\n", edtf_str, err))
+				reject.Invoke(fmt.Sprintf("Failed to marshal result for '%s', %v", edtf_str, err))
 				return nil
 			}
 
-- 
2.43.0


From 97de12b25bb83c2eeb5cdd0d46ed935c4f97f6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:34 +0000
Subject: [PATCH 16/27] fix: a date and time needs a complete date

1985T23:20:30 was reported as a valid date and time but can not be parsed:
the grammar only has date and time strings with a year, a month and a day.
---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index 5327bbe..479b249 100644
--- a/re/re.go
+++ b/re/re.go
@@ -28,7 +28,7 @@ const PATTERN_DATE_X string = `(` + PATTERN_YEAR_X + `|(?:` + PATTERN_MONTH_X +
 
 const PATTERN_DATE string = `(\-?\d{4})(?:-([0][1-9]|1[0-2])(?:-(0[1-9]|[12][0-9]|3[01]))?)?`
 
-const PATTERN_DATE_AND_TIME string = PATTERN_DATE + `T(\d{2}):(\d{2}):(\d{2})(Z|(\+|-)(\d{2})(\:(\d{2}))?)?`
+const PATTERN_DATE_AND_TIME string = `(\-?\d{4})-([0][1-9]|1[0-2])-(0[1-9]|[12][0-9]|3[01])T(\d{2}):(\d{2}):(\d{2})(Z|(\+|-)(\d{2})(\:(\d{2}))?)?`
 
 const PATTERN_TIME_INTERVAL string = PATTERN_DATE + `/` + PATTERN_DATE
 
-- 
2.43.0


From d17a926f874091bdde0dbaa6480f9ada9dd1df98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:36 +0000
Subject: [PATCH 17/27] fix: do not report Level 2 unspecified digits as Level
 1

Level 1 only has the last one or two digits of a lone year, the month, the
day, or the month and the day unspecified. The pattern accepted an X in any
place so the Level 2 strings 156X-12-25, 1XXX-12 and 1984-1X were reported
as Level 1, although not 156X-12-10.
---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index 479b249..ab8bd6c 100644
--- a/re/re.go
+++ b/re/re.go
@@ -40,7 +40,7 @@ const PATTERN_SEASON string = `(?:` + PATTERN_YEAR + `\-(0[1-9]|1[0-2]|2[1-4])|(
 
 const PATTERN_QUALIFIED_DATE string = PATTERN_DATE + `(\?|~|%)`
 
-const PATTERN_UNSPECIFIED_DIGITS string = `(?:([0-9X]{4})(?:-([0X][1-9X]|[1X][0-2X])(?:-([012X][1-9X]|[3X][01X]))?)?)`
+const PATTERN_UNSPECIFIED_DIGITS string = `(?:\d{2}[0-9X]X|\d{4}-XX|\d{4}-(?:XX|0[1-9]|1[0-2])-XX)`
 
 const PATTERN_INTERVAL_START = `(\.\.)?\/` + PATTERN_DATE
 
-- 
2.43.0


From 281413748ef2750df949a65d23625d3135cfe8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:50 +0000
Subject: [PATCH 18/27] fix: reject months and days which do not exist in Level
 2 strings

The Level 2 patterns accepted any two digits, so 1984-13 and 1984-99-99 were
reported as valid although they can not be parsed, and day 00 was read as
the last day of the month: 2004-06-00 was 2004-06-30.
---
 re/re.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/re/re.go b/re/re.go
index ab8bd6c..20e7c82 100644
--- a/re/re.go
+++ b/re/re.go
@@ -14,7 +14,7 @@ const PATTERN_QUALIFIER string = `[\` + edtf.UNCERTAIN + edtf.APPROXIMATE + edtf
 
 const PATTERN_YEAR_X string = `\-?[0-9X]{4}`
 const PATTERN_MONTH_X string = `(?:[0X][1-9X]|[1X][0-2X])`
-const PATTERN_DAY_X string = `(?:[012X][0-9X]|[3X][01X])`
+const PATTERN_DAY_X string = `(?:[0X][1-9X]|[12X][0-9X]|[3X][01X])`
 
 const PATTERN_YYYY string = `(` + PATTERN_QUALIFIER + `?` + PATTERN_YEAR_X + `|` + PATTERN_YEAR_X + PATTERN_QUALIFIER + `?)`
 const PATTERN_MM string = `(` + PATTERN_QUALIFIER + `?` + PATTERN_MONTH_X + `|` + PATTERN_MONTH_X + PATTERN_QUALIFIER + `?)`
@@ -60,10 +60,10 @@ const PATTERN_SUB_YEAR_GROUPING string = `(\d{4})\-(1[0-2]|2[1-9]|3[0-9]|4[0-1])
 
 const PATTERN_SET_REPRESENTATIONS string = `(\[|\{)((?:\.\.)?(?:(?:` + PATTERN_DATE + `(?:,|\.\.)?)+(?:\.\.)?))[\}\]]`
 
-const PATTERN_GROUP_QUALIFICATION string = `(?:(\d{4})(%|~|\?)?(?:-(\d{2})(%|~|\?)?(?:-(\d{2})(%|~|\?)?)?)?)`
+const PATTERN_GROUP_QUALIFICATION string = `(?:(\d{4})(%|~|\?)?(?:-(0[1-9]|1[0-2])(%|~|\?)?(?:-(0[1-9]|[12][0-9]|3[01])(%|~|\?)?)?)?)`
 
-const PATTERN_INDIVIDUAL_QUALIFICATION string = `(?:(%|~|\?)?(\d{4})(?:-(%|~|\?)?(\d{2})(?:-(%|~|\?)?(\d{2}))?)?)`
+const PATTERN_INDIVIDUAL_QUALIFICATION string = `(?:(%|~|\?)?(\d{4})(?:-(%|~|\?)?(0[1-9]|1[0-2])(?:-(%|~|\?)?(0[1-9]|[12][0-9]|3[01]))?)?)`
 
-const PATTERN_UNSPECIFIED_DIGIT string = `([0-9X]{4})(?:-([0-9X]{2})(?:-([0-9X]{2}))?)?`
+const PATTERN_UNSPECIFIED_DIGIT string = `([0-9X]{4})(?:-(` + PATTERN_MONTH_X + `)(?:-(` + PATTERN_DAY_X + `))?)?`
 
-const PATTERN_INTERVAL string = `(%|~|\?)?(\-?[0-9X]{4})(?:-(%|~|\?)?([0-9X]{2})(?:-(%|~|\?)?([0-9X]{2}))?)?\/(%|~|\?)?(\-?[0-9X]{4})(?:-(%|~|\?)?([0-9X]{2})(?:-(%|~|\?)?([0-9X]{2}))?)?`
+const PATTERN_INTERVAL string = `(%|~|\?)?(\-?[0-9X]{4})(?:-(%|~|\?)?(` + PATTERN_MONTH_X + `)(?:-(%|~|\?)?(` + PATTERN_DAY_X + `))?)?\/(%|~|\?)?(\-?[0-9X]{4})(?:-(%|~|\?)?(` + PATTERN_MONTH_X + `)(?:-(%|~|\?)?(` + PATTERN_DAY_X + `))?)?`
-- 
2.43.0


From a9d013bf9808c1b9c9a5e814e2b9cb467d900b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:41 +0000
Subject: [PATCH 19/27] fix: reject malformed set representations

The pattern did not require the closing bracket to match the opening one
([1984}) nor one separator between the members: {1984,} was read as an
interval with an unknown start, {1984,..} as one with an open start and
{19841985} was reported as valid.
---
 level2/set_representation.go | 6 +++---
 re/re.go                     | 8 ++++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/level2/set_representation.go b/level2/set_representation.go
index 9702342..6eb5f15 100644
--- a/level2/set_representation.go
+++ b/level2/set_representation.go
@@ -69,12 +69,12 @@ func ParseSetRepresentations(edtf_str string) (*edtf.EDTFDate, error) {
 
 	m := re.SetRepresentations.FindStringSubmatch(edtf_str)
 
-	if len(m) != 6 {
+	if len(m) != 3 {
 		return nil, edtf.Invalid(SET_REPRESENTATIONS, edtf_str)
 	}
 
-	class := m[1]
-	candidates := m[2]
+	class := edtf_str[0:1]
+	candidates := m[1] + m[2]
 
 	start_ymd := ""
 	end_ymd := ""
diff --git a/re/re.go b/re/re.go
index 20e7c82..b0574df 100644
--- a/re/re.go
+++ b/re/re.go
@@ -56,9 +56,13 @@ const PATTERN_SIGNIFICANT_DIGITS string = `(?:` + PATTERN_YEAR + `|` + PATTERN_L
 
 const PATTERN_SUB_YEAR_GROUPING string = `(\d{4})\-(1[0-2]|2[1-9]|3[0-9]|4[0-1])`
 
-// PLEASE FIX ME TO ENSURE CLOSING EL IS THE SAME AS OPENING EL : {}, (), []
+const PATTERN_SET_DATE string = `\-?\d{4}(?:-(?:0[1-9]|1[0-2])(?:-(?:0[1-9]|[12][0-9]|3[01]))?)?`
 
-const PATTERN_SET_REPRESENTATIONS string = `(\[|\{)((?:\.\.)?(?:(?:` + PATTERN_DATE + `(?:,|\.\.)?)+(?:\.\.)?))[\}\]]`
+const PATTERN_SET_MEMBER string = PATTERN_SET_DATE + `(?:\.\.` + PATTERN_SET_DATE + `)?`
+
+const PATTERN_SET_MEMBERS string = `(?:` + PATTERN_SET_DATE + `\.\.|(?:\.\.` + PATTERN_SET_DATE + `|` + PATTERN_SET_MEMBER + `)(?:,` + PATTERN_SET_MEMBER + `)*(?:,` + PATTERN_SET_DATE + `\.\.)?)`
+
+const PATTERN_SET_REPRESENTATIONS string = `(?:\[(` + PATTERN_SET_MEMBERS + `)\]|\{(` + PATTERN_SET_MEMBERS + `)\})`
 
 const PATTERN_GROUP_QUALIFICATION string = `(?:(\d{4})(%|~|\?)?(?:-(0[1-9]|1[0-2])(%|~|\?)?(?:-(0[1-9]|[12][0-9]|3[01])(%|~|\?)?)?)?)`
 
-- 
2.43.0


From 6b00b2cb9c228dd21aa7d1ebb6d7cdd4ad5f1c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:42 +0000
Subject: [PATCH 20/27] fix: order the members of a set chronologically

The bookends of a set were picked by comparing strings, so {-0200,-0100}
started in -0100 and ended in -0200, and {1667,1667-05} ended in May. A
member which does not exist was ignored unless it was a bookend.
---
 level2/set_representation.go | 37 ++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/level2/set_representation.go b/level2/set_representation.go
index 6eb5f15..c7febf2 100644
--- a/level2/set_representation.go
+++ b/level2/set_representation.go
@@ -140,18 +140,35 @@ func ParseSetRepresentations(edtf_str string) (*edtf.EDTFDate, error) {
 		}
 	}
 
+	// the bookends are the members with the earliest lower and the latest upper
+	// bound, which is not the order of the strings: -0200 is before -0100 and
+	// 1667 ends after 1667-05
+
 	sort.Strings(possible)
-	count := len(possible)
 
-	switch count {
-	case 0:
-		return nil, edtf.Invalid(SET_REPRESENTATIONS, edtf_str)
-	case 1:
-		start_ymd = possible[0]
-		end_ymd = start_ymd
-	default:
-		start_ymd = possible[0]
-		end_ymd = possible[count-1]
+	var start_t int64
+	var end_t int64
+
+	for i, ymd := range possible {
+
+		sp, err := common.DateSpanFromEDTF(ymd)
+
+		if err != nil {
+			return nil, err
+		}
+
+		lower_t := sp.Start.Lower.Timestamp.Unix()
+		upper_t := sp.End.Upper.Timestamp.Unix()
+
+		if i == 0 || lower_t < start_t {
+			start_ymd = ymd
+			start_t = lower_t
+		}
+
+		if i == 0 || upper_t >= end_t {
+			end_ymd = ymd
+			end_t = upper_t
+		}
 	}
 
 	_str := start_ymd
-- 
2.43.0


From 626edf7e4f6d1b608759d797b8d8d114b34eeaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:43 +0000
Subject: [PATCH 21/27] fix: a set which is open at both ends has no bounds

The start and the end of {..1984,1990..} shared one open range and its upper
date was overwritten with the last member, so the end was 1990-12-31.
---
 level2/set_representation.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/level2/set_representation.go b/level2/set_representation.go
index c7febf2..8f387d4 100644
--- a/level2/set_representation.go
+++ b/level2/set_representation.go
@@ -226,12 +226,14 @@ func ParseSetRepresentations(edtf_str string) (*edtf.EDTFDate, error) {
 
 		open_range := common.OpenDateRange()
 
-		if start_open {
+		if start_open && end_open {
+
+			sp = common.OpenDateSpan()
+
+		} else if start_open {
 			sp.End.Lower = sp.Start.Lower
 			sp.Start = open_range
-		}
-
-		if end_open {
+		} else {
 
 			sp.Start.Upper = sp.End.Upper
 			sp.End = open_range
-- 
2.43.0


From 1752aaf5c6df8513436324539eb5e21ad64154c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:53 +0000
Subject: [PATCH 22/27] fix: resolve unspecified digits to dates which exist

---
 common/range.go | 59 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/common/range.go b/common/range.go
index 575bcac..67accac 100644
--- a/common/range.go
+++ b/common/range.go
@@ -466,6 +466,17 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 		end_dd = strconv.Itoa(int(dd))
 	}
 
+	// the first and the last of the possible dates may not exist, for example
+	// September 31 (2004-0X-31) or February 29 in 1900 and 1969 (190X-02-29)
+
+	if mm == "0X" && dd == "31" {
+		end_mm = "08"
+	}
+
+	if mm == "02" && dd == "29" && strings.HasSuffix(yyyy, "X") {
+		start_yyyy, end_yyyy = leapYearsForPattern(yyyy, start_yyyy, end_yyyy)
+	}
+
 	start := &StringDate{
 		Year:  start_yyyy,
 		Month: start_mm,
@@ -490,6 +501,54 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 	return r, nil
 }
 
+// leapYearsForPattern returns the first and the last of the leap years between 'start_yyyy' and 'end_yyyy' which match
+// 'pattern', whose unspecified digits are X. If there are none 'start_yyyy' and 'end_yyyy' are returned as they are.
+func leapYearsForPattern(pattern string, start_yyyy string, end_yyyy string) (string, string) {
+
+	first := ""
+	last := ""
+
+	start, start_err := strconv.Atoi(start_yyyy)
+	end, end_err := strconv.Atoi(end_yyyy)
+
+	if start_err != nil || end_err != nil {
+		return start_yyyy, end_yyyy
+	}
+
+	for yyyy := start; yyyy <= end; yyyy++ {
+
+		days, err := calendar.DaysInMonth(yyyy, 2)
+
+		if err != nil || days < 29 {
+			continue
+		}
+
+		str_yyyy := FormatYear(yyyy)
+
+		matches := len(str_yyyy) == len(pattern)
+
+		for i := 0; matches && i < len(pattern); i++ {
+			matches = pattern[i] == 'X' || pattern[i] == str_yyyy[i]
+		}
+
+		if !matches {
+			continue
+		}
+
+		if first == "" {
+			first = str_yyyy
+		}
+
+		last = str_yyyy
+	}
+
+	if first == "" {
+		return start_yyyy, end_yyyy
+	}
+
+	return first, last
+}
+
 func EmptyDateRange() *edtf.DateRange {
 
 	lower_d := &edtf.Date{}
-- 
2.43.0


From a29b8ec416452a8db621afb578fc6dcd2697e495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:07 +0000
Subject: [PATCH 23/27] fix: resolve unspecified digits of a year which are not
 its last

---
 common/range.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/range.go b/common/range.go
index 67accac..e19a585 100644
--- a/common/range.go
+++ b/common/range.go
@@ -258,7 +258,7 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 
 	// fmt.Println("PRECISION 0", edtf_str, precision)
 
-	if !strings.HasSuffix(yyyy, "X") {
+	if !strings.Contains(yyyy, "X") {
 
 		precision = edtf.NONE
 		precision.AddFlag(edtf.YEAR)
@@ -473,7 +473,7 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 		end_mm = "08"
 	}
 
-	if mm == "02" && dd == "29" && strings.HasSuffix(yyyy, "X") {
+	if mm == "02" && dd == "29" && strings.Contains(yyyy, "X") {
 		start_yyyy, end_yyyy = leapYearsForPattern(yyyy, start_yyyy, end_yyyy)
 	}
 
-- 
2.43.0


From b9c18a6dfadb54ff7623813bb3257547764be587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:08 +0000
Subject: [PATCH 24/27] fix: days in month of a string with a day is an error

---
 calendar/calendar.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/calendar/calendar.go b/calendar/calendar.go
index ce3b64a..35ce0d5 100644
--- a/calendar/calendar.go
+++ b/calendar/calendar.go
@@ -19,6 +19,11 @@ func DaysInMonthWithString(yyyymm string) (int, error) {
 
 	switch len(ym) {
 	case 3:
+
+		if ym[0] != "" {
+			return 0, errors.New("Invalid YYYYMM string")
+		}
+
 		str_yyyy = fmt.Sprintf("-%s", ym[1])
 		str_mm = ym[2]
 	case 2:
-- 
2.43.0


From 5cdf11c2c8f6f5bcb9a6ddabe49fd4773b2dde07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:12:00 +0000
Subject: [PATCH 25/27] fix: answer for exponential years with many digits in
 linear time

math/big takes time that grows with the square of the number of digits
of the mantissa: 37 s for 'Y' and four million digits and 'E2'. The number
does not need to be parsed to know that its year is not supported.
---
 common/exponential.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/common/exponential.go b/common/exponential.go
index 2434193..59b5276 100644
--- a/common/exponential.go
+++ b/common/exponential.go
@@ -3,11 +3,27 @@ package common
 import (
 	"github.com/sfomuseum/go-edtf"
 	"math/big"
+	"strings"
 )
 
 // Parse a string in exponential notation in to a year value in numeric form.
 func ParseExponentialNotation(notation string) (int, error) {
 
+	// The time it takes to parse a (floating point) number grows with the square
+	// of the number of its digits, but a number which has more digits than any
+	// supported year before its exponent does not need to be parsed.
+
+	parts := strings.SplitN(strings.ToUpper(notation), "E", 2)
+
+	if len(parts) == 2 {
+
+		digits := strings.TrimLeft(strings.TrimPrefix(parts[0], "-"), "0")
+
+		if len(digits) > 4 && isDigits(digits) && isDigits(parts[1]) {
+			return 0, edtf.Unsupported("exponential notation", notation)
+		}
+	}
+
 	flt, _, err := big.ParseFloat(notation, 10, 0, big.ToNearestEven)
 
 	if err != nil {
@@ -28,3 +44,7 @@ func ParseExponentialNotation(notation string) (int, error) {
 	yyyy, _ := flt.Int64()
 	return int(yyyy), nil
 }
+
+func isDigits(str string) bool {
+	return str != "" && strings.Trim(str, "0123456789") == ""
+}
-- 
2.43.0


From 69552a0f6483c2a9316ceb0c56fcc030e130539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:13:15 +0000
Subject: [PATCH 26/27] fix: YMDFromString failed for a year, or a year and
 month, before 0 and ignored what was before the first hyphen of 2004-01-02-03

---
 common/ymd.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/common/ymd.go b/common/ymd.go
index 598ffa7..7968afe 100644
--- a/common/ymd.go
+++ b/common/ymd.go
@@ -18,13 +18,18 @@ func YMDFromString(str_ymd string) (*edtf.YMD, error) {
 	mm := ""
 	dd := ""
 
+	// a leading minus sign belongs to the year, it does not separate anything
+
+	sign := ""
+
+	if strings.HasPrefix(str_ymd, edtf.NEGATIVE) {
+		sign = edtf.NEGATIVE
+		str_ymd = strings.TrimPrefix(str_ymd, edtf.NEGATIVE)
+	}
+
 	parts := strings.Split(str_ymd, "-")
 
 	switch len(parts) {
-	case 4:
-		yyyy = "-" + parts[1]
-		mm = parts[2]
-		dd = parts[3]
 	case 3:
 		yyyy = parts[0]
 		mm = parts[1]
@@ -38,7 +43,7 @@ func YMDFromString(str_ymd string) (*edtf.YMD, error) {
 		return nil, errors.New("Invalid YMD string")
 	}
 
-	return YMDFromStrings(yyyy, mm, dd)
+	return YMDFromStrings(sign+yyyy, mm, dd)
 }
 
 func YMDFromStrings(str_yyyy string, str_mm string, str_dd string) (*edtf.YMD, error) {
-- 
2.43.0


From 57948efd7ee838c01fc873f3d32f5ed8ddeec068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:43 +0000
Subject: [PATCH 27/27] fix: read a BCE date and time the same wherever the
 process runs

time.Parse gives a time in the local time zone where that zone has the
offset of the string, and the negated year was then read with the offset
which the zone had (or is taken to have had) in that year: with
TZ=Asia/Kathmandu -5199-02-22T05:24:32+05:45 was 23:43:16Z instead of
23:39:32Z. Parse it relative to UTC, whose offset never changes.
---
 level0/date_and_time.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/level0/date_and_time.go b/level0/date_and_time.go
index 59a4675..377b132 100644
--- a/level0/date_and_time.go
+++ b/level0/date_and_time.go
@@ -63,7 +63,7 @@ func ParseDateAndTime(edtf_str string) (*edtf.EDTFDate, error) {
 		t_fmt = fmt.Sprintf("-%s", t_fmt)
 	}
 
-	t, err := time.Parse(t_fmt, edtf_str)
+	t, err := time.ParseInLocation(t_fmt, edtf_str, time.UTC)
 
 	if err != nil {
 		return nil, err
-- 
2.43.0


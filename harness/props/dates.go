package props

import (
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"time"

	"verif/harness/bubble"
	"verif/harness/frame"
	"verif/harness/gen"
	"verif/harness/ref"
	"verif/harness/sut"
)

func init() {
	frame.Register(&frame.Check{
		ID: "C26", Quick: 9999, Thorough: 9999 * 20,
		Rule: "one evaluation: every day of one year (case index modulo 9999): day number, back, the days around it, random differences, every floor with random offsets, fraction of the year, labels and time, compared with the proleptic Gregorian calendar of the reference; non-trivial: every case, distinct by year and random offsets",
		Run:  calendarCheck,
	})
	frame.Register(&frame.Check{
		ID: "C27", Quick: 20000, Thorough: 600000,
		Rule: "one evaluation: 60 random strings in and near the supported forms, parsed and compared with an independent reading of the form (exact date, rejected, or, for strings that are no supported form, no impossible date); in half of the cases the clock is at a random instant (often within seconds of the turn of a day, month or year) of a random time zone, and half of the strings are relative to it; non-trivial: every case (strings are distinct with overwhelming probability)",
		Run:  dateStringCheck,
	})
	frame.Register(&frame.Check{
		ID: "C28", Quick: 20000, Thorough: 600000,
		Rule: "one evaluation: random outlay followed by receipts (up to 1200) with a known rate, mostly between -30% and 60%, at times from -90% to 660%,, the calculated rate put back into the cash flows (and compared with the rate found by bisection), then one flow shifted within its month; non-trivial: every case",
		Run:  irrCheck,
	})
}

func dayNumber(d int) int { return ref.Days(d) }

func isLeap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

var daysIn = []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}

func lenMonth(y, m int) int {
	if m == 2 && isLeap(y) {
		return 29
	}
	return daysIn[m-1]
}

func calendarCheck(c *frame.Case) {
	r := c.R
	y := c.Index%9999 + 1
	start := sut.DayNumber(y*10000 + 101)
	n := 0
	var key []int
	for m := 1; m <= 12; m++ {
		for d := 1; d <= lenMonth(y, m); d++ {
			date := y*10000 + m*100 + d
			// consecutive numbers, in the right distance from a fixed day
			if got := sut.DayNumber(date); got != start+n {
				c.Fail("day number of %d is %d, that of the first day of the year is %d: expected %d more", date, got, start, n)
			}
			if back := sut.DateOfDay(start + n); back != date {
				c.Fail("day number %d (of %d) is converted back to %d", start+n, date, back)
			}
			if !sut.ValidDate(date) {
				c.Fail("%d is not valid", date)
			}
			n++
			if s := sut.DateText(date); s != ref.DateString(date) {
				c.Fail("%d is shown as %q", date, s)
			}
			if t := sut.DateTime(date); t.Year() != y || int(t.Month()) != m || t.Day() != d || t.Hour() != 0 || t.Minute() != 0 || t.Location() != time.UTC {
				c.Fail("%d is time %v", date, t)
			}
			// as part of its year
			len := 365.0
			if isLeap(y) {
				len = 366
			}
			if got, want := sut.DateYears(date)-sut.DateYears(y*10000+101), float64(n-1)/len; math.Abs(got-want) > 1e-9 {
				c.Fail("%d is %v of a year after the first day of the year, expected %v", date, got, want)
			}
			ym, q := sut.DateLabels(date)
			if ym != fmt.Sprintf("%04d/%02d", y, m) || q != fmt.Sprintf("%04d Q%d", y, (m+2)/3) {
				c.Fail("%d has labels %q and %q", date, ym, q)
			}
			if j := sut.DateJSON(date); j != fmt.Sprintf("\"%04d-%02d-%02dT00:00:00Z\"", y, m, d) {
				c.Fail("%d is %s in JSON", date, j)
			}
			if (n+c.Index)%3 != 0 && d < 28 && d > 1 {
				continue
			}
			// differences, additions
			o := randomAnyDate(r)
			if got, want := sut.DaysBetween(date, o), dayNumber(date)-dayNumber(o); got != want {
				c.Fail("days from %d to %d are %d, expected %d", o, date, got, want)
			}
			if got := sut.AddDays(date, dayNumber(o)-dayNumber(date)); got != o {
				c.Fail("%d and %d days is %d, expected %d", date, dayNumber(o)-dayNumber(date), got, o)
			}
			// floors
			diff := r.Intn(9) - 4
			if r.Intn(4) == 0 {
				diff = r.Intn(60000) - 30000
			}
			key = append(key, diff)
			floors(c, date, y, m, diff)
		}
	}
	if n != 365 && n != 366 {
		frame.Broken("days in year")
	}
	if y < 9999 {
		if got := sut.DayNumber((y+1)*10000 + 101); got != start+n {
			c.Fail("day number of 1 January %d is %d, expected %d", y+1, got, start+n)
		}
		if got := sut.DateYears((y+1)*10000+101) - sut.DateYears(y*10000+101); math.Abs(got-1) > 1e-9 {
			c.Fail("1 January %d is %v years after 1 January %d", y+1, got, y)
		}
		if got := sut.AddDays(y*10000+1231, 1); got != (y+1)*10000+101 {
			c.Fail("the day after 31 December %d is %d", y, got)
		}
	}
	// impossible dates
	for i := 0; i < 40; i++ {
		m, d := r.Intn(100), r.Intn(100)
		date := y*10000 + m*100 + d
		if got := sut.ValidDate(date); got != (m >= 1 && m <= 12 && d >= 1 && d <= lenMonth(y, max(1, min(m, 12)))) {
			c.Fail("%d is valid: %v", date, got)
		}
	}
	c.Count("days", n)
	c.Count("floors", 3*len(key))
	c.Nontrivial(y, key)
	c.Sample("year %d: %d days", y, n)
}

func floors(c *frame.Case, date, y, m, diff int) {
	floorDiv := func(a, b int) (int, int) { // quotient, remainder >= 0
		q := a / b
		if a%b < 0 {
			q--
		}
		return q, a - q*b
	}
	for _, f := range []struct {
		by string
		ym int
	}{{"monthly", y*12 + m - 1 + diff}, {"quarterly", y*12 + (m-1)/3*3 + 3*diff}, {"yearly", (y + diff) * 12}} {
		wy, wm := floorDiv(f.ym, 12)
		if wy < 1 || wy > 9999 {
			continue
		}
		want := wy*10000 + (wm+1)*100 + 1
		if got := sut.FloorDate(date, f.by, diff); got != want {
			c.Fail("%d floored %s by %d is %d, expected %d", date, f.by, diff, got, want)
		}
	}
}

func randomAnyDate(r *rand.Rand) int {
	y := 1 + r.Intn(9999)
	if r.Intn(2) == 0 {
		y = 1890 + r.Intn(220)
	}
	m := 1 + r.Intn(12)
	d := 1 + r.Intn(lenMonth(y, m))
	if r.Intn(4) == 0 {
		m, d = 2, lenMonth(y, 2)
	}
	return y*10000 + m*100 + d
}

var sepForm = regexp.MustCompile(`^(\d{4})[-/.](\d{1,2})(?:[-/.](\d{1,2}))?$`)
var yearForm = regexp.MustCompile(`^(\d{4})$`)
var ymForm = regexp.MustCompile(`^(\d{4})(\d\d)$`)
var eightForm = regexp.MustCompile(`^\d{8}$`)
var dmyForm = regexp.MustCompile(`^(\d{1,2})[-/.](\d{1,2})[-/.](\d{4})$`)
var relForm = regexp.MustCompile(`^(this|last|next)[._ \t]+(month|year|quarter)$`)
var looseForm = regexp.MustCompile(`(?i)^[-/. \t_\d]*$|^\s*(this|last|next)[._\s]*(month|year|quarter)s?\s*$`)

// what a date string means: accepted dates (0: invalid); nil if it isn't a form with a
// definite meaning (only impossible dates are wrong then)
func dateMeaning(s string, now int) []int {
	mk := func(y, m, d int) []int {
		if ref.Valid(y, m, d) {
			return []int{y*10000 + m*100 + d}
		}
		return []int{0}
	}
	if m := yearForm.FindStringSubmatch(s); m != nil {
		return mk(atoi(m[1]), 1, 1)
	}
	if m := ymForm.FindStringSubmatch(s); m != nil {
		// 202013 could still be read as the 1st or the 3rd of something
		if v := mk(atoi(m[1]), atoi(m[2]), 1); v[0] != 0 {
			return v
		}
		return nil
	}
	if m := sepForm.FindStringSubmatch(s); m != nil {
		d := 1
		if m[3] != "" {
			d = atoi(m[3])
		}
		return mk(atoi(m[1]), atoi(m[2]), d)
	}
	if eightForm.MatchString(s) {
		v := mk(atoi(s[:4]), atoi(s[4:6]), atoi(s[6:]))
		w := mk(atoi(s[4:]), atoi(s[2:4]), atoi(s[:2]))
		if v[0] != 0 {
			return v
		}
		return w
	}
	if m := dmyForm.FindStringSubmatch(s); m != nil {
		return mk(atoi(m[3]), atoi(m[2]), atoi(m[1]))
	}
	if m := relForm.FindStringSubmatch(s); m != nil {
		y, mo := now/10000, now/100%100
		diff := map[string]int{"this": 0, "last": -1, "next": 1}[m[1]]
		ym := 0
		switch m[2] {
		case "month":
			ym = y*12 + mo - 1 + diff
		case "quarter":
			ym = y*12 + (mo-1)/3*3 + 3*diff
		case "year":
			ym = (y + diff) * 12
		}
		return []int{ym/12*10000 + (ym%12+1)*100 + 1}
	}
	if looseForm.MatchString(s) && s != "" && strings.ContainsAny(s, "0123456789tln") {
		return nil
	}
	return []int{0}
}

// atSomeTime runs f with the clock at a random instant, often close to the start or
// the end of a day, month, quarter or year, and reports that instant
func atSomeTime(r *rand.Rand, near int, f func(at time.Time)) {
	bubble.Run(func() {
		y, m, d := 2000+r.Intn(270), 1+r.Intn(12), 1+r.Intn(31)
		if y0 := near / 10000; near > 0 && y0 >= 2000 && y0 < 2270 {
			y, m, d = y0, near/100%100, near%100
			switch r.Intn(4) {
			case 0:
				m += r.Intn(7) - 3
			case 1:
				y += r.Intn(3) - 1
			}
		}
		switch r.Intn(6) {
		case 0:
			d = 1
		case 1:
			d = 0 // last day of a month
		case 2:
			m, d = 1, r.Intn(2)
		}
		sec := r.Intn(86400)
		switch r.Intn(4) {
		case 0:
			sec = r.Intn(3)
		case 1:
			sec = 86399 - r.Intn(3)
		}
		at := time.Date(y, time.Month(m), d, 0, 0, sec, r.Intn(1e9), time.Local)
		if wait := time.Until(at); wait > 0 {
			time.Sleep(wait)
		}
		f(time.Now())
	})
}

func dateStringCheck(c *frame.Case) {
	if c.R.Intn(2) == 0 {
		dateStrings(c, false)
		return
	}
	atSomeTime(c.R, 0, func(at time.Time) {
		c.Artefact("time", at.String())
		dateStrings(c, true)
	})
}

func dateStrings(c *frame.Case, relative bool) {
	r := c.R
	var key []string
	for i := 0; i < 60; i++ {
		s := randomDateString(r)
		if relative && i%2 == 0 {
			s = relativeDate(r)
		}
		now := today()
		want := dateMeaning(s, now)
		got := sut.ParseDate(s)
		if now != today() {
			continue
		}
		if got != 0 && !ref.Valid(got/10000, got/100%100, got%100) {
			c.Fail("%q is read as the impossible date %d", s, got)
		}
		switch {
		case want == nil:
			c.Count("no supported form", 1)
		case want[0] == 0:
			c.Count("to be rejected", 1)
		default:
			c.Count("dates", 1)
			if relative && i%2 == 0 {
				c.Count("relative dates at a random time", 1)
			}
		}
		if want != nil && got != want[0] {
			c.Fail("%q is read as %d, expected %d", s, got, want[0])
		}
		key = append(key, s)
	}
	c.Nontrivial(key)
	c.Sample("%q", key[:5])
}

func relativeDate(r *rand.Rand) string {
	return gen.Pick(r, []string{"this", "last", "next"}) + gen.Pick(r, []string{" ", " ", "_", ".", "\t", "  "}) + gen.Pick(r, []string{"month", "quarter", "year"})
}

func randomDateString(r *rand.Rand) string {
	y, m, d := 1900+r.Intn(200), 1+r.Intn(12), 1+r.Intn(31)
	switch r.Intn(8) {
	case 0:
		y = r.Intn(10000)
	case 1:
		m = r.Intn(16)
	case 2:
		d = r.Intn(40)
	case 3:
		m, d = 2, 28+r.Intn(3)
	case 4:
		d = 30 + r.Intn(2)
	}
	sep := []string{"-", "/", ".", ""}[r.Intn(4)]
	num := func(n int) string {
		if sep != "" && r.Intn(3) == 0 {
			return strconv.Itoa(n)
		}
		return fmt.Sprintf("%02d", n)
	}
	var s string
	switch r.Intn(10) {
	case 0:
		s = fmt.Sprintf("%04d", y)
	case 1:
		s = fmt.Sprintf("%04d%s%s", y, sep, num(m))
	case 2, 3, 4:
		s = fmt.Sprintf("%04d%s%s%s%s", y, sep, num(m), sep, num(d))
	case 5, 6:
		s = fmt.Sprintf("%s%s%s%s%04d", num(d), sep, num(m), sep, y)
	case 7:
		s = []string{"this", "last", "next", "This", "prev"}[r.Intn(5)] + []string{" ", "_", ".", "\t", "  ", "", "-"}[r.Intn(7)] + []string{"month", "year", "quarter", "week", "months"}[r.Intn(5)]
	case 8:
		for i := r.Intn(11); i > 0; i-- {
			s += string("0123456789-/."[r.Intn(13)])
		}
	case 9:
		s = []string{"", "today", "2020 01 01", "2020-01-01T00:00:00Z", "Jan 2020", "1 January 2020", "20-01-01", "٢٠٢٠", "２０２０", "2020-01-01 ", " 2020-01-01", "2020-01-01\n", "2020-01-01x", "+2020", "-2020", "2020-+1-01", "2e3", "0x20", "99999", "2020-001-01", "2020-01-001", "12020-01-01"}[r.Intn(22)]
	}
	if r.Intn(6) == 0 && len(s) > 0 { // mutate
		k := r.Intn(len(s))
		switch r.Intn(3) {
		case 0:
			s = s[:k] + s[k+1:]
		case 1:
			s = s[:k] + string("0123456789-/. x"[r.Intn(15)]) + s[k:]
		case 2:
			s = s[:k] + string("0123456789-/. x"[r.Intn(15)]) + s[k+1:]
		}
	}
	return s
}

func years(d int) float64 {
	y := d / 10000
	n := 365.0
	if isLeap(y) {
		n = 366
	}
	return float64(y) + float64(dayNumber(d)-dayNumber(y*10000+101))/n
}

func npv(dates []int, flows []float64, rate float64) float64 {
	v := 0.0
	t0 := years(dates[0])
	for i := range dates {
		v += flows[i] / math.Pow(1+rate, years(dates[i])-t0)
	}
	return v
}

// rate by bisection (the value is decreasing in the rate: outlay first)
func rateOf(dates []int, flows []float64) float64 {
	lo, hi := -0.999, 1000.0
	for i := 0; i < 200; i++ {
		mid := (lo + hi) / 2
		if npv(dates, flows, mid) > 0 {
			lo = mid
		} else {
			hi = mid
		}
	}
	return (lo + hi) / 2
}

func irrCheck(c *frame.Case) {
	r := c.R
	start := ref.FromTime(time.Date(1950+r.Intn(120), time.Month(1+r.Intn(12)), 1+r.Intn(31), 0, 0, 0, 0, time.UTC))
	rate := -0.3 + 0.9*r.Float64()
	switch r.Intn(6) {
	case 0:
		rate = -0.9 + 0.6*r.Float64()
		c.Count("heavy losses", 1)
	case 1:
		rate = 0.6 + 6*r.Float64()
		c.Count("high rates", 1)
	}
	n := 1 + r.Intn(8)
	span := 180 + r.Intn(3400)
	if r.Intn(40) == 0 {
		n, span = 300+r.Intn(900), 1500+r.Intn(4000)
		c.Count("hundreds of cash flows", 1)
	}
	offs := map[int]bool{span: true}
	for len(offs) < n {
		offs[1+r.Intn(span)] = true
	}
	var dates []int
	dates = append(dates, start)
	for o := 1; o <= span; o++ {
		if offs[o] {
			dates = append(dates, ref.FromTime(ref.Time(start).AddDate(0, 0, o)))
		}
	}
	flows := []float64{0}
	scale := math.Pow(10, float64(1+r.Intn(5)))
	t0 := years(start)
	for _, d := range dates[1:] {
		f := scale * (0.1 + r.Float64())
		flows = append(flows, f)
		flows[0] -= f / math.Pow(1+rate, years(d)-t0)
	}
	check := func(what string) float64 {
		want := rateOf(dates, flows)
		if want > 10 || want < -0.92 { // a shift can go anywhere
			c.Count("rates out of scope", 1)
			return want
		}
		got := sut.IRR(dates, flows)
		v := npv(dates, flows, got)
		c.Count("rates", 1)
		if math.IsNaN(got) || math.Abs(v) > 1e-4*1.01 && math.Abs(got-want) > 3e-4*(1+math.Abs(want)) {
			c.Fail("%s %v on %v: rate %v leaves %v, the rate is %v", what, flows, dates, got, v, want)
		}
		return want
	}
	w1 := check("cash flows")
	// shift one flow within its month
	i := 1 + r.Intn(len(dates)-1)
	ym := dates[i] / 100
	nd := ym*100 + 1 + r.Intn(lenMonth(ym/100, ym%100))
	old := dates[i]
	if nd > start {
		dates[i] = nd
		w2 := check(fmt.Sprintf("shifted %d to %d:", old, nd))
		if math.Abs(w1-w2) > 1e-3*(1+math.Abs(w1)) {
			c.Count("shifts that change the rate beyond the tolerance", 1)
		}
	}
	c.Nontrivial(dates, flows)
	c.Sample("%v %v: rate %v", dates, flows, w1)
}

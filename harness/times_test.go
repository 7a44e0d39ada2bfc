package zzverif

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"time"

	"gopkg.in/yaml.v3"

	"github.com/go-oidfed/lib/unixtime"
)

// ---- C25: times and durations ----------------------------------------------------

// ratOf reads a JSON number exactly.
func ratOf(s string) *big.Rat {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		return nil
	}
	return r
}

// tol is the tolerance for a number of seconds: a microsecond or, for numbers
// with a fraction, what the double of a JSON number can tell apart.
func tol(sec *big.Rat) *big.Rat {
	t := big.NewRat(1, 1000000)
	if sec.IsInt() {
		return t
	}
	f, _ := sec.Float64()
	u := math.Nextafter(math.Abs(f), math.Inf(1)) - math.Abs(f)
	if r := new(big.Rat).SetFloat64(u); r != nil && r.Cmp(t) > 0 {
		return r
	}
	return t
}

func closeTo(a, b *big.Rat) bool {
	d := new(big.Rat).Sub(a, b)
	return d.Abs(d).Cmp(tol(b)) <= 0
}

// ratOfTime is the time in seconds since 1970.
func ratOfTime(t time.Time) *big.Rat {
	r := new(big.Rat).SetInt64(t.Unix())
	return r.Add(r, big.NewRat(int64(t.Nanosecond()), 1000000000))
}

func ratOfDur(d time.Duration) *big.Rat {
	return big.NewRat(int64(d), 1000000000)
}

func init() {
	ints := []int64{
		0, 1, 2, 9, 59, 60, 3599, 3600, 86400, 999999, 1000000, 16777217, 31536000, 999999999, 1000000000, 1234567890,
		1700000000, 1893456000, 2147483647, 2147483648, 2147483649, 4294967295, 4294967296, 4294967297, 6307200000,
	}
	dates := append(
		append([]int64{}, ints...), 7258118400, 9223372035, 9223372036, 9223372037, 9999999999, 10000000000, 32503680000, 253402300799,
		-1, -2, -60, -86400, -2147483648, -2208988800, -9223372036, -9223372037, -62135596000,
	)
	fracs := []string{
		"", ".0", ".5", ".25", ".125", ".1", ".2", ".3", ".7", ".9", ".001", ".999", ".000001", ".999999", ".123456", ".333333", ".29", ".57", ".58",
	}
	writers := []struct {
		name string
		f    func(s string) string
	}{
		{"plain", func(s string) string { return s }},
		{"exponent", func(s string) string { return s + "e0" }},
		{"shifted", func(s string) string {
			r := ratOf(s)
			r.Quo(r, big.NewRat(1000, 1))
			return r.FloatString(9) + "E+3"
		}},
	}
	registry["C25"] = func(x *X) {
		x.Explore(
			"timestamps", 0, func(c *C) {
				i := Of(c, "seconds", dates...)
				fr := Of(c, "fraction", fracs...)
				w := Of(c, "form", 0, 1, 2)
				c.Commit()
				plain := fmt.Sprint(i) + fr
				text := writers[w].f(plain)
				want := ratOf(plain)
				var u unixtime.Unixtime
				if err := json.Unmarshal([]byte(text), &u); err != nil {
					c.Fail("reading %s: %v", text, err)
					return
				}
				c.Step("read "+text, u.UnixMicro())
				if !closeTo(ratOfTime(u.Time), want) {
					c.Fail("reading %s gives %v, that is %s", text, u.Time, ratOfTime(u.Time).FloatString(9))
					return
				}
				b, err := json.Marshal(u)
				if err != nil {
					c.Fail("writing %v: %v", u, err)
					return
				}
				back := ratOf(string(b))
				if back == nil || !closeTo(back, want) {
					c.Fail("%s is written as %s", text, b)
					return
				}
				// in place of a member, by value and by pointer, in another location
				type doc struct {
					A unixtime.Unixtime  `json:"a"`
					B *unixtime.Unixtime `json:"b,omitempty"`
					C *unixtime.Unixtime `json:"c,omitempty"`
				}
				loc := unixtime.Unixtime{Time: u.In(time.FixedZone("x", 7*3600))}
				b, err = json.Marshal(doc{A: u, B: &loc})
				var d doc
				if err == nil {
					err = json.Unmarshal(b, &d)
				}
				if err != nil || d.B == nil || d.C != nil || !closeTo(ratOfTime(d.A.Time), want) || !closeTo(ratOfTime(d.B.Time), want) {
					c.Fail("%s in a document is written as %s and read as %+v (%v)", text, b, d, err)
					return
				}
				if fr == "" && !d.A.Equal(time.Unix(i, 0)) {
					c.Fail("%s in a document is read as %v", text, d.A)
					return
				}
				c.Outcome("timestamp kept")
			},
		)
		x.Explore(
			"durations", 0, func(c *C) {
				i := Of(c, "seconds", ints...)
				fr := Of(c, "fraction", fracs...)
				w := Of(c, "form", 0, 1, 2)
				neg := c.Choose(2, "negative") == 1
				c.Commit()
				plain := fmt.Sprint(i) + fr
				text := writers[w].f(plain)
				if neg {
					plain, text = "-"+plain, "-"+text
				}
				want := ratOf(plain)
				var d, y unixtime.DurationInSeconds
				if err := json.Unmarshal([]byte(text), &d); err != nil {
					c.Fail("reading %s: %v", text, err)
					return
				}
				c.Step("read "+text, d.Duration)
				if !closeTo(ratOfDur(d.Duration), want) {
					c.Fail("reading %s gives %v", text, d.Duration)
					return
				}
				if err := yaml.Unmarshal([]byte(text), &y); err != nil {
					c.Fail("reading %s from YAML: %v", text, err)
					return
				}
				if !closeTo(ratOfDur(y.Duration), want) {
					c.Fail("reading %s from YAML gives %v", text, y.Duration)
					return
				}
				f, _ := want.Float64()
				if n := unixtime.NewDurationInSeconds(f); !closeTo(ratOfDur(n.Duration), want) {
					c.Fail("a duration of %s s is made as %v", plain, n.Duration)
					return
				}
				type doc struct {
					A unixtime.DurationInSeconds  `json:"a" yaml:"a"`
					B *unixtime.DurationInSeconds `json:"b,omitempty" yaml:"b,omitempty"`
					C *unixtime.DurationInSeconds `json:"c,omitempty" yaml:"c,omitempty"`
				}
				for _, form := range []string{"JSON", "YAML"} {
					ms, us := json.Marshal, json.Unmarshal
					if form == "YAML" {
						ms, us = yaml.Marshal, yaml.Unmarshal
					}
					b, err := ms(doc{A: d, B: &y})
					var r doc
					if err == nil {
						err = us(b, &r)
					}
					if err != nil || r.B == nil || r.C != nil || !closeTo(ratOfDur(r.A.Duration), want) || !closeTo(ratOfDur(r.B.Duration), want) {
						c.Fail("%s s in %s is written as %s and read as %v %v (%v)", plain, form, b, r.A, r.B, err)
						return
					}
				}
				b, _ := json.Marshal(d)
				if r := ratOf(string(b)); r == nil || !closeTo(r, want) {
					c.Fail("%s s is written as %s", plain, b)
					return
				}
				c.Outcome("duration kept")
			},
		)
		x.Explore(
			"all small durations", 0, func(c *C) {
				k := c.Choose(Pick(x, 64, 640), "block")
				c.Commit()
				for i := k * 1000; i < (k+1)*1000; i++ {
					d := time.Duration(i) * time.Millisecond
					b, err := json.Marshal(unixtime.DurationInSeconds{Duration: d})
					var r, y unixtime.DurationInSeconds
					if err == nil {
						err = json.Unmarshal(b, &r)
					}
					if err == nil {
						err = yaml.Unmarshal(b, &y)
					}
					c.Step("round trip", i)
					if err != nil || !closeTo(ratOfDur(r.Duration), ratOfDur(d)) || !closeTo(ratOfDur(y.Duration), ratOfDur(d)) {
						c.Fail("%v is written as %s and read as %v, %v (%v)", d, b, r, y, err)
						return
					}
					t := unixtime.Unixtime{Time: time.Unix(1700000000, 0).Add(d)}
					b, err = json.Marshal(t)
					var u unixtime.Unixtime
					if err == nil {
						err = json.Unmarshal(b, &u)
					}
					if err != nil || !closeTo(ratOfTime(u.Time), ratOfTime(t.Time)) {
						c.Fail("%v is written as %s and read as %v (%v)", t, b, u, err)
						return
					}
				}
				c.Outcome("block kept")
			},
		)
		x.ExploreB(
			"validity", 0, func(c *C) {
				offs := []time.Duration{
					-200 * 365 * 24 * time.Hour, -24 * time.Hour, -time.Second, -time.Millisecond, time.Millisecond, time.Second, 24 * time.Hour,
					290 * 365 * 24 * time.Hour,
				}
				mk := func(label string) (*unixtime.Unixtime, int) {
					i := c.Choose(len(offs)+2, label)
					switch i {
					case len(offs):
						return nil, 0
					case len(offs) + 1:
						return &unixtime.Unixtime{}, 0
					}
					u := &unixtime.Unixtime{Time: time.Now().Add(offs[i])}
					if offs[i] < 0 {
						return u, -1
					}
					return u, 1
				}
				iat, i := mk("iat")
				exp, e := mk("exp")
				c.Commit()
				got := unixtime.VerifyTime(iat, exp) == nil
				want := i <= 0 && e >= 0
				c.Step("validity", i, e, got)
				if got != want {
					c.Fail("issued %v, expires %v, now %v: valid %v, should be %v", iat, exp, time.Now(), got, want)
					return
				}
				if iat != nil && i != 0 {
					if u := unixtime.Until(*iat); (u < 0) != (i < 0) {
						c.Fail("%v lasts %v", iat, u)
					}
				}
				if z, err := json.Marshal(unixtime.Unixtime{}); err != nil || string(z) != "0" {
					c.Fail("a time never set is written as %s, %v", z, err)
				}
				c.Outcome(fmt.Sprint("valid ", got))
			},
		)
	}
}

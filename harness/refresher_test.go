package zzverif

import (
	"encoding/json"
	"errors"
	"fmt"
	nethttp "net/http"
	"os"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/unixtime"
)

// C14: self-refreshing trust marks.

const (
	rfSub    = "https://l.example.org"
	rfIssuer = "https://x.example.org"
)

type gotMark struct {
	jwt string
	exp time.Time // zero: never
	at  time.Time
}

// rfWorld is the trust mark issuer and what it has done.
type rfWorld struct {
	c        *C
	mu       sync.Mutex
	n        int
	attempts []time.Time // requests to the issuer: when they were answered
	inflight int
	maxFly   int
	got      []gotMark
	own      bool
	life     time.Duration
	behave   func(n int) (kind string, latency time.Duration)
	ecFault  string
	bad      string
}

func rfMark(typ, mtype, sub, iss string, exp time.Time, n int) string {
	p := M{"iss": iss, "sub": sub, "trust_mark_type": mtype, "iat": time.Now().Add(-time.Second).Unix(), "n": n}
	if !exp.IsZero() {
		p["exp"] = float64(exp.UnixMilli()) / 1000
	}
	return string(signJWT("X", typ, p))
}

func (w *rfWorld) enter() {
	w.mu.Lock()
	w.inflight++
	w.maxFly = max(w.maxFly, w.inflight)
	w.mu.Unlock()
}

func (w *rfWorld) leave() {
	w.mu.Lock()
	w.inflight--
	w.attempts = append(w.attempts, time.Now())
	w.mu.Unlock()
}

func (w *rfWorld) install(n *Net) {
	f := newFed()
	ec := f.entity("X", M{"federation_entity": M{"federation_trust_mark_endpoint": rfIssuer + "/tm"}})
	ec.Exp = 1000 * time.Hour
	n.set(
		rfIssuer+"/.well-known/openid-federation", func(*nethttp.Request) *Resp {
			w.enter()
			defer w.leave()
			w.mu.Lock()
			fault := w.ecFault
			w.mu.Unlock()
			switch fault {
			case "missing":
				return notFound()
			case "network":
				return &Resp{Err: errors.New("no route")}
			case "no endpoint":
				s := *ec
				s.Exp = time.Since(t0) + 30*time.Second
				s.Md = M{"federation_entity": M{"organization_name": "x"}}
				return &Resp{Body: s.JWT()}
			case "no metadata":
				s := *ec
				s.Exp = time.Since(t0) + 30*time.Second
				s.Md = nil
				return &Resp{Body: s.JWT()}
			}
			return &Resp{Body: ec.JWT()}
		},
	)
	ep := func(iss string) func(r *nethttp.Request) *Resp {
		return func(r *nethttp.Request) *Resp {
			w.enter()
			defer w.leave()
			q := r.URL.Query()
			if q.Get("sub") != rfSub || q.Get("trust_mark_type") != tmType || r.Method != "GET" || (iss == rfSub) != w.own {
				w.bad = "wrong request: " + r.Method + " " + r.URL.String()
				return jsonResp(400, M{"error": "invalid_request"})
			}
			w.mu.Lock()
			w.n++
			k := w.n
			kind, lat := w.behave(k)
			w.mu.Unlock()
			if lat > 0 {
				time.Sleep(lat)
			}
			now := time.Now()
			exp := now.Add(w.life)
			if w.life == 0 {
				exp = time.Time{}
			}
			switch kind {
			case "good", "good without exp", "good but short":
				if kind == "good without exp" {
					exp = time.Time{}
				}
				if kind == "good but short" {
					exp = now.Add(90 * time.Second)
				}
				j := rfMark("trust-mark+jwt", tmType, rfSub, iss, exp, k)
				w.mu.Lock()
				w.got = append(w.got, gotMark{j, exp, now})
				w.mu.Unlock()
				return &Resp{CT: "application/trust-mark+jwt", Body: []byte(j)}
			case "error":
				return jsonResp(400, M{"error": "not_found", "error_description": "no such mark"})
			case "server error":
				return &Resp{Status: 500, CT: "text/html", Body: []byte("<html>oops</html>")}
			case "garbage":
				return &Resp{CT: "application/trust-mark+jwt", Body: []byte("garbage")}
			case "empty":
				return &Resp{CT: "application/trust-mark+jwt"}
			case "other type":
				return &Resp{CT: "application/trust-mark+jwt", Body: []byte(rfMark("trust-mark+jwt", tmOther, rfSub, iss, exp, k))}
			case "other subject":
				return &Resp{CT: "application/trust-mark+jwt", Body: []byte(rfMark("trust-mark+jwt", tmType, "https://y.example.org", iss, exp, k))}
			case "expired":
				return &Resp{CT: "application/trust-mark+jwt", Body: []byte(rfMark("trust-mark+jwt", tmType, rfSub, iss, now.Add(-time.Second), k))}
			case "long expired":
				return &Resp{CT: "application/trust-mark+jwt", Body: []byte(rfMark("trust-mark+jwt", tmType, rfSub, iss, now.Add(-100*time.Hour), k))}
			case "not a trust mark":
				return &Resp{CT: "application/trust-mark+jwt", Body: []byte(rfMark("entity-statement+jwt", tmType, rfSub, iss, exp, k))}
			case "network":
				return &Resp{Err: errors.New("connection reset")}
			case "hang":
				<-r.Context().Done()
				return &Resp{Err: r.Context().Err()}
			}
			panic(kind)
		}
	}
	n.set(rfIssuer+"/tm", ep(rfIssuer))
	n.set(rfSub+"/tm", ep(rfSub))
}

// current gives the valid mark obtained last at a time.
func (w *rfWorld) current(at time.Time) *gotMark {
	w.mu.Lock()
	defer w.mu.Unlock()
	var m *gotMark
	for i := range w.got {
		if !w.got[i].at.After(at) {
			m = &w.got[i]
		}
	}
	if m == nil || !m.exp.IsZero() && !at.Before(m.exp) {
		return nil
	}
	return m
}

func (w *rfWorld) lastAttempt() time.Time {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.attempts) == 0 {
		return time.Time{}
	}
	return w.attempts[len(w.attempts)-1]
}

func (w *rfWorld) count() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.attempts) + w.inflight
}

// rfEntity is the publishing entity with its other, static mark.
func rfEntity(c *C, w *rfWorld, cfg *oidfed.EntityConfigurationTrustMarkConfig) *oidfed.FederationEntity {
	signer := oidfed.NewEntityStatementSigner(edKey("L"), jwa.EdDSA())
	e, err := oidfed.NewFederationEntity(rfSub, nil, &oidfed.Metadata{}, signer, 3600, nil)
	if err != nil {
		c.Fail("NewFederationEntity: %v", err)
	}
	static := &oidfed.EntityConfigurationTrustMarkConfig{JWT: rfMark("trust-mark+jwt", tmOther, rfSub, rfIssuer, time.Time{}, 0)}
	for _, t := range []*oidfed.EntityConfigurationTrustMarkConfig{static, cfg} {
		if err = t.Verify(rfSub, rfSub+"/tm", oidfed.NewTrustMarkSigner(edKey("L"), jwa.EdDSA())); err != nil {
			c.Fail("Verify of a valid trust mark configuration: %v", err)
		}
	}
	e.TrustMarks = []*oidfed.EntityConfigurationTrustMarkConfig{cfg, static}
	return e
}

// published gives the mark of the type tested in a configuration published now.
func published(c *C, e *oidfed.FederationEntity) string {
	p := e.EntityConfigurationPayload()
	out, other := "", 0
	for _, i := range p.TrustMarks {
		switch i.TrustMarkType {
		case tmType:
			if out != "" {
				c.Fail("the mark is published twice")
			}
			out = i.TrustMarkJWT
			if out == "" {
				c.Fail("an empty mark is published")
			}
		case tmOther:
			other++
		default:
			c.Fail("a mark of type %q is published", i.TrustMarkType)
		}
	}
	if other != 1 {
		c.Fail("the entity's other trust mark is published %d times", other)
	}
	return out
}

var rfFaults = []string{
	"good", "error", "server error", "garbage", "empty", "other type", "other subject", "expired", "not a trust mark", "network",
	"hang", "good but short", "good without exp", "long expired",
}

func exploreRefreshHistories(x *X, depth, k int) {
	x.ExploreB(
		"histories", k, func(c *C) {
			mode := Of(c, "mode", "remote", "self-issued", "own endpoint", "jwt", "jwt refresh", "jwt refresh self-issued")
			w := &rfWorld{c: c, own: mode == "own endpoint"}
			w.life = Of(c, "lifetime", 2*time.Hour, 50*time.Minute, 0)
			minL := DevOf(c, "min lifetime", 0, 10*time.Minute)
			grace := DevOf(c, "grace", 0, 5*time.Minute)
			var steps []time.Duration
			for i := 0; i < depth; i++ {
				steps = append(steps, Of(c, "wait", 61*time.Second, time.Second, 20*time.Minute, 61*time.Minute, 119*time.Minute+55*time.Second))
			}
			c.Commit()
			newMemCache()
			n := newNet()
			w.behave = func(int) (string, time.Duration) {
				kind := DevOf(c, "endpoint", rfFaults...)
				return kind, 0
			}
			if mode == "remote" {
				w.ecFault = DevOf(c, "issuer's configuration", "", "missing", "network", "no endpoint", "no metadata")
			}
			w.install(n)
			cfg := &oidfed.EntityConfigurationTrustMarkConfig{
				TrustMarkType: tmType, MinLifetime: unixtime.DurationInSeconds{Duration: minL},
				RefreshGracePeriod: unixtime.DurationInSeconds{Duration: grace},
			}
			if minL == 0 {
				minL = 10 * time.Second
			}
			if grace == 0 {
				grace = time.Hour
			}
			refreshes := true
			self := strings.HasSuffix(mode, "self-issued")
			switch mode {
			case "remote":
				cfg.TrustMarkIssuer = rfIssuer
			case "own endpoint":
				cfg.TrustMarkIssuer = rfSub
			case "self-issued":
			default:
				refreshes = mode != "jwt"
				cfg.Refresh = refreshes
				exp := time.Now().Add(w.life)
				if w.life == 0 {
					exp = time.Time{}
				}
				j := rfMark("trust-mark+jwt", tmType, rfSub, rfIssuer, exp, 0)
				cfg.JWT, cfg.TrustMarkType = j, ""
				w.got = append(w.got, gotMark{j, exp, time.Now()})
			}
			if self {
				cfg.SelfIssued = true
				cfg.SelfIssuanceSpec = oidfed.TrustMarkSpec{Lifetime: unixtime.DurationInSeconds{Duration: w.life}, Ref: rfSub + "/ref"}
			}
			e := rfEntity(c, w, cfg)
			lastSelf := time.Time{} // time of the last self issuance
			for i, d := range steps {
				if i > 0 {
					time.Sleep(d)
				}
				if i == 1 {
					w.ecFault = ""
				}
				t := time.Now()
				before := w.current(t)
				left := time.Duration(1<<63 - 1)
				if before != nil && !before.exp.IsZero() {
					left = before.exp.Sub(t)
				}
				cnt, last := w.count(), w.lastAttempt()
				got := published(c, e)
				t2 := time.Now()
				at := fmt.Sprintf("publication %d (%v after the first)", i+1, t.Sub(t0))
				attempted := func() bool { return w.count() > cnt }
				if self && got != "" && (len(w.got) == 0 || got != w.got[len(w.got)-1].jwt) {
					// issued by the entity itself just now
					p, ok := verifyJWT([]byte(got), M{"keys": []any{jwkOf("L")}})
					if !ok {
						p, ok = verifyJWTNoKid(got, "L")
					}
					if !ok || p["sub"] != rfSub || p["iss"] != rfSub || p["trust_mark_type"] != tmType || p["ref"] != rfSub+"/ref" {
						c.Fail("%s: the self-issued mark is wrong: %s", at, jsonOf(p))
					}
					m := gotMark{jwt: got, at: t}
					if f, ok := p["exp"].(float64); ok {
						m.exp = time.UnixMilli(int64(f * 1000))
					}
					w.got = append(w.got, m)
					lastSelf = t
					last = t
					if before != nil && left > minL {
						// an asynchronous refresh cannot be seen so early, except that it had been started before
						m.at = t
					}
				}
				want := w.current(t2)
				switch {
				case want == nil && got != "":
					c.Fail("%s publishes %s, which is not a mark that is valid now", at, jsonOf(payloadOf([]byte(got))))
				case want != nil && got == "":
					c.Fail("%s leaves out the valid mark %s", at, jsonOf(payloadOf([]byte(want.jwt))))
				case want != nil && got != want.jwt && (before == nil || got != before.jwt || !t2.Before(expOr(before.exp))):
					c.Fail("%s publishes %s instead of %s", at, jsonOf(payloadOf([]byte(got))), jsonOf(payloadOf([]byte(want.jwt))))
				}
				need := refreshes && (before == nil || left <= minL)
				if need && !self && t.Sub(last) > time.Minute && !attempted() {
					c.Fail("%s: the mark has %v left, but is not refreshed (last attempt %v ago)", at, left, t.Sub(last))
				}
				if self && need && t.Sub(lastSelf) > time.Minute && (before == nil || got == before.jwt) {
					c.Fail("%s: the self-issued mark has %v left, but is not renewed", at, left)
				}
				synctest.Wait()
				time.Sleep(time.Microsecond)
				synctest.Wait()
				if self && refreshes && !need && left < grace && t.Sub(lastSelf) > time.Minute {
					// renewed in the background: the next publication has to show it
					time.Sleep(time.Millisecond)
					g2 := published(c, e)
					if before != nil && g2 == before.jwt && t.Sub(before.at) > time.Minute {
						c.Fail("%s: the self-issued mark has %v left, but is not renewed", at, left)
					}
					if g2 != before.jwt {
						p, ok := verifyJWTNoKid(g2, "L")
						if !ok || p["sub"] != rfSub || p["trust_mark_type"] != tmType {
							c.Fail("%s: the renewed mark is wrong: %s", at, jsonOf(p))
						}
						m := gotMark{jwt: g2, at: t}
						if f, ok := p["exp"].(float64); ok {
							m.exp = time.UnixMilli(int64(f * 1000))
						}
						w.got = append(w.got, m)
						lastSelf = t
					}
				}
				if !self && refreshes && !need && left < grace && t.Sub(last) > time.Minute && !attempted() {
					c.Fail("%s: the mark has %v left, but is not refreshed in the background (last attempt %v ago)", at, left, t.Sub(last))
				}
				// let what runs in the background come to its end
				for j := 0; j < 200 && w.flying(); j++ {
					time.Sleep(time.Second)
					synctest.Wait()
				}
				if w.maxFly > 1 {
					c.Fail("%s: %d refreshes at a time", at, w.maxFly)
				}
				if w.bad != "" {
					c.Fail("%s: %s", at, w.bad)
				}
				state := "none"
				if want != nil {
					state = expOr(want.exp).Sub(t2).String()
				}
				c.Step(at, mode, w.life, minL, grace, state, t2.Sub(last) > time.Minute, got != "")
			}
			time.Sleep(200 * time.Second)
			synctest.Wait()
		},
	)
}

func (w *rfWorld) flying() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.inflight > 0
}

func expOr(t time.Time) time.Time {
	if t.IsZero() {
		return time.Now().Add(100000 * time.Hour)
	}
	return t
}

// verifyJWTNoKid verifies with the named Ed25519 key, whatever the kid.
func verifyJWTNoKid(jwt, key string) (M, bool) {
	parts := strings.Split(jwt, ".")
	if len(parts) != 3 {
		return nil, false
	}
	var h M
	if json.Unmarshal(unb64(parts[0]), &h) != nil {
		return nil, false
	}
	k := jwkOf(key)
	delete(k, "kid")
	if !joseVerify(k, "EdDSA", parts[0]+"."+parts[1], unb64(parts[2])) {
		return nil, false
	}
	return payloadOf([]byte(jwt)), true
}

// exploreRefreshSchedules runs concurrent publications under all schedules.
func exploreRefreshSchedules(x *X, k int) {
	x.ExploreB(
		"schedules", k, func(c *C) {
			self := Of(c, "self-issued", false, true)
			state := Of(c, "mark", "none", "about to expire", "in grace period", "expired", "fresh")
			kind := "good"
			if !self {
				kind = Of(c, "endpoint", "good", "error", "other subject")
			}
			np := 2
			c.Shared()
			newMemCache()
			n := newNet()
			w := &rfWorld{c: c, life: 2 * time.Hour}
			w.behave = func(int) (string, time.Duration) { return "good", 0 }
			w.install(n)
			cfg := &oidfed.EntityConfigurationTrustMarkConfig{TrustMarkType: tmType}
			if self {
				cfg.SelfIssued = true
				cfg.SelfIssuanceSpec = oidfed.TrustMarkSpec{Lifetime: unixtime.DurationInSeconds{Duration: w.life}}
			} else {
				cfg.TrustMarkIssuer = rfIssuer
			}
			e := rfEntity(c, w, cfg)
			first := ""
			if state != "none" {
				if first = published(c, e); first == "" {
					c.Fail("the first publication has no mark")
				}
				switch state {
				case "about to expire":
					time.Sleep(2*time.Hour - 5*time.Second)
				case "in grace period":
					time.Sleep(90 * time.Minute)
				case "expired":
					time.Sleep(121 * time.Minute)
				case "fresh":
					time.Sleep(2 * time.Minute)
				}
			}
			w.behave = func(int) (string, time.Duration) { return kind, 0 }
			s := newSched(c, func(l string) bool {
				return strings.HasPrefix(l, "!trustmark_refresher.go") || strings.HasPrefix(l, "!net") || l == "!lock" || strings.HasPrefix(l, "!start") || strings.HasPrefix(l, "federation.go")
			})
			n.Gate = func(what string) { s.yield("!net " + what) }
			res := make([]string, np)
			var tasks []func()
			for i := 0; i < np; i++ {
				tasks = append(tasks, func() { res[i] = published(c, e) })
			}
			blocked := s.run(tasks...)
			s.release()
			n.Gate = nil
			if blocked != "" {
				c.Fail("publications never end: %s", blocked)
				return
			}
			if w.maxFly > 1 {
				c.Fail("%d refreshes at a time", w.maxFly)
			}
			last := published(c, e)
			okMark := func(j string) bool {
				if j == first && j != "" {
					return state != "expired"
				}
				if self {
					p, ok := verifyJWTNoKid(j, "L")
					return ok && p["sub"] == rfSub && p["trust_mark_type"] == tmType
				}
				m := w.current(time.Now())
				return m != nil && m.jwt == j
			}
			valid := state == "fresh" || state == "in grace period" || state == "about to expire"
			for i, r := range append(append([]string{}, res...), last) {
				switch {
				case r == "" && (valid || kind == "good"):
					c.Fail("publication %d of %d concurrent ones and one afterwards leaves out the mark", i+1, np)
				case r != "" && !okMark(r):
					c.Fail("publication %d of %d concurrent ones and one afterwards has a mark that is wrong or expired: %s", i+1, np, jsonOf(payloadOf([]byte(r))))
				}
			}
			if kind == "good" && state != "fresh" && last == first {
				c.Fail("the mark is not refreshed")
			}
			if cnt := len(w.got); !self && cnt > 2 {
				c.Fail("%d marks are obtained by concurrent publications", cnt-1)
			}
			c.Outcome(fmt.Sprint(state, " ", kind, " ", res[0] != first, res[1] != first, last != first))
			c.State(self, state, kind, s.Switch, res[0] != first, res[1] != first)
			time.Sleep(200 * time.Second)
			synctest.Wait()
		},
	)
}

// exploreRefreshRaces runs publications freely for the race detector.
func exploreRefreshRaces(x *X) {
	x.ExploreB(
		"races", 0, func(c *C) {
			self := Of(c, "self-issued", false, true)
			kind := Of(c, "endpoint", "good", "error", "good but short", "other type")
			c.Commit()
			newMemCache()
			w := &rfWorld{c: c, life: 65 * time.Minute}
			w.behave = func(n int) (string, time.Duration) {
				if n == 1 {
					return "good", 0
				}
				return kind, time.Second
			}
			w.install(newNet())
			cfg := &oidfed.EntityConfigurationTrustMarkConfig{TrustMarkType: tmType, TrustMarkIssuer: rfIssuer}
			if self {
				cfg.SelfIssued = true
				cfg.SelfIssuanceSpec = oidfed.TrustMarkSpec{Lifetime: unixtime.DurationInSeconds{Duration: w.life}}
			}
			e := rfEntity(c, w, cfg)
			for r := 0; r < 12; r++ {
				var wg sync.WaitGroup
				for i := 0; i < 6; i++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						_ = published(c, e)
						_, _ = e.EntityConfigurationJWT()
					}()
				}
				wg.Wait()
				c.Step("round")
				time.Sleep(7*time.Minute + time.Second)
			}
			time.Sleep(200 * time.Second)
			synctest.Wait()
		},
	)
}

// exploreMarkConfigurations: what is configured is refused, or published only as far as it is right.
func exploreMarkConfigurations(x *X) {
	x.ExploreB(
		"configurations", 0, func(c *C) {
			jwt := Of(c, "mark", "good", "none", "other subject", "subject in another case", "no subject", "no type", "garbage", "other kind", "expired", "expires soon", "no issuer")
			typ := Of(c, "type", "", tmType, tmOther)
			iss := Of(c, "issuer", "", rfIssuer, rfSub)
			refresh := Of(c, "refresh", false, true)
			self := Of(c, "self-issued", false, true)
			answer := Of(c, "endpoint", "good", "error", "other subject")
			c.Commit()
			newMemCache()
			w := &rfWorld{c: c, own: iss == rfSub && jwt == "none", life: 2 * time.Hour}
			w.behave = func(int) (string, time.Duration) { return answer, 0 }
			w.install(newNet())
			exp := time.Now().Add(5 * time.Hour)
			kind, mtype, sub, by := "trust-mark+jwt", tmType, rfSub, rfIssuer
			switch jwt {
			case "other subject":
				sub = "https://y.example.org"
			case "subject in another case":
				sub = strings.ToUpper(rfSub)
			case "no subject":
				sub = ""
			case "no type":
				mtype = ""
			case "other kind":
				kind = "entity-statement+jwt"
			case "expired":
				exp = time.Now().Add(-time.Hour)
			case "expires soon":
				exp = time.Now().Add(10 * time.Minute)
			case "no issuer":
				by = ""
			}
			cfg := &oidfed.EntityConfigurationTrustMarkConfig{TrustMarkType: typ, TrustMarkIssuer: iss, Refresh: refresh, SelfIssued: self}
			cfg.JWT = rfMark(kind, mtype, sub, by, exp, 0)
			if jwt == "none" {
				cfg.JWT = ""
			} else if jwt == "garbage" {
				cfg.JWT = "garbage"
			}
			if self {
				cfg.SelfIssuanceSpec = oidfed.TrustMarkSpec{Lifetime: unixtime.NewDurationInSeconds(7200)}
			}
			signer := oidfed.NewEntityStatementSigner(edKey("L"), jwa.EdDSA())
			e, err := oidfed.NewFederationEntity(rfSub, nil, &oidfed.Metadata{}, signer, 3600, nil)
			if err != nil {
				c.Fail("NewFederationEntity: %v", err)
			}
			what := strings.Join(c.labels, " ")
			err = cfg.Verify(rfSub, rfSub+"/tm", oidfed.NewTrustMarkSigner(edKey("L"), jwa.EdDSA()))
			good := jwt == "good" || jwt == "expires soon"
			if err != nil {
				if good || jwt == "none" && typ != "" && (self || iss != "") {
					c.Fail("%s: refused: %v", what, err)
				}
				c.Outcome("refused")
				return
			}
			e.TrustMarks = []*oidfed.EntityConfigurationTrustMarkConfig{cfg}
			for round, wait := range []time.Duration{0, time.Minute + time.Second, 9 * time.Minute, 6 * time.Hour} {
				time.Sleep(wait)
				c.Step("publish", c.labels, round)
				ms := e.EntityConfigurationPayload().TrustMarks
				if len(ms) > 1 || (good && round == 0 && len(ms) == 0) {
					c.Fail("%s: publication %d has %d marks", what, round, len(ms))
					return
				}
				for _, m := range ms {
					p := payloadOf([]byte(m.TrustMarkJWT))
					ex, limited := p["exp"].(float64)
					switch {
					case p["trust_mark_type"] != m.TrustMarkType, p["sub"] != rfSub, typOf([]byte(m.TrustMarkJWT)) != "trust-mark+jwt":
						c.Fail("%s: publication %d has %s under type %q", what, round, jsonOf(p), m.TrustMarkType)
						return
					case limited && ex <= float64(time.Now().UnixNano())/1e9:
						c.Fail("%s: publication %d has an expired mark", what, round)
						return
					case jwt == "none" && m.TrustMarkType != typ:
						c.Fail("%s: publication %d is of type %q", what, round, m.TrustMarkType)
						return
					}
				}
				c.Outcome(fmt.Sprint(len(ms), " marks"))
			}
			// a refresh under way
			time.Sleep(time.Minute)
			synctest.Wait()
		},
	)
}

func init() {
	registry["C14"] = func(x *X) {
		switch os.Getenv("ZZ_MODE") {
		case "sched":
			exploreMarkConfigurations(x)
			exploreRefreshHistories(x, Pick(x, 4, 5), Pick(x, 1, 2))
			exploreRefreshSchedules(x, Pick(x, 2, 3))
		case "race":
			exploreRefreshRaces(x)
		}
	}
}

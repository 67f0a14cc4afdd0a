package main

import (
	"fmt"
	"html"
	"net/http"
	"strconv"
	"strings"

	"github.com/chronos-tachyon/morehttp/response"
)

// pagesKept makes many pages, on one goroutine or several, keeps all of them
// and only then looks at them.
func (r *Run) pagesKept(kind string, n int) {
	r.Cases(kind, n, func(rng *randT, idx int) {
		type page struct {
			x    *response.Response
			code int
			loc  string
			e    error
		}
		const probe = "zqPROBEqz"
		gs := pick(rng, 1, 1, 2, 4, 8)
		per := 2 + rng.IntN(12)
		kept := make([][]page, gs)
		seeds := make([]uint64, gs)
		for i := range seeds {
			seeds[i] = rng.Uint64()
		}
		probs := par(gs, func(g int) {
			lr := newRand(seeds[g])
			shared := response.NewBuilder()
			for k := 0; k < per; k++ {
				b := shared
				if lr.IntN(2) == 0 {
					b = dirtyBuilder(lr)
				}
				p := page{}
				if lr.IntN(2) == 0 {
					p.code, p.loc = 300+lr.IntN(100), fmt.Sprintf("/%d/%d/<&\"%s", g, k, strings.Repeat("x", pick(lr, 0, 1, 10, 300, 5000)))
					b.RedirectPage(p.code, p.loc)
				} else {
					p.code, p.e = 200+lr.IntN(800), fmt.Errorf("MARK %d %d", g, k)
					b.ErrorPage(p.code, p.e)
				}
				switch lr.IntN(4) {
				case 0:
					b.WithHeader("Cache-Control", fmt.Sprintf("x-%d-%d", g, k), true)
				case 1:
					b.WithHeader("Content-Type", "text/x-other", false)
				case 2:
					b.Headers()["Content-Length"][0] = "77"
					b.WithoutHeader("Content-Length")
				}
				p.x = b.Build()
				kept[g] = append(kept[g], p)
			}
		})
		for _, m := range probs {
			if m != "" {
				r.Bad(kind, idx, "%s", m)
				return
			}
		}
		for g := range kept {
			for k, p := range kept[g] {
				raw, err := bodyBytes(p.x.Body())
				if err != nil {
					r.Bad(kind, idx, "page %d/%d: %v", g, k, err)
					return
				}
				bad := func(f string, a ...any) {
					r.Bad(kind, idx, "page %d of goroutine %d (%d each on %d, status %d, target %q): %s: %.200q", k, g, per, gs, p.code, p.loc, fmt.Sprintf(f, a...), raw)
				}
				ref := response.NewBuilder()
				if p.e == nil {
					ref.RedirectPage(p.code, probe)
				} else {
					ref.ErrorPage(p.code, http.ErrBodyNotAllowed)
				}
				y, want, err := buildPage(ref)
				if err != nil {
					r.Bad(kind, idx, "%v", err)
					return
				}
				w := strings.ReplaceAll(string(want), probe, html.EscapeString(p.loc))
				if got := string(raw); html.UnescapeString(got) != html.UnescapeString(w) || strings.Count(got, "<") != strings.Count(w, "<") {
					bad("the page is not what a page made alone is (%.200q)", w)
					return
				}
				if cl := p.x.Headers()["Content-Length"]; len(cl) != 1 || cl[0] != strconv.Itoa(len(raw)) {
					bad("Content-Length is %q", cl)
					return
				}
				if l := p.x.Headers()["Location"]; p.e == nil && (len(l) != 1 || l[0] != p.loc) || p.e != nil && len(l) != 0 {
					bad("Location is %q", l)
					return
				}
				if p.x.Status() != p.code || p.x.Err() != p.e {
					bad("status %d, error %v", p.x.Status(), p.x.Err())
					return
				}
				for _, v := range p.x.Headers()["Cache-Control"] {
					if strings.HasPrefix(v, "x-") && v != fmt.Sprintf("x-%d-%d", g, k) {
						bad("carries another page's header value %q", v)
						return
					}
				}
				p.x.Body().Close()
				y.Body().Close()
			}
		}
		step()
		r.Count("pages_kept", int64(gs*per))
		r.Eval(hash64(kind, idx), true)
	})
}

// defaultGenerator replaces the package's default generator for a while.
func (r *Run) defaultGenerator(kind string, n int) {
	r.Cases(kind, n, func(rng *randT, idx int) {
		old := response.DefaultPageGenerator
		defer func() { response.DefaultPageGenerator = old }()
		b := response.NewBuilder()
		own := &testGen{id: -1}
		hasOwn := rng.IntN(3) == 0
		if hasOwn {
			b.WithPageGenerator(own)
		}
		for round := 0; round < 2+rng.IntN(5); round++ {
			g := &testGen{id: 1 + rng.IntN(1000)}
			response.DefaultPageGenerator = g
			if rng.IntN(3) == 0 {
				c, err := b.Copy()
				if err != nil {
					r.Violate([]string{"R02"}, kind, idx, err.Error(), nil)
					return
				}
				b = c
			}
			var exp response.PageGenerator = g
			tg := g
			if hasOwn {
				exp, tg = own, own
			}
			if b.PageGenerator() != exp {
				r.Bad(kind, idx, "PageGenerator() is %v", b.PageGenerator())
				return
			}
			code, loc := 300+rng.IntN(100), "/"+strconv.Itoa(round)
			calls := len(tg.calls)
			var x *response.Response
			var raw []byte
			var err error
			want := fmt.Sprintf("gen%d redirect %d %s", tg.id, code, loc)
			isErr := rng.IntN(2) == 0
			if isErr {
				want = fmt.Sprintf("gen%d error %d", tg.id, code)
			}
			msg, _ := guard(func() {
				if isErr {
					b.ErrorPage(code, errInjRead)
				} else {
					b.RedirectPage(code, loc)
				}
				x, raw, err = buildPage(b)
			})
			if msg != "" || err != nil || string(raw) != want || len(tg.calls) != calls+1 {
				r.Bad(kind, idx, "round %d, own generator %v: page %q, wanted %q (%s %v)", round, hasOwn, raw, want, msg, err)
				return
			}
			x.Body().Close()
		}
		r.Count("default_generator_swaps", 1)
		r.Eval(hash64(kind, idx), true)
	})
}

func init() {
	also("R10", func(r *Run) {
		r.Rule("Also pages made in numbers, on up to eight goroutines, all kept before any is looked at; and pages made while the package's default generator is replaced.")
		r.pagesKept("kept", r.N(3000, 30000))
		r.defaultGenerator("default-generator", r.N(1000, 10000))
	})
}

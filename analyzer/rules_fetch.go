package main

import (
	"go/token"
	"go/types"
	"strings"
)

// fetch knows the request, the response and the body of one path through the
// default fetcher.
type fetch struct {
	c        *Ctx
	an       *An
	url, max *Term
	timeout  *Term
	timed    map[*Event]bool // requests with the timeout, when they were made
}

var doNames = map[string]bool{
	"net/http.Client.Do": true, "net/http.Client.Get": true, "net/http.Get": true, "net/http.Client.Head": true, "net/http.Head": true,
	"net/http.Client.Post": true, "net/http.Post": true, "net/http.Client.PostForm": true, "net/http.PostForm": true, "iface:net/http.RoundTripper.RoundTrip": true, "net/http.Transport.RoundTrip": true,
}

func newFetch(c *Ctx) *fetch {
	f := &fetch{c: c, timed: map[*Event]bool{}}
	args := []*Term{}
	hook := func(st *State, ev *Event) {
		if ev.kind == "call" && doNames[ev.name] && len(args) == 4 && f.isTimed(st, ev, args[3]) {
			f.timed[ev] = true
		}
	}
	f.an = c.analyse2(c.eng(), c.P.method(c.P.namedType("metadata/fetcher", "DefaultFetcher"), "DownloadFile"), func(st *State, as []*Term) {
		args = as
		st.assume(nonNil(as[0]), true)
	}, hook)
	f.url, f.max, f.timeout = f.an.arg(1), f.an.arg(2), f.an.arg(3)
	return f
}

// isTimed decides that a request is made with the timeout for all of it.
func (f *fetch) isTimed(st *State, ev *Event, timeout *Term) bool {
	if ev.name == "net/http.Client.Do" || ev.name == "net/http.Client.Get" {
		if cl := ev.args[0]; isFreshOp(cl.root()) && get(st, cl, "Timeout") == timeout {
			return true
		}
	}
	if ev.name == "net/http.Client.Do" {
		if mk := f.madeBy(st, ev.args[1]); mk != nil && mk.name == "net/http.NewRequestWithContext" {
			for _, ce := range callsOf(st, "context.WithTimeout") {
				if strip(ce.res[0]) == strip(mk.args[0]) && ce.args[1] == timeout {
					return true
				}
			}
		}
	}
	return false
}

// madeBy finds the call that made a request.
func (f *fetch) madeBy(st *State, req *Term) *Event {
	for _, ev := range callsOf(st, "net/http.NewRequest", "net/http.NewRequestWithContext") {
		if ev.res[0] == req {
			return ev
		}
	}
	return nil
}

// requests lists the requests made on a path.
func (f *fetch) requests(st *State) []*Event {
	var names []string
	for n := range doNames {
		names = append(names, n)
	}
	return callsOf(st, names...)
}

// rightRequest returns "" if a request is a plain one for the given address.
func (f *fetch) rightRequest(st *State, ev *Event) string {
	switch ev.name {
	case "net/http.Client.Get":
		if ev.args[1] == f.url {
			return ""
		}
		return "it is for another address"
	case "net/http.Client.Do":
		mk := f.madeBy(st, ev.args[1])
		if mk == nil {
			return "it is not known how it was made"
		}
		a := mk.args
		if mk.name == "net/http.NewRequestWithContext" {
			a = a[1:]
		}
		if m, ok := a[0].strVal(); !ok || m != "GET" && m != "" {
			return "its method is not GET"
		}
		if a[1] != f.url {
			return "it is for another address"
		}
		return ""
	}
	return "it is made by " + ev.name
}

// limited tells how many bytes a reader of the body gives at most.
func (f *fetch) limited(st *State, t, body *Term) *Term {
	t = strip(t)
	if t.op == "limited" && strip(t.args[0]) == body {
		return t.args[1]
	}
	if isFreshOp(t.root()) && t.typ != nil && strings.HasSuffix(typStr(derefType(t.typ)), "io.LimitedReader") && strip(get(st, t, "R")) == body {
		return get(st, t, "N")
	}
	return nil
}

func mentions(t, x *Term) bool {
	if t == nil {
		return false
	}
	if t == x {
		return true
	}
	for _, a := range t.args {
		if mentions(a, x) {
			return true
		}
	}
	return false
}

// reads lists the events that may read from the body, in order, and whether it
// is closed after the last of them.
func (f *fetch) reads(st *State, body *Term) (reads []*Event, closed bool) {
	for _, ev := range st.events() {
		if ev.kind != "call" {
			continue
		}
		touches := false
		for _, a := range ev.args {
			a = strip(a)
			touches = touches || mentions(a, body) || isFreshOp(a.root()) && a.typ != nil && f.limited(st, a, body) != nil
		}
		if !touches {
			continue
		}
		if (ev.name == "iface:io.ReadCloser.Close" || ev.name == "iface:io.Closer.Close") && strip(ev.args[0]) == body {
			closed = true
			continue
		}
		reads = append(reads, ev)
		closed = false
	}
	return reads, closed
}

// announced lists what is known of the length that the server announced: the
// numbers, and the errors of getting them.
func (f *fetch) announced(st *State, res *Term) (nums, errs []*Term) {
	nums = append(nums, get(st, res, "ContentLength"))
	hdr := get(st, res, "Header")
	for _, ev := range callsOf(st, "net/http.Header.Get") {
		if n, ok := ev.args[1].strVal(); !ok || !strings.EqualFold(n, "Content-Length") || ev.args[0] != hdr {
			continue
		}
		subterms(st, func(t *Term) {
			if t.op != "app" || !strings.HasPrefix(t.name, "strconv.") || t.args[0] != ev.res[0] {
				return
			}
			if len(t.args) == 3 && (t.args[1] != mkInt(10) || t.args[2] != mkInt(0) && t.args[2] != mkInt(64)) {
				return // not what the server announced
			}
			if !st.fails(eqT(ev.res[0], mkStr(""))) && !st.holds(ltT(mkInt(0), mkLen(ev.res[0]))) {
				return // it may have announced nothing
			}
			switch strings.TrimPrefix(t.name, "strconv.") {
			case "ParseInt:0", "ParseUint:0", "Atoi:0":
				nums = append(nums, t)
			case "ParseInt:1", "ParseUint:1", "Atoi:1":
				errs = append(errs, t)
			}
		})
	}
	return nums, errs
}

// eachPath calls f for the outcomes in which one request was answered.
func (f *fetch) eachPath(rule string, do func(r ares, pos token.Pos, st *State, req *Event)) {
	for _, r := range f.an.results() {
		if r.kind != "ret" {
			continue
		}
		pos := posOf(f.an, r.Outcome)
		reqs := f.requests(r.st)
		if r.ok {
			f.c.check(rule, len(reqs) == 1, pos, r.st, "data may be returned after %d requests", len(reqs))
		} else {
			f.c.check(rule, len(reqs) <= 1, pos, r.st, "%d requests may be made", len(reqs))
		}
		if len(reqs) == 0 {
			continue
		}
		req := reqs[len(reqs)-1]
		for _, failed := range []bool{true, false} {
			cond := isNilT(errOf(req))
			if failed {
				cond = not(cond)
			}
			if st := given(r.st, cond); st != nil {
				if failed {
					do(r, pos, st, nil)
				} else {
					do(r, pos, st, req)
				}
			}
		}
	}
}

func ruleC50(c *Ctx) {
	c.rule("bounded", "no more is read from the server than the limit and one byte, and through one limited reader only")
	c.rule("short", "data are returned only if all of them were read and they are not longer than the limit")
	c.rule("mismatch", "a body that is longer than the limit is reported as a length mismatch")
	c.rule("accepted", "a body within the limit is refused only if reading it fails or the server announced something else")
	f := newFetch(c)
	f.eachPath("bounded", func(r ares, pos token.Pos, st *State, req *Event) {
		if req == nil {
			c.check("short", !r.ok, pos, st, "data may be returned although the request failed")
			return
		}
		res := req.res[0]
		body := strip(get(st, res, "Body"))
		reads, _ := f.reads(st, body)
		c.check("bounded", len(reads) <= 1, pos, st, "the body may be read %d times", len(reads))
		var data, rerr, n *Term
		for _, ev := range reads {
			n = f.limited(st, ev.args[0], body)
			if !c.check("bounded", n != nil && (ev.name == "io.ReadAll" || ev.name == "io/ioutil.ReadAll"), ev.pos, st, "the body may be read without a limit, by %s", ev.name) {
				continue
			}
			c.check("bounded", st.holds(not(ltT(plus(f.max, 1), n))), ev.pos, st, "the body is read up to another limit: %s", cut(n.String(), 60))
			data, rerr = ev.res[0], ev.res[1]
		}
		switch {
		case r.ok:
			if c.check("short", data != nil && r.rets[0] == data, pos, st, "something else than what was read may be returned: %s", cut(r.rets[0].String(), 60)) && n != nil {
				c.check("short", st.holds(isNilT(rerr)), pos, st, "data may be returned although reading failed")
				c.check("short", st.holds(not(ltT(f.max, mkLen(data)))), pos, st, "the data returned may be longer than the limit")
				c.check("short", st.holds(ltT(mkLen(data), n)), pos, st, "the data returned may be cut off")
			}
		default:
			nums, errs := f.announced(st, res)
			over, why := false, false
			for _, x := range nums {
				over = over || st.holds(ltT(f.max, x))
			}
			if data != nil && given(st, isNilT(rerr)) != nil {
				over = over || st.holds(ltT(f.max, mkLen(data)))
			}
			if over {
				c.check("mismatch", errName(st, r.err) == "metadata.ErrDownloadLengthMismatch", pos, st, "a body that is too long is reported as %s", cut(r.err.String(), 80))
			}
			why = over || given(st, eqT(get(st, res, "StatusCode"), mkInt(200))) == nil
			for _, e := range errs {
				why = why || st.fails(isNilT(e))
			}
			why = why || rerr != nil && st.fails(isNilT(rerr))
			c.check("accepted", why, pos, st, "a body within the limit may be refused")
		}
	})
	c.need("bounded", 4)
	c.need("short", 3)
	c.need("mismatch", 1)
	c.need("accepted", 3)
}

func ruleC51(c *Ctx) {
	c.rule("request", "one plain request is made, for the given address and with the given timeout for all of it")
	c.rule("status", "data are returned only for status 200; any other is reported with it and the address")
	c.rule("errors", "errors of making, sending and reading the request are returned")
	c.rule("closed", "the body of every response is closed after it was read")
	f := newFetch(c)
	f.eachPath("request", func(r ares, pos token.Pos, st *State, req *Event) {
		if req == nil {
			for _, ev := range f.requests(st) {
				c.check("errors", !r.ok && passesOn(r.err, errOf(ev)), pos, st, "the error of the request is not returned: %s", cut(r.err.String(), 60))
			}
			return
		}
		why := f.rightRequest(st, req)
		c.check("request", why == "", req.pos, st, "the request: %s", why)
		c.check("request", f.timed[req], req.pos, st, "the request is made without the given timeout")
		res := req.res[0]
		body := strip(get(st, res, "Body"))
		reads, closed := f.reads(st, body)
		c.check("closed", closed, pos, st, "the body of the response may not be closed")
		code := get(st, res, "StatusCode")
		if s := given(st, not(eqT(code, mkInt(200)))); s != nil {
			ok := !r.ok && errName(s, r.err) == errHTTP
			if c.check("status", ok, pos, s, "a response with another status than 200 may give %s", resultText(r)) {
				v := strip(r.err)
				c.check("status", structFieldNamed(v, "StatusCode") == code && structFieldNamed(v, "URL") == f.url, pos, s, "another status or address is reported")
			}
		}
		if s := given(st, eqT(code, mkInt(200))); s != nil {
			c.check("status", r.ok || errName(s, r.err) != errHTTP, pos, s, "status 200 may be reported as an HTTP error")
		}
		for _, ev := range reads {
			e := errOf(ev)
			if e == nil || e.isNil() {
				continue
			}
			if s := given(st, not(isNilT(e))); s != nil {
				c.check("errors", !r.ok && passesOn(r.err, e), pos, s, "an error of reading the body is not returned")
			}
		}
	})
	// what fails before the request is sent is reported
	for _, r := range f.an.results() {
		if r.kind != "ret" {
			continue
		}
		for _, ev := range callsOf(r.st, "net/http.NewRequest", "net/http.NewRequestWithContext") {
			if s := given(r.st, not(isNilT(errOf(ev)))); s != nil {
				c.check("errors", !r.ok && passesOn(r.err, errOf(ev)), posOf(f.an, r.Outcome), s, "the error of making the request is not returned")
			}
		}
	}
	c.need("request", 4)
	c.need("status", 4)
	c.need("errors", 3)
	c.need("closed", 2)
}

func resultText(r ares) string {
	if r.ok {
		return "data"
	}
	return "another error"
}

// passesOn decides that err is e or says it.
func passesOn(err, e *Term) bool { return mentions(err, e) }

var _ types.Type

func init() {
	registry["C50"] = rule{ruleC50, "Path-sensitive abstract interpretation of DefaultFetcher.DownloadFile: which reads of the response body happen through which limit, and what returning paths entail about the length."}
	registry["C51"] = rule{ruleC51, "Path-sensitive abstract interpretation of DefaultFetcher.DownloadFile: the request and its timeout, what every path does with each status and error, and that the body is closed last."}
}

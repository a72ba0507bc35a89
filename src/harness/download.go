package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"strings"
	"syscall"
	"time"

	"github.com/hsiaosiyuan0/mole/util"
	simctx "github.com/hsiaosiyuan0/mole/zzsim/shim/context"
	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

func init() {
	scenarios["C12"] = &Scenario{run: runC12,
		real: []string{"util.Download", "net/http client (request building, redirects)", "io.Copy"},
		stub: []string{"http.DefaultTransport (simulated server and network)", "file system (in memory, with faults)", "goroutine scheduler", "clock"},
		rule: "A run performs one to three downloads against a simulated server: random status codes and redirects, bodies of random size delivered in random chunks with delays, connections refused, reset or cut short, destinations that exist, are directories or are missing their parent, and create/write/close errors. Success is compared with what the server sent. Non-trivial: a fault or an error status occurred, or two downloads interleaved."}
	http.DefaultTransport = &simNet{}
}

// simNet is the network as seen by net/http.
type simNet struct{}

type simURL struct {
	status int
	body   []byte
	length bool // announces Content-Length
	to     string
	refuse bool
	cut    int // -1: whole body, else cut after this many bytes
	bad    int // only that many attempts fail (0: all of them)
	tries  int
	reset  bool
	chunk  int
	delay  int
	stalls int // pauses of the server
	empty  bool
	opened int
	closed int
}

var netTable map[string]*simURL

type simBody struct {
	u      *simURL
	pos    int
	cut    int
	closed bool
	stalls int
	until  func() error // why the request was given up, if it was
}

// given tells whether the requester has given up by now. Its own deadline is on the real
// clock (net/http is real code); what counts is the time it grants.
func given(q *http.Request) func() error {
	start, grant := sim.Now(), time.Duration(-1)
	if at, ok := q.Context().Deadline(); ok {
		step := 100 * time.Millisecond
		if grant = time.Until(at); grant > time.Second {
			step = time.Second
		}
		grant = (grant + step - 1) / step * step
	}
	c, _ := q.Context().Value(sim.CtxKey).(simctx.Context)
	return func() error {
		if grant >= 0 && sim.Now()-start > int64(grant) {
			return context.DeadlineExceeded
		}
		if c != nil {
			return c.Err()
		}
		return nil
	}
}

func (*simNet) RoundTrip(q *http.Request) (*http.Response, error) {
	r := sim.R
	if r == nil || !sim.InSim() {
		return nil, fmt.Errorf("simulated network used outside a simulation")
	}
	sim.Y(0)
	if q.Body != nil {
		q.Body.Close()
	}
	u := netTable[q.URL.String()]
	status, cut := 0, -1
	if u != nil {
		u.tries++
		if status, cut = u.status, u.cut; u.bad > 0 && u.tries > u.bad {
			status, cut = 200, -1 // the trouble is over
		}
	}
	if u == nil || u.refuse && (u.bad == 0 || u.tries <= u.bad) {
		r.Fired(sim.FNetRefused)
		return nil, syscall.ECONNREFUSED
	}
	if u.delay > 0 {
		r.Fired(sim.FNetDelay)
		sim.Sleep(int64(u.delay) * 1e7)
	}
	until := given(q)
	if u.stalls > 2 {
		r.Fired(sim.FNetDelay)
		sim.Sleep(int64(1+r.Choose(sim.SF, 200)) * 1e9)
	}
	if err := until(); err != nil {
		return nil, err
	}
	u.opened++
	h := http.Header{}
	if u.to != "" {
		h.Set("Location", u.to)
	}
	n := int64(-1)
	if u.length {
		n = int64(len(u.body))
	}
	if status < 200 || status > 299 {
		if u.to == "" {
			r.Fired(sim.FNetStatus)
		}
	}
	return &http.Response{Status: fmt.Sprintf("%d %s", status, http.StatusText(status)), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: &simBody{u: u, cut: cut, stalls: u.stalls, until: until}, ContentLength: n, Request: q}, nil
}

func (b *simBody) Read(p []byte) (int, error) {
	if b.closed {
		return 0, http.ErrBodyReadAfterClose
	}
	if len(p) == 0 {
		return 0, nil
	}
	r := sim.R
	sim.Y(0)
	u := b.u
	if u.delay > 1 && r.Chance(sim.SF, 1, 3) {
		r.Fired(sim.FNetDelay)
		sim.Sleep(int64(u.delay) * 1e6)
	}
	if b.stalls > 0 && r.Chance(sim.SF, 1, 3) {
		b.stalls--
		r.Fired(sim.FNetDelay)
		sim.Sleep(int64(1+r.Choose(sim.SF, 400)) * 1e9)
	}
	if err := b.until(); err != nil {
		return 0, err
	}
	if u.empty && r.Chance(sim.SF, 1, 4) {
		return 0, nil
	}
	end := len(u.body)
	if b.cut >= 0 && b.cut < end {
		end = b.cut
	}
	if b.pos >= end {
		if end < len(u.body) {
			if u.reset {
				r.Fired(sim.FNetReset)
				return 0, syscall.ECONNRESET
			}
			r.Fired(sim.FNetShort)
			return 0, io.ErrUnexpectedEOF
		}
		return 0, io.EOF
	}
	m := end - b.pos
	if m > len(p) {
		m = len(p)
	}
	if u.chunk > 0 && m > u.chunk {
		m = u.chunk
	}
	for i := 0; i < m; i++ {
		p[i] = u.body[b.pos+i]
	}
	b.pos += m
	if b.pos == len(u.body) && u.chunk%2 == 1 {
		return m, io.EOF // data and EOF together
	}
	return m, nil
}

func (b *simBody) Close() error {
	if !b.closed {
		b.closed = true
		b.u.closed++
	}
	return nil
}

func runC12(r *sim.Run, v *V) {
	f := sim.NewFS()
	f.PutDir("/d")
	netTable = map[string]*simURL{}
	n := 1
	if r.Choose(sim.SW, 4) == 3 {
		n = 2 + r.Choose(sim.SW, 2)
	}
	type dl struct {
		url, dist string
		u         *simURL
		faulty    bool
		err       error
		done      bool
		noDest    bool
	}
	dls := make([]*dl, n)
	var desc []string
	for i := range dls {
		u := &simURL{status: 200, body: genData(r), length: r.Choose(sim.SW, 2) == 0, cut: -1, chunk: []int{0, 1, 7, 100, 512, 4096, 33000}[r.Choose(sim.SW, 7)], delay: r.Choose(sim.SW, 3)}
		if len(u.body) > 6000 && u.chunk > 0 && u.chunk < 100 {
			u.chunk = 1000 + u.chunk
		}
		d := &dl{url: fmt.Sprintf("http://host%d/file", i), u: u, dist: fmt.Sprintf("/d/out%d", i)}
		netTable[d.url] = u
		if r.Choose(sim.SW, 6) == 5 {
			u.stalls = 1 + r.Choose(sim.SW, 5)
		}
		u.empty = r.Choose(sim.SW, 8) == 7
		switch r.Choose(sim.SW, 8) {
		case 1:
			u.status = []int{404, 500, 403, 503, 301, 304, 400, 429, 199, 300, 302}[r.Choose(sim.SF, 11)]
			d.faulty = true
		case 2:
			u.refuse = true
			d.faulty = true
		case 3, 4:
			if len(u.body) > 0 {
				u.cut = r.Choose(sim.SF, len(u.body))
				u.reset = r.Choose(sim.SF, 2) == 0
				d.faulty = true
			}
		case 5:
			u.status = []int{201, 202, 203, 204, 205, 206, 226, 299}[r.Choose(sim.SW, 8)]
			if u.status == 204 || u.status == 205 {
				u.body = nil
			}
		case 6:
			// a redirect to the real thing
			to := fmt.Sprintf("http://host%d/moved", i)
			netTable[d.url] = &simURL{status: []int{301, 302, 303, 307, 308}[r.Choose(sim.SW, 5)], to: to, body: []byte("moved"), cut: -1, length: true}
			netTable[to] = u
			if r.Choose(sim.SF, 3) == 2 {
				u.status = 404
				d.faulty = true
			}
		}
		if d.faulty && r.Choose(sim.SF, 3) == 2 {
			u.bad = 1 + r.Choose(sim.SF, 2)
		}
		switch r.Choose(sim.SW, 6) {
		case 1: // longer file already there
			f.PutFile(d.dist, bytes.Repeat([]byte("old"), 30000))
		case 2:
			f.PutFile(d.dist, []byte("x"))
		case 3:
			if r.Choose(sim.SF, 2) == 0 {
				f.PutDir(d.dist)
			} else {
				d.dist = "/missing/out"
			}
			d.faulty = true
			d.noDest = true
		}
		dls[i] = d
		desc = append(desc, fmt.Sprintf("%s -> %s: status %d, %d bytes, length announced %v, cut %d reset %v refused %v", d.url, d.dist, u.status, len(u.body), u.length, u.cut, u.reset, u.refuse))
	}
	ioOK := n == 1 && r.Choose(sim.SW, 3) == 2
	if ioOK {
		ioFaults(r, f, sim.FWriteErr, sim.FNoSpace, sim.FCloseErr, sim.FOpenErr)
	}
	open := 0
	w := sim.Start(sim.Config{Limit: 400000, FS: f}, func() {
		if n == 1 {
			dls[0].err = util.Download(dls[0].url, dls[0].dist)
			dls[0].done = true
		} else {
			var ts []*sim.Task
			for _, d := range dls {
				d := d
				ts = append(ts, sim.Go("download", func() { d.err = util.Download(d.url, d.dist); d.done = true }))
			}
			for _, t := range ts {
				t.Join()
			}
		}
		open = f.OpenCount()
	})
	v.outcome = w.Outcome.String()
	for i, d := range dls {
		v.H("%s => %v", desc[i], d.err)
		r.NoteString(fmt.Sprint(d.err))
		v.nt = v.nt || d.faulty
	}
	v.nt = v.nt || n > 1 || hardFaults(r) > 0
	noteTree(r, f)
	v.sample = strings.Join(v.hist.All(), "; ")
	if w.Outcome == sim.Panicked {
		v.Fail("panic", "Download panicked: %s\n%s", w.PanicVal, stackOf(w.Stack))
		return
	}
	if w.Outcome != sim.Completed {
		v.Fail("hang", "Download never returned (%s)", w.Outcome)
		return
	}
	for i, d := range dls {
		if d.err == nil {
			// whoever tries again until it works may say so
			again := d.u.bad > 0 && d.u.tries > d.u.bad && !d.noDest
			if !again && (d.u.status < 200 || d.u.status > 299 || d.u.refuse) {
				v.Fail("error-accepted", "Download reported success: %s", desc[i])
				return
			}
			if d.faulty && !again {
				v.Fail("fault-swallowed", "Download reported success although it was cut or had no destination: %s", desc[i])
				return
			}
			if k := hardFaults(r); k > 0 {
				v.Fail("fault-swallowed", "Download reported success although %d file operation(s) failed: %s", k, desc[i])
				return
			}
			nd := f.Lookup(d.dist)
			if nd == nil || nd.Dir || !bytes.Equal(nd.Content(), d.u.body) {
				sz := -1
				if nd != nil {
					sz = nd.Size
				}
				v.Fail("wrong-content", "Download reported success but the file (%d bytes) is not what was sent: %s", sz, desc[i])
				return
			}
		} else if !d.faulty && hardFaults(r) == 0 {
			v.Fail("spurious-error", "Download failed with %v although nothing went wrong: %s", d.err, desc[i])
			return
		}
	}
	for _, k := range sortedKeys(netTable) {
		u := netTable[k]
		if u.opened != u.closed {
			v.Fail("body-left-open", "the response body of %s was not closed: %s", k, strings.Join(desc, "; "))
			return
		}
	}
	if open != 0 {
		v.Fail("file-left-open", "%d files are still open after Download returned: %s", open, strings.Join(desc, "; "))
	}
}

package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"bondsim/prog"
	"bondsim/simfs"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/inspect"
	"github.com/urfave/cli/v2"
)

// The inspection interface, called locally and through the real handler, HTTP
// server and client over a simulated network.

func tabName(sp *prog.Table) string { return fmt.Sprintf("tab%d", sp.ID) }

func idxName(ix int) string {
	if ix == 0 {
		return bond.PrimaryIndexName
	}
	return fmt.Sprintf("idx%d", ix)
}

// netState is the network of one client.
type netState struct {
	fault string // none: ""
	n     int
	seed  uint64
	conns []*pipe
	hit   bool // the fault changed something
}

func (s *netState) rnd(n int) int {
	s.seed = prog.Mix(s.seed, 1)
	return int(s.seed % uint64(n))
}

type remote struct {
	e       *Engine
	srv     *http.Server
	l       *listener
	local   inspect.Inspect
	clients map[int]inspect.Inspect
	nets    map[string]*netState
	active  int
}

type listener struct {
	ch   chan net.Conn
	done chan struct{}
}

func (l *listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

func (l *listener) Close() error {
	select {
	case <-l.done:
	default:
		close(l.done)
	}
	return nil
}
func (l *listener) Addr() net.Addr { return addr("sim") }

type addr string

func (a addr) Network() string { return "sim" }
func (a addr) String() string  { return string(a) + ":80" }

// half is one direction of a connection.
type half struct {
	mu   sync.Mutex
	buf  []byte
	err  error // after buf
	wake chan struct{}
}

func (h *half) notify() {
	close(h.wake)
	h.wake = make(chan struct{})
}

func (h *half) fail(err error, drop bool) {
	h.mu.Lock()
	if h.err == nil {
		h.err = err
		if drop {
			h.buf = nil
		}
		h.notify()
	}
	h.mu.Unlock()
}

// pipe is one end of a connection.
type pipe struct {
	st       *netState
	in, out  *half
	mu       sync.Mutex
	rdl      time.Time
	dead     bool // swallows everything from now on
	written  int
	isClient bool
	peer     *pipe
}

func (p *pipe) Read(b []byte) (int, error) {
	for {
		p.in.mu.Lock()
		if len(p.in.buf) > 0 {
			n := copy(b, p.in.buf)
			p.in.buf = p.in.buf[n:]
			p.in.mu.Unlock()
			return n, nil
		}
		err, w := p.in.err, p.in.wake
		p.in.mu.Unlock()
		if err != nil {
			return 0, err
		}
		p.mu.Lock()
		dl := p.rdl
		p.mu.Unlock()
		if !dl.IsZero() {
			d := time.Until(dl)
			if d <= 0 {
				return 0, os.ErrDeadlineExceeded
			}
			t := time.NewTimer(d)
			select {
			case <-w:
			case <-t.C:
			}
			t.Stop()
			continue
		}
		<-w
	}
}

func (p *pipe) Write(b []byte) (int, error) {
	st := p.st
	n := 0
	for n < len(b) {
		k := len(b) - n
		switch st.fault {
		case "delay":
			st.hit = true
			time.Sleep(time.Duration(st.rnd(200)) * time.Millisecond)
			k = 1 + st.rnd(k)
		case "split":
			k = 1 + st.rnd(k)
			if k > 50 && st.rnd(2) == 0 {
				k = 50
			}
		case "hole":
			if p.written >= st.n {
				p.dead = true
				st.hit = true
			}
		case "cutc", "cuts":
			if p.isClient == (st.fault == "cutc") && p.written+k > st.n {
				if k = st.n - p.written; k < 0 {
					k = 0
				}
				p.push(b[n : n+k])
				st.hit = true
				p.cut()
				return n + k, &net.OpError{Op: "write", Net: "sim", Err: syscall.EPIPE}
			}
		}
		if p.dead {
			return len(b), nil
		}
		if err := p.push(b[n : n+k]); err != nil {
			return n, err
		}
		n += k
	}
	return n, nil
}

func (p *pipe) push(b []byte) error {
	p.out.mu.Lock()
	defer p.out.mu.Unlock()
	if p.out.err != nil {
		return &net.OpError{Op: "write", Net: "sim", Err: syscall.EPIPE}
	}
	p.out.buf = append(p.out.buf, b...)
	p.written += len(b)
	p.out.notify()
	return nil
}

// cut breaks the connection: what was delivered is still read, half of the time.
func (p *pipe) cut() {
	drop := p.st.rnd(2) == 0
	rst := &net.OpError{Op: "read", Net: "sim", Err: syscall.ECONNRESET}
	p.out.fail(rst, drop)
	p.in.fail(rst, drop)
}

func (p *pipe) Close() error {
	p.out.fail(io.EOF, false)
	p.in.fail(net.ErrClosed, true)
	return nil
}
func (p *pipe) LocalAddr() net.Addr  { return addr("here") }
func (p *pipe) RemoteAddr() net.Addr { return addr("there") }
func (p *pipe) SetDeadline(t time.Time) error {
	return p.SetReadDeadline(t)
}
func (p *pipe) SetReadDeadline(t time.Time) error {
	p.mu.Lock()
	p.rdl = t
	p.mu.Unlock()
	p.in.mu.Lock()
	p.in.notify()
	p.in.mu.Unlock()
	return nil
}
func (p *pipe) SetWriteDeadline(t time.Time) error { return nil }

func (r *remote) dial(ctx context.Context, network, address string) (net.Conn, error) {
	st := r.nets[address]
	if st == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: syscall.EHOSTUNREACH}
	}
	switch st.fault {
	case "refuse":
		st.hit = true
		return nil, &net.OpError{Op: "dial", Net: network, Err: syscall.ECONNREFUSED}
	case "hang":
		st.hit = true
		<-ctx.Done()
		return nil, ctx.Err()
	}
	a, b := &half{wake: make(chan struct{})}, &half{wake: make(chan struct{})}
	c, s := &pipe{st: st, in: a, out: b, isClient: true}, &pipe{st: st, in: b, out: a}
	c.peer, s.peer = s, c
	st.conns = append(st.conns, c)
	select {
	case r.l.ch <- s:
		return c, nil
	case <-r.l.done:
		return nil, &net.OpError{Op: "dial", Net: network, Err: syscall.ECONNREFUSED}
	}
}

// serve starts the inspection server of the open database.
func (e *Engine) serve() *remote {
	e.serveMu.Lock()
	defer e.serveMu.Unlock()
	if e.remote != nil {
		return e.remote
	}
	var infos []bond.TableInfo
	for _, t := range e.tabs {
		if t.Spec().KV {
			continue
		}
		infos = append(infos, t.Info())
	}
	in, err := inspect.NewInspect(infos)
	if err != nil {
		failNow("inspect", "NewInspect failed: %v", err)
	}
	r := &remote{e: e, local: in, clients: map[int]inspect.Inspect{}, nets: map[string]*netState{}, l: &listener{ch: make(chan net.Conn, 8), done: make(chan struct{})}}
	e.remote = r
	h := inspect.NewInspectHandler(in)
	r.srv = &http.Server{ErrorLog: log.New(io.Discard, "", 0), Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		r.active++
		defer func() { r.active-- }()
		h(w, q)
	})}
	net.SimDial = r.dial
	go func() { _ = r.srv.Serve(r.l) }()
	return r
}

func (e *Engine) stopServe() {
	r := e.remote
	if r == nil {
		return
	}
	e.remote = nil
	// in an order of our own: the server closes its connections in the order of
	// their addresses in memory
	var hosts []string
	for h := range r.nets {
		hosts = append(hosts, h)
	}
	sort.Strings(hosts)
	for _, h := range hosts {
		for _, c := range r.nets[h].conns {
			_ = c.Close()
		}
	}
	time.Sleep(time.Second)
	_ = r.srv.Close()
	for i := 0; r.active > 0; i++ {
		if i > 600 {
			failNow("inspect-hang", "%d inspection requests still run long after their connections were closed", r.active)
		}
		time.Sleep(100 * time.Millisecond)
	}
	time.Sleep(time.Second)
}

// client of a task, with the network fault of the operation.
func (t *task) client(op *prog.Op) (inspect.Inspect, *netState) {
	r := t.e.serve()
	host := fmt.Sprintf("task%d:80", t.n)
	if r.nets[host] == nil {
		r.nets[host] = &netState{seed: t.e.p.Seed ^ uint64(t.n)}
		r.clients[t.n] = inspect.NewInspectRemote("http://"+host+"/inspect"+strings.Repeat("/", t.n%2), map[string]string{"X-Task": host})
	}
	st := r.nets[host]
	st.fault, st.n = op.Name, 0
	if i := strings.IndexByte(op.Name, ':'); i > 0 {
		st.fault = op.Name[:i]
		fmt.Sscan(op.Name[i+1:], &st.n)
	}
	for _, c := range st.conns {
		c.written = 0
		if c.peer != nil {
			c.peer.written = 0
		}
	}
	return r.clients[t.n], st
}

// inspected calls f locally or remotely; network faults may fail remote calls,
// which work again when the network does.
func (t *task) inspected(op *prog.Op, what string, f func(in inspect.Inspect) error) error {
	e := t.e
	if op.Mode&1 == 0 {
		in := e.serve().local
		if op.Mode&4 != 0 {
			in = &cliInspect{t: t, url: ".bond", local: in}
		}
		return f(in)
	}
	c, st := t.client(op)
	if op.Mode&4 != 0 {
		host := fmt.Sprintf("task%d:80", t.n)
		c = &cliInspect{t: t, url: "http://" + host + "/inspect", header: "X-Task=" + host}
	}
	st.hit = false
	err := f(c)
	hit := st.hit
	st.fault = ""
	if hit {
		e.st.Fired["net-"+strings.SplitN(op.Name, ":", 2)[0]]++
	}
	if err == nil || !hit {
		return err
	}
	e.alive()
	e.trace("task %d remote %s failed on a network fault (%s): %v", t.n, what, op.Name, err)
	if errors.Is(err, context.Canceled) {
		return err
	}
	// the network is well again: the first connection may be a broken one
	for i := 0; ; i++ {
		if err = f(c); err == nil || i > 2 || st.hit {
			return err
		}
		var oe *net.OpError
		if !errors.As(err, &oe) && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) && !strings.Contains(err.Error(), "server closed") {
			return err
		}
		if i == 2 {
			failNow("inspect-net", "remote %s still fails after the network recovered: %v", what, err)
		}
	}
}

var printer = os.NewFile(simfs.OutFd, "stdout")

// cliInspect calls the interface by the command line tool.
type cliInspect struct {
	t      *task
	url    string
	header string
	local  inspect.Inspect
}

func (c *cliInspect) run(v any, args ...string) error {
	e := c.t.e
	var open func(string) (inspect.Inspect, error)
	if c.local != nil {
		open = func(path string) (inspect.Inspect, error) {
			if path != c.url {
				failNow("inspect-cli", "the command line tool opens %q instead of %q", path, c.url)
			}
			return c.local, nil
		}
	}
	all := []string{"bond-cli", "inspect", "--url", c.url}
	if c.header != "" {
		all = append(all, "--headers", c.header)
	}
	all = append(all, args...)
	app := &cli.App{Name: "bond-cli", Compiled: time.Unix(1, 0), // asks the real file system otherwise
		Commands: []*cli.Command{inspect.NewInspectCLI(open)}, Writer: io.Discard, ErrWriter: io.Discard, ExitErrHandler: func(*cli.Context, error) {}}

	// one process, one standard output
	e.cliMu.Lock()
	defer e.cliMu.Unlock()
	was := os.Stdout
	os.Stdout = printer
	sys.Printed()
	err := app.Run(all)
	os.Stdout = was
	out := sys.Printed()
	e.res.OpKinds["inspect-cli"]++
	if err != nil {
		if len(out) > 0 {
			failNow("inspect-cli", "the command line tool failed with %v and printed %q", err, out)
		}
		return err
	}
	d := json.NewDecoder(bytes.NewReader(out))
	d.UseNumber()
	if err := d.Decode(v); err != nil || d.More() {
		failNow("inspect-cli", "the command line tool printed %q (%v)", out, err)
	}
	return nil
}

func (c *cliInspect) Tables() (l []string, err error) {
	err = c.run(&l, "tables")
	return
}

func (c *cliInspect) Indexes(table string) (l []string, err error) {
	err = c.run(&l, "indexes", "--table", table)
	return
}

func (c *cliInspect) EntryFields(table string) (m map[string]string, err error) {
	err = c.run(&m, "entry-fields", "--table", table)
	return
}

func (c *cliInspect) Query(ctx context.Context, table, index string, sel, filter map[string]interface{}, limit uint64, after map[string]interface{}) ([]map[string]interface{}, error) {
	args := []string{"query", "--table", table, "--limit", fmt.Sprint(limit)}
	if index != "" && index != bond.PrimaryIndexName {
		args = append(args, "--index", index)
	}
	for _, x := range []struct {
		n string
		m map[string]interface{}
	}{{"--index-selector", sel}, {"--filter", filter}, {"--after", after}} {
		if x.m != nil {
			b, err := json.Marshal(x.m)
			if err != nil {
				failNow("harness", "marshal %v: %v", x.m, err)
			}
			args = append(args, x.n, string(b))
		}
	}
	left := 1000 * time.Hour
	if d, ok := ctx.Deadline(); ok {
		left = time.Until(d)
	}
	args = append(args, "--deadline", left.String())
	var l []map[string]interface{}
	if err := c.run(&l, args...); err != nil {
		return nil, err
	}
	for _, m := range l {
		for k, v := range m {
			if n, ok := v.(json.Number); ok {
				if i, err := strconv.ParseInt(n.String(), 10, 64); err == nil {
					m[k] = i
				} else if u, err := strconv.ParseUint(n.String(), 10, 64); err == nil {
					m[k] = u
				} else {
					failNow("inspect-row", "field %s is the number %v", k, n)
				}
			}
		}
	}
	return l, nil
}

var entryFields = map[string]string{"ID": "uint64", "A": "uint32", "B": "uint64", "S": "string", "G": "int64", "P": "slice", "V": "uint64", "X": "string"}

func init() { extraOps["inspect"] = func(t *task, op *prog.Op) { t.inspect(op) } }

func (t *task) inspect(op *prog.Op) {
	e := t.e
	if !t.tabOK(op.T) {
		return
	}
	sp := &e.specs[op.T]
	ctx := context.Background()
	var got any
	var want any
	var err error
	wantErr := false
	start := e.begin()
	what := ""
	call := func(f func(in inspect.Inspect) error) { err = t.inspected(op, what, f) }
	switch op.N % 12 {
	case 0, 1:
		what = "Tables"
		var l []string
		call(func(in inspect.Inspect) (err error) { l, err = in.Tables(); return })
		var w []string
		for i := range e.specs {
			if !e.specs[i].KV {
				w = append(w, tabName(&e.specs[i]))
			}
		}
		sort.Strings(l)
		sort.Strings(w)
		got, want = l, w
	case 2, 3:
		what = "Indexes"
		var l []string
		call(func(in inspect.Inspect) (err error) { l, err = in.Indexes(tabName(sp)); return })
		w := []string{idxName(0)}
		for _, ix := range e.indexes[op.T] {
			w = append(w, idxName(ix))
		}
		sort.Strings(l)
		sort.Strings(w)
		got, want = l, w
	case 4, 5:
		what = "EntryFields"
		var m map[string]string
		call(func(in inspect.Inspect) (err error) { m, err = in.EntryFields(tabName(sp)); return })
		got, want = m, entryFields
	case 6:
		what, wantErr = "Indexes of an unknown table", true
		call(func(in inspect.Inspect) (err error) { _, err = in.Indexes("nosuch"); return })
	case 7:
		what, wantErr = "Query of an unknown index", true
		call(func(in inspect.Inspect) (err error) {
			_, err = in.Query(ctx, tabName(sp), "nosuch", nil, nil, 0, nil)
			return
		})
	case 8:
		what, wantErr = "Query after a row with an unknown field", true
		call(func(in inspect.Inspect) (err error) {
			_, err = in.Query(ctx, tabName(sp), "", nil, nil, 0, map[string]interface{}{"Nosuch": 1})
			return
		})
	case 9:
		what, wantErr = "Query after a row with a null field", true
		call(func(in inspect.Inspect) (err error) {
			_, err = in.Query(ctx, tabName(sp), "", nil, nil, 0, map[string]interface{}{"ID": nil})
			return
		})
	case 10:
		what = "Query for rows with a null field"
		var l []map[string]interface{}
		call(func(in inspect.Inspect) (err error) {
			l, err = in.Query(ctx, tabName(sp), "", nil, map[string]interface{}{"V": nil}, 0, nil)
			return
		})
		got, want = len(l), 0
	case 11:
		what, wantErr = "Query of an unknown table", true
		call(func(in inspect.Inspect) (err error) {
			_, err = in.Query(ctx, "nosuch", "", nil, nil, 0, nil)
			return
		})
	}
	_ = start
	e.ended()
	e.trace("task %d inspect mode %d %s -> %v %v", t.n, op.Mode, what, got, err)
	e.res.Checks++
	if wantErr {
		if err == nil {
			failNow("inspect", "%s succeeded", what)
		}
		return
	}
	if err != nil {
		if e.faulty {
			return
		}
		failNow("inspect", "%s failed: %v", what, err)
	}
	if !reflect.DeepEqual(got, want) {
		failNow("inspect", "%s returned %v, expected %v", what, got, want)
	}
}

// fields of a row as a query takes them: numbers in some type that can hold them.
func fields(r prog.Row, kind int) map[string]interface{} {
	m := map[string]interface{}{"ID": r.ID, "A": r.A, "B": r.B, "S": r.S, "G": r.G, "P": r.P, "V": r.V, "X": r.X}
	if kind&1 != 0 {
		// what is zero may be left out
		for k, v := range m {
			if reflect.ValueOf(v).IsZero() {
				delete(m, k)
			}
		}
	}
	if kind&2 != 0 {
		for k, v := range m {
			switch x := v.(type) {
			case uint64:
				if x < 1<<53 {
					m[k] = float64(x)
				}
			case uint32:
				m[k] = int(x)
			case int64:
				if x > -1<<53 && x < 1<<53 {
					m[k] = float64(x)
				}
			}
		}
	}
	return m
}

// rowOf reads a row back from what a query returned.
func rowOf(m map[string]interface{}) (r prog.Row, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("row %v: %v", m, x)
		}
	}()
	if len(m) != len(entryFields) {
		return r, fmt.Errorf("row %v has the wrong fields", m)
	}
	num := func(k string) (u uint64, i int64) {
		v, ok := m[k]
		if !ok {
			panic("no field " + k)
		}
		switch x := v.(type) {
		case float64:
			if x != float64(int64(x)) || x >= 1<<53 || x <= -1<<53 {
				panic(fmt.Sprintf("field %s is the inexact number %v", k, x))
			}
			return uint64(int64(x)), int64(x)
		default:
			w := reflect.ValueOf(v)
			if w.CanUint() {
				return w.Uint(), int64(w.Uint())
			}
			return uint64(w.Int()), w.Int()
		}
	}
	r.ID, _ = num("ID")
	a, _ := num("A")
	r.A = uint32(a)
	r.B, _ = num("B")
	_, r.G = num("G")
	r.V, _ = num("V")
	r.S = m["S"].(string)
	r.X = m["X"].(string)
	switch p := m["P"].(type) {
	case []byte:
		r.P = p
	case string:
		if r.P, err = base64.StdEncoding.DecodeString(p); err != nil {
			return r, err
		}
	case nil:
	default:
		return r, fmt.Errorf("field P is a %T", p)
	}
	return r, nil
}

// iquery runs a query through the inspection interface.
func (t *task) iquery(op *prog.Op, ctx *cctx, q *prog.Query, after *prog.Row) ([]prog.Row, error) {
	e := t.e
	sp := &e.specs[op.T]
	var sel, filter, aft map[string]interface{}
	if q.Idx != 0 {
		sel = fields(q.Sel.Rows[0], op.N)
	}
	if q.Filter != nil {
		filter = map[string]interface{}{}
		cs := []prog.Cond{*q.Filter}
		if q.Filter.Op == "and" {
			cs = q.Filter.Sub
		}
		for _, c := range cs {
			filter[c.Field] = c.Val
			if op.N&2 != 0 && c.Val < 1<<53 {
				filter[c.Field] = float64(c.Val)
			}
		}
	}
	if after != nil {
		aft = fields(*after, op.N)
	}
	ix := idxName(q.Idx)
	if q.Idx == 0 && op.N&4 != 0 {
		ix = ""
	}
	var rows []prog.Row
	err := t.inspected(op, "Query", func(in inspect.Inspect) error {
		var c context.Context = ctx
		if op.Mode&1 != 0 && (op.Name == "hang" || strings.HasPrefix(op.Name, "hole")) && !ctx.fired {
			cc, cancel := context.WithTimeout(ctx, 20*time.Second)
			defer cancel()
			c = cc
		}
		rows = nil
		ms, err := in.Query(c, tabName(sp), ix, sel, filter, q.Limit, aft)
		if err != nil {
			return err
		}
		for _, m := range ms {
			r, err := rowOf(m)
			if err != nil {
				failNow("inspect-row", "a query of table %d returned a bad row: %v", op.T, err)
			}
			rows = append(rows, r)
		}
		return nil
	})
	if err != nil && errors.Is(err, context.DeadlineExceeded) && op.Mode&1 != 0 {
		err = errNet
	}
	return rows, err
}

var errNet = errors.New("network fault")

// inspectable fits a query to what the inspection interface can say.
func inspectable(q *prog.Query, remote bool) *prog.Query {
	n := &prog.Query{Idx: q.Idx, Limit: q.Limit, After: q.After}
	if q.Idx != 0 {
		if q.Sel == nil || len(q.Sel.Rows) == 0 {
			return nil
		}
		if remote && prog.HasCol(q.Idx, "P") {
			return nil // byte strings in a selector do not survive JSON
		}
		n.Sel = &prog.Sel{Type: "point", Rows: q.Sel.Rows[:1]}
	}
	var eqs []prog.Cond
	seen := map[string]bool{}
	var walk func(c *prog.Cond)
	walk = func(c *prog.Cond) {
		for i := range c.Sub {
			walk(&c.Sub[i])
		}
		if len(c.Sub) == 0 && !seen[c.Field] {
			v := c.Val
			if c.Field == "A" {
				v = uint64(uint32(v))
			}
			seen[c.Field] = true
			eqs = append(eqs, prog.Cond{Op: "eq", Field: c.Field, Val: v})
		}
	}
	if q.Filter != nil {
		walk(q.Filter)
		n.Filter = &prog.Cond{Op: "and", Sub: eqs}
	}
	return n
}

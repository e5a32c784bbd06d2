package main

import (
	"context"
	"fmt"
	"io/fs"
	"strings"
	"time"
)

func init() {
	register(&Prop{
		ID:    "X03",
		Level: "fault_injection",
		Rule:  "Fails when after a command, successful, failed or cancelled, a transaction, statement, result set, connection in use, open file or goroutine of it remains, a database it was given is closed or has other session settings, or a database it opened is not closed.",
		Assumptions: []string{
			"Resources are counted at the database/sql driver boundary, in the fs.FS the files are read from and in /proc/self/fd.",
			"Session settings are not compared when the injected failure hit the statement that restores them.",
		},
		MinCounts: map[string]int64{"runs": 500, "failed_runs": 200, "cancelled_runs": 50, "given_db": 200, "opened_db": 200, "sessions": 100},
		Cases:     x03Cases,
	})
}

func x03Cases(tier string, seed int64) []Case {
	var out []Case
	reps := tierN(tier, 3, 30)
	for i, s := range xScenarios() {
		s := s
		for rep := 0; rep < reps; rep++ {
			for _, dsn := range []bool{false, true} {
				dsn := dsn
				sd := seed*1000003 + int64(i*100+rep)
				out = append(out, Case{ID: fmt.Sprintf("%s-%s-%d-dsn%v", s.name, s.dialect, rep, dsn), Run: func(t *T) { x03Run(t, &s, sd, dsn) }})
			}
		}
	}
	return out
}

// x03Once runs the scenario with one disturbance and checks what is left.
func x03Once(t *T, s *xScenario, seed int64, n int, dsn bool, what string, disturb func(x *xRun, cancel func(), files *faultFS) (restoring func() bool)) (calls int, ok bool) {
	x := s.start(t, seed, n, dsn)
	defer x.done()
	x.out, x.errw = &faultWriter{}, &faultWriter{}
	files := &faultFS{live: map[string]int{}}
	x.wrapFS = func(f fs.FS) fs.FS { files.FS = f; return files }
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	x.ctx = ctx
	fk := 0
	if !dsn && s.dialect == "sqlite" && x.srv == nil {
		// Two sessions with settings of their own.
		fk = 1 + x.r.Intn(2)
		c, err := x.db.Conn(context.Background())
		must(err)
		_, err = c.ExecContext(context.Background(), fmt.Sprintf("PRAGMA foreign_keys = %d", fk-1))
		must(err)
		c.Close()
	}
	restoring := disturb(x, cancel, files)
	id := fmt.Sprintf("%s-%d", x.dir, n)
	var err error
	labelled(id, func() { err = s.run(x) })
	x.mon.mu.Lock()
	x.mon.Before, x.mon.AfterOp = nil, nil
	calls = x.mon.seq
	x.mon.mu.Unlock()
	if err != nil && x.srv != nil && notEmulated(err) {
		t.Count("not_emulated", 1)
		return calls, true
	}
	fail := func(key, format string, args ...any) (int, bool) {
		t.Failf(key, "%s on %s (dsn=%v, %s, err=%v): %s", s.name, s.dialect, dsn, what, err, fmt.Sprintf(format, args...))
		return calls, false
	}
	t.Count("runs", 1)
	t.Sig(fmt.Sprint(s.name, s.dialect, dsn, what, err != nil))
	t.Sample("%s on %s (dsn=%v, %s): err=%v, %d driver calls", s.name, s.dialect, dsn, what, err, calls)
	if err != nil {
		t.Count("failed_runs", 1)
	}
	if g := waitGoroutines(id); len(g) > 0 {
		return fail("goroutine", "goroutines are left:\n%s", strings.Join(g, "\n"))
	}
	if open := files.open(); len(open) > 0 {
		return fail("files", "files are left open: %v", open)
	}
	if open := x.openFiles(); len(open) > 0 {
		return fail("files", "files are left open: %v", open)
	}
	// database/sql rolls back on a cancelled context in the background.
	var conns, txs, stmts, rows, inUse int
	for i := 0; i < 200; i++ {
		conns, txs, stmts, rows = x.mon.Live()
		inUse = 0
		if x.db != nil {
			inUse = x.db.Stats().InUse
		}
		if txs == 0 && rows == 0 && inUse == 0 && (!dsn || conns == 0) {
			break
		}
		time.Sleep(time.Duration(i/10) * time.Millisecond)
	}
	if txs != 0 || rows != 0 || inUse != 0 {
		return fail("database", "left open: %d transactions, %d result sets, %d connections in use", txs, rows, inUse)
	}
	if stmts != 0 && dsn {
		return fail("database", "left open: %d statements", stmts)
	}
	if dsn {
		t.Count("opened_db", 1)
		if conns != 0 {
			return fail("database", "the database the command opened is not closed: %d connections", conns)
		}
		return calls, true
	}
	t.Count("given_db", 1)
	if perr := x.db.Ping(); perr != nil {
		return fail("database", "the given database cannot be used any more: %v", perr)
	}
	if fk > 0 && !(restoring != nil && restoring()) {
		// Every pooled connection.
		idle := x.db.Stats().Idle
		for i := 0; i < idle; i++ {
			c, err := x.db.Conn(context.Background())
			must(err)
			defer c.Close()
			var got int
			must(c.QueryRowContext(context.Background(), "PRAGMA foreign_keys").Scan(&got))
			var cid int
			must(c.Raw(func(dc any) error { cid = dc.(*mconn).id; return nil }))
			want := 1
			if cid == 1 {
				want = fk - 1
			}
			t.Count("sessions", 1)
			if got != want {
				return fail("session", "foreign_keys was %d on connection %d and is %d", want, cid, got)
			}
		}
	}
	return calls, true
}

func x03Run(t *T, s *xScenario, seed int64, dsn bool) {
	limit := tierN(t.Tier, 60, 100000)
	n := 0
	calls, ok := x03Once(t, s, seed, n, dsn, "undisturbed", func(*xRun, func(), *faultFS) func() bool { return nil })
	if !ok {
		return
	}
	var points []int
	for k := 1; k <= calls; k++ {
		points = append(points, k)
	}
	for len(points) > limit {
		i := t.Rng.Intn(len(points))
		points = append(points[:i], points[i+1:]...)
	}
	for _, k := range points {
		for _, kind := range []string{"failure", "cancel"} {
			k, kind := k, kind
			n++
			if kind == "cancel" {
				t.Count("cancelled_runs", 1)
			}
			_, ok := x03Once(t, s, seed, n, dsn, fmt.Sprintf("%s at call %d", kind, k), func(x *xRun, cancel func(), _ *faultFS) func() bool {
				hit := ""
				base := x.mon.seq
				x.mon.Before = func(ev *Event) error {
					if ev.Seq-base != k || ev.Kind == "rollback" || ev.Kind == "close" {
						return nil
					}
					hit = ev.SQL
					if kind == "cancel" {
						cancel()
						return nil
					}
					return errInjected
				}
				return func() bool { return strings.Contains(strings.ToLower(hit), "foreign_keys") }
			})
			if !ok {
				return
			}
		}
	}
	for k := 1; k <= limit; k++ {
		k := k
		n++
		var f *faultFS
		_, ok := x03Once(t, s, seed, n, dsn, fmt.Sprintf("failure of file operation %d", k), func(_ *xRun, _ func(), files *faultFS) func() bool {
			files.at = k
			f = files
			return nil
		})
		if !ok || f.hit == "" {
			return
		}
	}
}

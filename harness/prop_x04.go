package main

import (
	"context"
	"fmt"
	"io/fs"
	"strings"
)

func init() {
	register(&Prop{
		ID:    "X04",
		Level: "fault_injection",
		Rule:  "Fails when ls, tables, views, generate, dump or a dry run changes the database, or when any command creates, changes or removes files other than its output.",
		Assumptions: []string{
			"The SQLite database is compared by its logical contents and by the bytes of its file, an emulated server by its catalog; files are compared by content.",
		},
		MinCounts: map[string]int64{"readonly_runs": 200, "other_runs": 100, "statements": 500, "disturbed": 200},
		Cases:     x04Cases,
	})
}

func x04Cases(tier string, seed int64) []Case {
	var out []Case
	reps := tierN(tier, 6, 60)
	for i, s := range xScenarios() {
		s := s
		for rep := 0; rep < reps; rep++ {
			dsn := rep%2 == 1
			sd := seed*1000003 + int64(i*100+rep)
			out = append(out, Case{ID: fmt.Sprintf("%s-%s-%d", s.name, s.dialect, rep), Run: func(t *T) { x04Run(t, &s, sd, dsn) }})
		}
	}
	return out
}

// writeWords start statements that change a database.
var writeWords = []string{"INSERT", "UPDATE", "DELETE", "REPLACE", "MERGE", "CREATE", "ALTER", "DROP", "TRUNCATE", "GRANT", "REVOKE", "COMMENT", "RENAME", "VACUUM", "REINDEX", "EXEC"}

func x04Run(t *T, s *xScenario, seed int64, dsn bool) {
	calls := 0
	for n := 0; n < 5; n++ {
		x := s.start(t, seed, n, dsn)
		x.out, x.errw = &faultWriter{}, &faultWriter{}
		ctx, cancel := context.WithCancel(context.Background())
		x.ctx = ctx
		how := "undisturbed"
		at := -1
		if n > 0 && calls > 0 {
			at = 1 + t.Rng.Intn(calls)
			how = []string{"failure", "cancelled"}[n%2] + fmt.Sprintf(" at call %d", at)
			t.Count("disturbed", 1)
		}
		count := 0
		var wrote string
		x.mon.Before = func(ev *Event) error {
			count++
			switch ev.Kind {
			case "exec", "query", "stmtexec", "stmtquery":
				t.Count("statements", 1)
				word := strings.ToUpper(strings.Trim(strings.SplitN(strings.TrimSpace(ev.SQL)+" ", " ", 2)[0], "\n;("))
				if s.readonly && contains(writeWords, word) {
					wrote = ev.SQL
				}
			}
			if count == at {
				if n%2 == 1 {
					cancel()
				} else {
					return errInjected
				}
			}
			return nil
		}
		files := &faultFS{live: map[string]int{}}
		x.wrapFS = func(f fs.FS) fs.FS { files.FS = f; return files }
		before, tree := x.state(), treeOf(x.dir)
		err := s.run(x)
		x.mon.mu.Lock()
		x.mon.Before = nil
		x.mon.mu.Unlock()
		if err != nil && x.srv != nil && notEmulated(err) {
			t.Count("not_emulated", 1)
			cancel()
			x.done()
			return
		}
		if n == 0 {
			calls = count
		}
		after := x.state()
		allowed := append([]string{}, s.outputs...)
		if !s.readonly {
			allowed = append(allowed, "db.sqlite3")
		}
		allowed = append(allowed, "db.sqlite3-journal")
		diff := treeDiff(tree, treeOf(x.dir), allowed...)
		cancel()
		x.done()
		fail := func(key, format string, args ...any) {
			t.Failf(key, "%s on %s (dsn=%v, %s, err=%v): %s", s.name, s.dialect, dsn, how, err, fmt.Sprintf(format, args...))
		}
		t.Sig(fmt.Sprint(s.name, s.dialect, dsn, how, err != nil))
		if s.readonly {
			t.Count("readonly_runs", 1)
			if before != after {
				fail("database", "the database changed from\n%s\nto\n%s", before, after)
				return
			}
			if wrote != "" {
				fail("statement", "a statement that changes the database was sent: %s", wrote)
				return
			}
		} else {
			t.Count("other_runs", 1)
		}
		if diff != "" {
			fail("files", "files changed:\n%s", diff)
			return
		}
	}
}

package main

// M02: a transactional migration's effects and its record of success are
// committed together or not at all, at every fault and crash point.

import (
	"bytes"
	"context"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"math/rand"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
)

type atomScenario struct {
	dialect string
	table   string
	seed    int64
}

// build fills the directory and applies the first part of the history.
func (a atomScenario) build(t *T) *sim {
	r := rand.New(rand.NewSource(a.seed))
	s := newSim(t, a.dialect, a.table)
	p := profile{plain: 8, tx: 4, off: 3, rep: 5, emptyPct: 2}
	if r.Intn(3) > 0 {
		for i := 1 + r.Intn(4); i > 0; i-- {
			s.addFile(r, p)
		}
		s.migrate(migrateOpts{})
		// change some repeatables
		for _, n := range s.sortedFiles() {
			if isRepeatable(n) && r.Intn(2) == 0 {
				s.files[n] = s.newContent(r, n, p)
			}
		}
	}
	for i := 2 + r.Intn(5); i > 0; i-- {
		s.addFile(r, p)
	}
	if r.Intn(4) == 0 { // one script that fails, possibly at commit
		q := p
		q.badPct, q.deferredPct = 100, 40
		n := s.newName(r, profile{plain: 6, tx: 3, rep: 2})
		s.files[n] = s.newContent(r, n, q)
	}
	return s
}

func (s *sim) fileEffects(all []string, f *simFile) (present, total, dup int) {
	count := map[string]int{}
	for _, e := range all {
		count[e]++
	}
	for _, st := range f.stmts {
		if st.bad || st.deferred {
			continue
		}
		total++
		if count[st.tok] > 0 {
			present++
		}
		if count[st.tok] > 1 {
			dup++
		}
	}
	return
}

// checkAtomic evaluates the invariant on the current database state. groups
// are the groups that were pending before the faulty run.
func (s *sim) checkAtomic(t *T, where string, groups [][]string, runErr error, completed bool) {
	effects, err := s.readEffects()
	must(err)
	hist, _, err := s.readHistory()
	must(err)
	blocked := ""
	for _, g := range groups {
		isTx := s.isTxGroup(g)
		applied, missing := 0, 0
		unrecorded := ""
		for _, n := range g {
			f := s.files[n]
			present, total, dup := s.fileEffects(effects, f)
			h, ok := hist[n]
			recorded := ok && h.success && (!isRepeatable(n) || h.checksum == f.checksum())
			if dup > 0 {
				t.Failf("duplicate", "%s: effects of %q were applied more than once", where, n)
			}
			if recorded && present < total {
				t.Failf("recorded-not-applied", "%s: history records %q as successful but only %d of its %d effects are present", where, n, present, total)
			}
			if isTx && total > 0 {
				if present != 0 && present != total {
					t.Failf("partial", "%s: transactional migration %q is partially applied (%d of %d)", where, n, present, total)
				}
				if present == total && !recorded {
					t.Failf("applied-not-recorded", "%s: effects of %q are committed but its history row does not record success (row %+v present=%v)", where, n, h, ok)
				}
			}
			if !recorded {
				unrecorded = n
			}
			if present == total && total > 0 {
				applied++
			} else if total > 0 {
				missing++
			}
		}
		if isTx && applied > 0 && missing > 0 {
			t.Failf("group-split", "%s: group %q was applied partially: %d files applied, %d not", where, g, applied, missing)
		}
		if applied > 0 && blocked != "" {
			t.Failf("after-failure", "%s: group %q was applied although the earlier %s was not", where, g, blocked)
		}
		if missing > 0 && blocked == "" {
			blocked = fmt.Sprintf("%q", g)
		}
		if completed && runErr == nil && missing > 0 {
			t.Failf("silent", "%s: migrate reported success but %q is not applied", where, g)
		}
		if completed && runErr == nil && unrecorded != "" {
			t.Failf("silent", "%s: migrate reported success but %q is not recorded", where, unrecorded)
		}
		if unrecorded != "" && blocked == "" {
			blocked = fmt.Sprintf("%q (%q is not recorded)", g, unrecorded)
		}
	}
	t.Count("invariant_checks", 1)
}

func (s *sim) hasFailing() bool {
	for _, f := range s.files {
		for _, st := range f.stmts {
			if st.bad || st.deferred {
				return true
			}
		}
	}
	return false
}

// recover reruns migrate without faults and checks that everything pending is
// applied exactly once.
func (s *sim) recoverRun(t *T, where string, groups [][]string) {
	if s.hasFailing() {
		return
	}
	s.mon.Reset()
	var stderr bytes.Buffer
	err := (&ddl.MigrateCmd{DB: s.db, Dialect: s.dialect, DirFS: s.fs(), Stderr: &stderr, HistoryTable: s.table}).Run()
	if err != nil {
		t.Failf("recovery", "%s: migrate after the fault fails: %v", where, err)
		return
	}
	effects, err := s.readEffects()
	must(err)
	for _, g := range groups {
		for _, n := range g {
			present, total, dup := s.fileEffects(effects, s.files[n])
			if present != total {
				t.Failf("recovery", "%s: after recovery %q has %d of %d effects", where, n, present, total)
			}
			if dup > 0 && s.isTxGroup(g) {
				t.Failf("duplicate", "%s: after recovery the effects of transactional %q were applied more than once", where, n)
			}
		}
	}
	t.Count("recoveries", 1)
}

// countEvents runs the scenario without faults to learn the number of driver
// calls.
func (a atomScenario) countEvents(t *T) (int, []Event) {
	sub := &T{CaseID: t.CaseID, Rng: t.Rng, Counts: map[string]int64{}}
	sub.dir = t.Dir() + "/count"
	must(mkdir(sub.dir))
	s := a.build(sub)
	defer func() {
		for _, f := range sub.cleanups {
			f()
		}
	}()
	s.mon.Reset()
	s.mon.Keep = true
	n := 0
	s.mon.Before = func(ev *Event) error { n = ev.Seq; return nil }
	var stderr bytes.Buffer
	(&ddl.MigrateCmd{DB: s.db, Dialect: s.dialect, DirFS: s.fs(), Stderr: &stderr, HistoryTable: s.table}).Run()
	return n, s.mon.Take()
}

func (a atomScenario) sub(t *T, tag string) (*T, func()) {
	sub := &T{CaseID: t.CaseID, Rng: t.Rng, Counts: map[string]int64{}}
	sub.dir = t.Dir() + "/" + tag
	must(mkdir(sub.dir))
	return sub, func() {
		for i := len(sub.cleanups) - 1; i >= 0; i-- {
			sub.cleanups[i]()
		}
		for _, f := range sub.Fails {
			t.Failf(f.Key, "%s", f.Detail)
		}
		for k, v := range sub.Counts {
			t.Count(k, int(v))
		}
		removeAll(sub.dir)
	}
}

func atomFaultCase(a atomScenario) func(t *T) {
	return func(t *T) {
		n, events := a.countEvents(t)
		if n == 0 {
			return
		}
		kinds := []string{"before", "after", "badconn", "cancel"}
		for k := 1; k <= n; k++ {
			for _, kind := range kinds {
				tag := fmt.Sprintf("%s%d", kind, k)
				st, done := a.sub(t, tag)
				func() {
					defer done()
					s := a.build(st)
					if len(s.mismatches) > 0 {
						st.Failf("setup", "%v", s.mismatches[0])
						return
					}
					groups := s.groups(s.pending(s.modelWalk(), true))
					if len(groups) == 0 {
						return
					}
					ctx, cancel := context.WithCancel(context.Background())
					defer cancel()
					s.mon.Reset()
					fired := ""
					s.mon.Before = func(ev *Event) error {
						if ev.Seq != k {
							return nil
						}
						switch kind {
						case "before":
							fired = ev.String()
							return errInjected
						case "badconn":
							if ev.Kind == "commit" || ev.Kind == "rollback" {
								return nil
							}
							fired = ev.String()
							return driver.ErrBadConn
						case "cancel":
							fired = ev.String()
							cancel()
						}
						return nil
					}
					s.mon.AfterOp = func(ev *Event) error {
						if ev.Seq == k && kind == "after" && ev.Kind != "commit" {
							fired = ev.String()
							return errInjected
						}
						return nil
					}
					var stderr bytes.Buffer
					err := (&ddl.MigrateCmd{DB: s.db, Dialect: s.dialect, DirFS: s.fs(), Stderr: &stderr, HistoryTable: s.table, Ctx: ctx}).Run()
					if fired == "" {
						return
					}
					st.Count("faults_injected", 1)
					s.db.Close() // settle background rollbacks
					s.db = openMonitored(s.mon.DSN, s.mon)
					st.Cleanup(func() { s.db.Close() })
					where := fmt.Sprintf("[%s] fault %s at driver call %s", a.dialect, kind, fired)
					s.checkAtomic(st, where, groups, err, true)
					if !st.Failed() {
						s.recoverRun(st, where, groups)
					}
					if st.Failed() {
						st.Failf("context", "stderr of the faulty run: %s; error: %v", stderr.String(), err)
					}
					t.Sig("fault", a.dialect, a.seed, kind, k)
				}()
				if t.Failed() {
					return
				}
			}
		}
		t.Sample("[%s] scenario %d: %d driver calls, each failed in 4 ways; call 5: %s", a.dialect, a.seed, n, sampleEvent(events, 5))
	}
}

func sampleEvent(evs []Event, i int) string {
	if i < len(evs) {
		return evs[i].String()
	}
	return ""
}

func atomCrashCase(a atomScenario) func(t *T) {
	return func(t *T) {
		n, _ := a.countEvents(t)
		crashes := 0
		for k := 1; k <= n; k++ {
			for _, after := range []bool{false, true} {
				st, done := a.sub(t, fmt.Sprintf("crash%d%v", k, after))
				func() {
					defer done()
					s := a.build(st)
					if len(s.mismatches) > 0 {
						st.Failf("setup", "%v", s.mismatches[0])
						return
					}
					groups := s.groups(s.pending(s.modelWalk(), true))
					if len(groups) == 0 {
						return
					}
					files := map[string]string{}
					for name, f := range s.files {
						files[name] = f.content()
					}
					s.db.Close()
					s.inspect.Close()
					died := runCrashChild(st, crashSpec{Cmd: "migrate", Dialect: a.dialect, DSN: s.mon.DSN, Table: s.table, Files: files, At: k, After: after})
					var err error
					s.inspect, err = sql.Open("sqlite3", s.mon.DSN)
					must(err)
					s.mon.Reset()
					s.db = openMonitored(s.mon.DSN, s.mon)
					st.Cleanup(func() { s.db.Close(); s.inspect.Close() })
					if died {
						crashes++
						st.Count("crashes", 1)
					}
					phase := "before"
					if after {
						phase = "after"
					}
					where := fmt.Sprintf("[%s] process killed %s driver call %d", a.dialect, phase, k)
					s.checkAtomic(st, where, groups, nil, false)
					if !st.Failed() {
						s.recoverRun(st, where, groups)
					}
					t.Sig("crash", a.dialect, a.seed, k, after)
				}()
				if t.Failed() {
					return
				}
			}
		}
		t.Sample("[%s] scenario %d: killed at %d points", a.dialect, a.seed, crashes)
	}
}

func init() {
	register(&Prop{
		ID: "M02", Level: "fault_enumeration",
		Rule: "distinct (scenario, driver call, fault kind) triples at which a fault or a process kill was delivered and the invariant evaluated",
		Assumptions: []string{
			"a commit that the driver reports as failed did not take effect",
			"SQLite recovers its rollback journal; the emulated servers store in SQLite",
		},
		MinCounts: map[string]int64{"faults_injected": 1000, "crashes": 200, "invariant_checks": 1200, "recoveries": 500},
		Cases: func(tier string, seed int64) []Case {
			var cases []Case
			dialects := []string{"sqlite", "sqlite", "postgres", "mysql", "sqlserver"}
			for i := 0; i < tierN(tier, 120, 1200); i++ {
				a := atomScenario{dialect: dialects[i%len(dialects)], table: "sqddl_history", seed: seed*100000 + int64(i)}
				if i%7 == 3 {
					a.table = "my history"
				}
				cases = append(cases, Case{ID: fmt.Sprintf("fault-%s-%04d", a.dialect, i), Run: atomFaultCase(a)})
			}
			for i := 0; i < tierN(tier, 60, 400); i++ {
				a := atomScenario{dialect: dialects[i%len(dialects)], table: "sqddl_history", seed: seed*100000 + 50000 + int64(i)}
				cases = append(cases, Case{ID: fmt.Sprintf("crash-%s-%04d", a.dialect, i), Run: atomCrashCase(a)})
			}
			return cases
		},
	})
	_ = strings.TrimSpace
}

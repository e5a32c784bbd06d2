package main

// M01, M03, M04, M05, M06: migration history properties, decided by the
// model-based monitor in sim.go under different workload mixes.

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

var plainNames = []string{
	"01_init.sql", "02_sakila.sql", "03_it's.sql", "04_per%d%scent.sql", "05_''dbl''.sql", "06_ünïcode.sql", "07 space.sql",
	"08_dots.v1.sql", "09_select.sql", "10_ten.sql", "11_\"quoted\".sql", "100_late.sql", "1_short.sql", "A_upper.sql", "a_lower.sql",
	"tx.sql", "txoff.sql", "undo.sql", "migration_undo.sql", "myschema.sql", "repeatable.sql", "20_x_tx.sql", "21_x.txof.sql",
	"22_[brackets].sql", "23_`tick`.sql", "24_semi;colon.sql", "25_--dash.sql", "26_back\\slash.sql", "27_%.sql", "28_{brace}.sql",
}
var txNames = []string{"02_own.tx.sql", "05_own.tx.sql", "12_own.tx.sql", "50_own.tx.sql", "00_own.tx.sql"}
var txoffNames = []string{"02_off.txoff.sql", "04_off.txoff.sql", "13_off.txoff.sql", "60_off.txoff.sql", "00_off.txoff.sql"}
var repeatNames = []string{
	"repeatable/a.sql", "repeatable/b.sql", "repeatable/sub/c.sql", "repeatable/sub/deep/d.sql", "repeatable/z.tx.sql",
	"repeatable/m.txoff.sql", "repeatable/it's.sql", "repeatable/functions/f.sql", "repeatable/Upper.sql", "repeatable/sub.sql",
}
var ignoredNames = []string{"schema.sql", "indexes.sql", "constraints.sql", "notes.txt", "zz.undo.sql", "sub/inner.sql", "repeatable/schema.sql",
	"repeatable/x.undo.sql", "README.md", "data.csv", "repeatables/not.sql", "other/repeatable/x.sql"}
var historyTables = []string{"sqddl_history", "hist", "my history", `hist"ory`, "select", "Über", "h`t", "hi]st", "per%dcent"}

type profile struct {
	steps            [2]int
	plain, tx, off   int // weights of names
	rep, ignored     int
	badPct           int // chance that a script fails
	deferredPct      int
	undoPct          int
	emptyPct         int
	opAdd, opEdit    int
	opDel, opMigrate int
	opSubset         int
	opTouch, opRm    int
	opMv, opLs       int
	opFix            int // replace a failing script
	lockPct          int
	skipPct          int // SkipHistoryTable runs
}

func pick(r *rand.Rand, weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	n := r.Intn(sum)
	for i, w := range weights {
		if n < w {
			return i
		}
		n -= w
	}
	return len(weights) - 1
}

func (s *sim) newName(r *rand.Rand, p profile) string {
	lists := [][]string{plainNames, txNames, txoffNames, repeatNames, ignoredNames}
	k := pick(r, p.plain, p.tx, p.off, p.rep, p.ignored)
	l := lists[k]
	if r.Intn(2) == 0 || k == 4 {
		return l[r.Intn(len(l))]
	}
	// A few stems shared by all kinds of files, so that names resemble each
	// other in every way a lookup could confuse.
	stem := shareStems[r.Intn(len(shareStems))]
	switch k {
	case 0:
		return stem + ".sql"
	case 1:
		return stem + ".tx.sql"
	case 2:
		return stem + ".txoff.sql"
	}
	dir := "repeatable/" + []string{"", "", "sub/", "sub/deep/", "a/"}[r.Intn(5)]
	return dir + stem + []string{".sql", ".sql", ".tx.sql", ".txoff.sql"}[r.Intn(4)]
}

var shareStems = []string{"a", "A", "b", "01_a", "a.b", "sub", "sql", "a_tx", "aXb", "a%b", "a.undo.b", "a.tx.b", "a.txoff.b", "my_schema", "indexes"}

func (s *sim) newContent(r *rand.Rand, name string, p profile) *simFile {
	s.now++
	f := &simFile{name: name, crlf: r.Intn(4) == 0, bare: r.Intn(5) == 0}
	n := 1 + r.Intn(3)
	if r.Intn(100) < p.emptyPct {
		n = 0
		f.pad = fmt.Sprintf("v%d", s.now)
	}
	if r.Intn(4) == 0 {
		f.pad = fmt.Sprintf("v%d", s.now)
	}
	for i := 0; i < n; i++ {
		f.stmts = append(f.stmts, simStmt{tok: fmt.Sprintf("%s#%d.%d", name, s.now, i)})
	}
	// A script that consists of a failing statement alone would not be
	// unique, so the padding keeps contents distinct.
	if r.Intn(100) < p.badPct && !strings.HasSuffix(name, ".undo.sql") {
		at := r.Intn(len(f.stmts) + 1)
		st := simStmt{bad: true}
		if r.Intn(100) < p.deferredPct {
			st = simStmt{deferred: true}
		}
		f.stmts = append(f.stmts[:at], append([]simStmt{st}, f.stmts[at:]...)...)
		if r.Intn(3) == 0 {
			f.stmts = []simStmt{st} // single statement
		}
		f.pad = fmt.Sprintf("v%d", s.now)
	}
	return f
}

func (s *sim) sortedFiles() []string {
	var out []string
	for n := range s.files {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func (s *sim) sortedHist() []string {
	var out []string
	for n := range s.hist {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func (s *sim) randomSubset(r *rand.Rand) []string {
	files := s.sortedFiles()
	if len(files) == 0 {
		return []string{"nope.sql"}
	}
	n := 1 + r.Intn(4)
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, files[r.Intn(len(files))])
	}
	if r.Intn(8) == 0 {
		out = append(out, "does_not_exist.sql")
	}
	return out
}

func (s *sim) makePlan(r *rand.Rand, p profile) (lockPlan, int) {
	plan := lockPlan{}
	max := 0
	if r.Intn(100) >= p.lockPct {
		return nil, 0
	}
	max = 1 + r.Intn(5)
	for _, n := range s.modelWalk() {
		if r.Intn(3) == 0 {
			plan[n] = 1 + r.Intn(max+1)
		}
	}
	if r.Intn(4) == 0 {
		plan[beginKey] = 1 + r.Intn(max)
	}
	return plan, max
}

// randomHistory drives one history; it stops at the first mismatch.
func (s *sim) randomHistory(r *rand.Rand, p profile) {
	steps := p.steps[0] + r.Intn(p.steps[1]-p.steps[0]+1)
	// initial files
	for i := r.Intn(5) + 1; i > 0; i-- {
		s.addFile(r, p)
	}
	for i := 0; i < steps && len(s.mismatches) == 0; i++ {
		switch pick(r, p.opAdd, p.opEdit, p.opDel, p.opMigrate, p.opSubset, p.opTouch, p.opRm, p.opMv, p.opLs, p.opFix) {
		case 0:
			for i := r.Intn(3) + 1; i > 0; i-- {
				s.addFile(r, p)
			}
		case 1: // edit
			if files := s.sortedFiles(); len(files) > 0 {
				n := files[r.Intn(len(files))]
				if f := s.files[n]; r.Intn(6) == 0 && len(f.pad) > 1 && !strings.Contains(f.pad, "\r") { // a carriage return that ends no line
					f.pad = f.pad[:1] + "\r" + f.pad[1:]
					s.steps = append(s.steps, "add a carriage return to "+n)
				} else if r.Intn(3) == 0 { // line endings only
					s.files[n].crlf = !s.files[n].crlf
					s.steps = append(s.steps, "flip line endings "+n)
				} else {
					s.files[n] = s.newContent(r, n, p)
					s.steps = append(s.steps, fmt.Sprintf("edit %s: %q", n, s.files[n].content()))
				}
			}
		case 2:
			if files := s.sortedFiles(); len(files) > 0 {
				n := files[r.Intn(len(files))]
				delete(s.files, n)
				s.steps = append(s.steps, "delete "+n)
			}
		case 3:
			plan, max := s.makePlan(r, p)
			s.migrate(migrateOpts{plan: plan, maxAttempts: max, verbose: r.Intn(4) == 0, skipHistory: r.Intn(100) < p.skipPct})
		case 4:
			plan, max := s.makePlan(r, p)
			s.migrate(migrateOpts{filenames: s.randomSubset(r), plan: plan, maxAttempts: max})
		case 5:
			if r.Intn(4) == 0 {
				s.touch(nil)
			} else {
				s.touch(s.randomSubset(r))
			}
		case 6:
			if h := s.sortedHist(); len(h) > 0 {
				list := []string{h[r.Intn(len(h))]}
				if r.Intn(2) == 0 {
					list = append(list, h[r.Intn(len(h))], "unknown.sql")
				}
				s.rm(list)
			} else {
				s.rm([]string{"unknown.sql"})
			}
		case 7:
			src, dest := "unknown.sql", plainNames[r.Intn(len(plainNames))]
			if r.Intn(2) == 0 {
				dest = repeatNames[r.Intn(len(repeatNames))]
			}
			if h := s.sortedHist(); len(h) > 0 {
				src = h[r.Intn(len(h))]
				if r.Intn(3) == 0 {
					dest = h[r.Intn(len(h))]
				}
			}
			s.mv(src, dest)
			if f := s.files[src]; f != nil && r.Intn(2) == 0 && s.files[dest] == nil && len(s.mismatches) == 0 {
				delete(s.files, src)
				f.name = dest
				s.files[dest] = f
				s.steps = append(s.steps, "rename "+src+" "+dest)
			}
		case 8:
			if r.Intn(2) == 0 {
				s.ls(false, false, false, false, true)
			} else {
				s.ls(r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(6) == 0)
			}
		case 9:
			for _, n := range s.sortedFiles() {
				f := s.files[n]
				for _, st := range f.stmts {
					if st.bad || st.deferred {
						q := p
						q.badPct = 0
						s.files[n] = s.newContent(r, n, q)
						s.steps = append(s.steps, "fix "+n)
						break
					}
				}
			}
		}
	}
}

func (s *sim) addFile(r *rand.Rand, p profile) {
	n := s.newName(r, p)
	if s.files[n] != nil {
		return
	}
	s.files[n] = s.newContent(r, n, p)
	s.steps = append(s.steps, fmt.Sprintf("add %s: %q", n, s.files[n].content()))
	if modelEligible(n) && r.Intn(100) < p.undoPct {
		u := undoName(n)
		if s.files[u] == nil {
			q := p
			q.badPct = 0
			s.files[u] = s.newContent(r, u, q)
			if r.Intn(6) == 0 {
				s.files[u].stmts = append(s.files[u].stmts, simStmt{bad: true})
				s.files[u].pad = fmt.Sprintf("v%d", s.now)
			}
			s.steps = append(s.steps, fmt.Sprintf("add %s: %q", u, s.files[u].content()))
		}
	}
}

func (s *sim) report(t *T, aspects string) {
	for i, st := range s.steps {
		t.Note("step %d: %s", i, st)
	}
	for _, m := range s.mismatches {
		if aspects == "*" || strings.Contains(aspects, m.aspect) {
			t.Failf(m.aspect, "[%s] %s", s.dialect, m.msg)
		} else {
			t.Count("other_aspect_mismatches", 1)
		}
	}
	t.Count("scripts_run", s.filesRun)
	t.Count("groups", s.groupsRun)
	t.Count("steps", len(s.steps))
	if s.filesRun > 0 || len(s.hist) > 0 {
		t.Sig(s.dialect, s.table, strings.Join(s.steps, "|"), strings.Join(s.effects, ","))
	}
	t.Sample("[%s, history table %q] %s => %d effects", s.dialect, s.table, strings.Join(s.steps, " ; "), len(s.effects))
}

var simDialects = []string{"sqlite", "sqlite", "sqlite", "postgres", "mysql", "sqlserver"}

func simCases(prefix string, n int, p profile, aspects string) []Case {
	var cases []Case
	for i := 0; i < n; i++ {
		dialect := simDialects[i%len(simDialects)]
		table := historyTables[0]
		if i%3 == 1 {
			table = historyTables[(i/3)%len(historyTables)]
		}
		p := p
		cases = append(cases, Case{ID: fmt.Sprintf("%s-%04d", prefix, i), Run: func(t *T) {
			s := newSim(t, dialect, table)
			s.randomHistory(t.Rng, p)
			s.report(t, aspects)
		}})
	}
	return cases
}

func init() {
	assume := []string{
		"SQLite is the only database server available; Postgres, MySQL and SQL Server runs execute the real command code against an emulated server backed by SQLite",
		"a script's effects are visible as uniquely numbered rows it inserts",
	}
	register(&Prop{
		ID: "M01", Level: "exploration",
		Rule:        "distinct random histories (directory edits + migrate runs) in which at least one script ran or a history row existed, by hash of the whole history and its effects",
		Assumptions: assume,
		MinCounts:   map[string]int64{"scripts_run": 500, "state_comparisons": 500},
		Cases: func(tier string, seed int64) []Case {
			p := profile{steps: [2]int{4, 14}, plain: 10, tx: 3, off: 3, rep: 3, ignored: 3, badPct: 12, deferredPct: 15, undoPct: 8, emptyPct: 8,
				opAdd: 5, opEdit: 2, opDel: 1, opMigrate: 6, opSubset: 4, opFix: 2, opTouch: 1, opRm: 1, opMv: 1, lockPct: 5, skipPct: 3}
			return simCases("hist", tierN(tier, 8000, 120000), p, "apply,order,result")
		},
	})
	register(&Prop{
		ID: "M03", Level: "exploration",
		Rule:        "distinct random histories whose scripts' transactions were observed at the driver boundary",
		Assumptions: assume,
		MinCounts:   map[string]int64{"scripts_run": 500, "groups": 300},
		Cases: func(tier string, seed int64) []Case {
			p := profile{steps: [2]int{3, 8}, plain: 8, tx: 5, off: 5, rep: 4, ignored: 1, badPct: 8, undoPct: 5, emptyPct: 3,
				opAdd: 6, opEdit: 2, opMigrate: 6, opSubset: 4, opFix: 2, lockPct: 10, skipPct: 10}
			return simCases("scope", tierN(tier, 8000, 100000), p, "scope")
		},
	})
	register(&Prop{
		ID: "M04", Level: "fault_enumeration",
		Rule:        "distinct random histories with failing scripts, undo scripts and injected lock timeouts",
		Assumptions: assume,
		MinCounts:   map[string]int64{"scripts_run": 500},
		Cases: func(tier string, seed int64) []Case {
			p := profile{steps: [2]int{3, 9}, plain: 8, tx: 3, off: 8, rep: 4, ignored: 1, badPct: 40, deferredPct: 15, undoPct: 60, emptyPct: 3,
				opAdd: 5, opEdit: 2, opMigrate: 7, opSubset: 3, opFix: 4, lockPct: 45, skipPct: 8}
			cases := simCases("fail", tierN(tier, 8000, 100000), p, "*")
			cases = append(cases, retryCases(tier)...)
			return cases
		},
	})
	register(&Prop{
		ID: "M05", Level: "exploration",
		Rule:        "distinct random edit/run histories over repeatable migrations",
		Assumptions: assume,
		MinCounts:   map[string]int64{"scripts_run": 500},
		Cases: func(tier string, seed int64) []Case {
			p := profile{steps: [2]int{6, 18}, plain: 1, rep: 12, ignored: 1, badPct: 8, emptyPct: 5,
				opAdd: 3, opEdit: 8, opDel: 1, opMigrate: 8, opSubset: 3, opTouch: 2, opRm: 1, opMv: 1, opFix: 2, opLs: 2}
			return simCases("rep", tierN(tier, 7000, 80000), p, "repeatable,apply,order,ls,result")
		},
	})
	register(&Prop{
		ID: "M06", Level: "exploration",
		Rule:        "distinct random histories of touch, rm, mv, ls and migrate compared with a model of the history table",
		Assumptions: assume,
		MinCounts:   map[string]int64{"state_comparisons": 500, "ls_lines": 200},
		Cases: func(tier string, seed int64) []Case {
			p := profile{steps: [2]int{6, 18}, plain: 8, tx: 2, off: 2, rep: 6, ignored: 3, badPct: 12, emptyPct: 3,
				opAdd: 4, opEdit: 3, opDel: 2, opMigrate: 4, opSubset: 2, opTouch: 4, opRm: 4, opMv: 4, opLs: 6, opFix: 1}
			return simCases("hist", tierN(tier, 8000, 100000), p, "history,ls,result,repeatable,apply")
		},
	})
}

// retryCases drive the retry policy systematically.
func retryCases(tier string) []Case {
	var cases []Case
	for _, dialect := range []string{"sqlite", "postgres", "mysql", "sqlserver"} {
		for max := 1; max <= 4; max++ {
			for timeouts := 0; timeouts <= 5; timeouts++ {
				for kind := 0; kind < 8; kind++ {
					dialect, max, timeouts, kind := dialect, max, timeouts, kind
					cases = append(cases, Case{ID: fmt.Sprintf("retry-%s-max%d-t%d-k%d", dialect, max, timeouts, kind), Run: func(t *T) {
						s := newSim(t, dialect, "sqddl_history")
						r := t.Rng
						add := func(n string, k int) {
							f := s.newContent(r, n, profile{})
							for len(f.stmts) < k {
								f.stmts = append(f.stmts, simStmt{tok: fmt.Sprintf("%s+%d", n, len(f.stmts))})
							}
							f.stmts = f.stmts[:k]
							s.files[n] = f
						}
						add("01_a.sql", 2)
						victim := "02_b.sql"
						switch kind {
						case 0:
							add(victim, 2)
						case 1:
							victim = "02_b.tx.sql"
							add(victim, 3)
						case 2:
							victim = "02_b.txoff.sql"
							add(victim, 3)
							add("02_b.undo.sql", 1)
						case 3:
							victim = "02_b.txoff.sql"
							add(victim, 1)
							add("02_b.undo.sql", 1)
						case 4:
							victim = "repeatable/v.sql"
							add(victim, 2)
						case 5:
							victim = "02_b.sql"
							add(victim, 1)
							add("02_b.undo.sql", 2)
						case 7:
							victim = "02_b.txoff.sql"
							add(victim, 2)
							s.files[victim].bare = true
							add("02_b.undo.sql", 1)
						}
						add("03_c.sql", 1)
						if kind == 6 {
							add(victim, 2)
							victim = beginKey
						}
						s.migrate(migrateOpts{plan: lockPlan{victim: timeouts}, maxAttempts: max})
						if len(s.mismatches) == 0 {
							s.migrate(migrateOpts{})
						}
						if len(s.mismatches) == 0 {
							s.migrate(migrateOpts{})
						}
						s.report(t, "*")
					}})
				}
			}
		}
	}
	return cases
}

package main

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"strings"
)

func init() {
	register(&Prop{
		ID:    "X02",
		Level: "fault_injection",
		Rule:  "Fails when a command returns success although the database, the file system or the output failed under it.",
		Assumptions: []string{
			"Failures are injected at the database/sql driver boundary, in the fs.FS the files are read from, in the writers, and by output files on a full device. Failures of ROLLBACK and of closing are not injected.",
		},
		MinCounts: map[string]int64{"clean_runs": 50, "failed_calls": 1000, "failed_files": 100, "failed_writes": 10, "full_device": 5},
		Cases:     x02Cases,
	})
}

func x02Cases(tier string, seed int64) []Case {
	var out []Case
	reps := tierN(tier, 3, 30)
	for i, s := range xScenarios() {
		s := s
		for rep := 0; rep < reps; rep++ {
			for _, dsn := range []bool{false, true} {
				dsn := dsn
				sd := seed*1000003 + int64(i*100+rep)
				out = append(out, Case{ID: fmt.Sprintf("%s-%s-%d-dsn%v", s.name, s.dialect, rep, dsn), Run: func(t *T) { x02Run(t, &s, sd, dsn) }})
			}
		}
	}
	return out
}

func x02Run(t *T, s *xScenario, seed int64, dsn bool) {
	n := 0
	limit := tierN(t.Tier, 120, 100000)
	// Without failures the command succeeds; count its calls.
	x := s.start(t, seed, n, dsn)
	var kinds []string
	x.mon.Before = func(ev *Event) error {
		kinds = append(kinds, ev.Kind)
		return nil
	}
	files := &faultFS{live: map[string]int{}}
	x.wrapFS = func(f fs.FS) fs.FS { files.FS = f; return files }
	out, errw := &faultWriter{}, &faultWriter{}
	x.out, x.errw = out, errw
	err := s.run(x)
	x.done()
	if err != nil {
		if x.srv != nil && notEmulated(err) {
			t.Count("not_emulated", 1)
			return
		}
		t.Failf("clean", "%s on %s fails without any failure: %v", s.name, s.dialect, err)
		return
	}
	t.Count("clean_runs", 1)
	t.Count("calls", len(kinds))
	var points []int
	for i, k := range kinds {
		if k != "rollback" && k != "close" && k != "rowsclose" {
			points = append(points, i+1)
		}
	}
	// Choose a sample when there are many.
	for len(points) > limit {
		i := t.Rng.Intn(len(points))
		points = append(points[:i], points[i+1:]...)
	}
	for _, k := range points {
		for _, after := range []bool{false, true} {
			if after && t.Rng.Intn(3) > 0 {
				continue
			}
			n++
			x := s.start(t, seed, n, dsn)
			x.out, x.errw = &faultWriter{}, &faultWriter{}
			count, hit := 0, ""
			hook := func(ev *Event) error {
				count++
				if count == k && ev.Kind != "rollback" && ev.Kind != "close" && ev.Kind != "rowsclose" {
					hit = ev.String()
					return errInjected
				}
				return nil
			}
			if after {
				x.mon.AfterOp = hook
			} else {
				x.mon.Before = hook
			}
			err := s.run(x)
			x.done()
			if hit == "" {
				continue
			}
			t.Count("failed_calls", 1)
			t.Sig(s.name + s.dialect + hit)
			t.Sample("%s on %s (dsn=%v): call %d (after=%v) %s: %v", s.name, s.dialect, dsn, k, after, hit, err)
			if err == nil {
				t.Failf("call", "%s on %s (dsn=%v) reports success although call %d failed (after=%v): %s", s.name, s.dialect, dsn, k, after, hit)
				return
			}
			if !errors.Is(err, errInjected) && !strings.Contains(err.Error(), errInjected.Error()) {
				t.Count("other_error", 1)
			}
		}
	}
	for k := 1; k <= files.n && k <= limit; k++ {
		n++
		x := s.start(t, seed, n, dsn)
		f := &faultFS{live: map[string]int{}, at: k}
		x.wrapFS = func(fs fs.FS) fs.FS { f.FS = fs; return f }
		x.out, x.errw = &faultWriter{}, &faultWriter{}
		err := s.run(x)
		x.done()
		if f.hit == "" {
			continue
		}
		t.Count("failed_files", 1)
		t.Sig(s.name + f.hit)
		if err == nil {
			t.Failf("file", "%s on %s (dsn=%v) reports success although it could not %s (operation %d)", s.name, s.dialect, dsn, f.hit, k)
			return
		}
	}
	for k := 1; k <= out.n && k <= limit; k++ {
		n++
		x := s.start(t, seed, n, dsn)
		w := &faultWriter{at: k, once: (k+int(seed))%2 == 0}
		x.out, x.errw = w, &faultWriter{}
		err := s.run(x)
		x.done()
		if !w.hit {
			continue
		}
		t.Count("failed_writes", 1)
		if err == nil {
			t.Failf("write", "%s on %s (dsn=%v) reports success although write %d to its output failed", s.name, s.dialect, dsn, k)
			return
		}
	}
	// Output files on a full device: each file the command writes, in turn.
	if len(s.outputs) == 0 {
		return
	}
	n++
	x = s.start(t, seed, n, dsn)
	x.out, x.errw = &faultWriter{}, &faultWriter{}
	before := treeOf(x.dir)
	err = s.run(x)
	var created []string
	for p := range treeOf(x.dir) {
		if _, had := before[p]; !had && !strings.HasSuffix(p, "/") && !strings.HasPrefix(p, "db.sqlite3") {
			if fi, err := os.Stat(x.path(p)); err == nil && fi.Size() > 0 {
				created = append(created, p)
			}
		}
	}
	x.done()
	if err != nil {
		t.Failf("clean", "%s on %s fails without any failure: %v", s.name, s.dialect, err)
		return
	}
	for _, p := range created {
		n++
		x := s.start(t, seed, n, dsn)
		x.out, x.errw = &faultWriter{}, &faultWriter{}
		x.write(p, "")
		must(os.Remove(x.path(p)))
		must(os.Symlink("/dev/full", x.path(p)))
		err := s.run(x)
		fi, serr := os.Lstat(x.path(p))
		replaced := serr == nil && fi.Mode()&os.ModeSymlink == 0
		x.done()
		if replaced {
			continue
		}
		t.Count("full_device", 1)
		if err == nil {
			t.Failf("full", "%s on %s (dsn=%v) reports success although the device of %s is full", s.name, s.dialect, dsn, p)
			return
		}
	}
}

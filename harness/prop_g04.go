package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
)

func init() {
	register(&Prop{
		ID:    "G04",
		Level: "exploration",
		Rule:  "Fails when a generated Postgres migration does work on an existing table under a lock that the documentation says is avoided (index built without CONCURRENTLY, key without USING INDEX, foreign key not added NOT VALID or validated in the same transaction, NOT NULL without a validated check), when a non-transactional file that stopped after any of its statements is not taken back by its undo file, when an unsafe change is not warned about or a safe one is, when files are written despite warnings, or when the names, order or dry run of the files are not as documented.",
		Assumptions: []string{
			"The servers are represented by the same model servers as for G03; what blocks follows the documentation of PostgreSQL and of sqddl.",
			"What a file drops before it stops is not expected back.",
		},
		MinCounts: map[string]int64{"steps": 100, "undo_states": 100, "concurrent index": 20, "using index": 20, "validate": 20, "proved not null": 5, "warned": 50, "refused": 30, "accepted": 30, "dry_runs": 100},
		Cases:     g04Cases,
	})
}

func g04Cases(tier string, seed int64) []Case {
	var out []Case
	n := tierN(tier, 8000, 200000)
	for i := 0; i < n; i++ {
		d := []string{"postgres", "mysql", "postgres", "sqlserver"}[i%4]
		out = append(out, Case{ID: fmt.Sprintf("%s-%d", d, i/4*2+i%4/2), Run: func(t *T) {
			live := vNewDB(d, t.Rng)
			if d == "postgres" && t.Rng.Intn(3) == 0 {
				live.Version = []int{10, 4}
			}
			vHistory(t, d, live, g04Step)
		}})
	}
	return out
}

// g04Run runs generate and returns the written files, what it printed, and its
// error.
func g04Run(dir, dialect, srcFile, destFile string, flags ...string) (files []vFile, stdout, stderr string, err error) {
	must(os.MkdirAll(dir, 0o755))
	cmd, err := ddl.GenerateCommand(append([]string{"-src", srcFile, "-dest", destFile, "-output-dir", dir, "-dialect", dialect, "-prefix", "20230101"}, flags...)...)
	must(err)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err = cmd.Run()
	entries, e2 := os.ReadDir(dir)
	must(e2)
	for _, en := range entries {
		b, e3 := os.ReadFile(filepath.Join(dir, en.Name()))
		must(e3)
		files = append(files, vFile{en.Name(), string(b)})
	}
	sort.Slice(files, func(i, j int) bool { return files[i].name < files[j].name })
	return files, o.String(), e.String(), err
}

func g04Step(t *T, live, decl *vDB, destFile, destText, tag, label string, drop bool) ([]vFile, bool) {
	before := live.clone()
	d := live.Dialect
	srcFile := filepath.Join(t.Dir(), tag+"_src.json")
	must(os.WriteFile(srcFile, g04JSON(live), 0o644))
	var flags []string
	if drop {
		flags = append(flags, "-drop-objects")
	}
	plain, _, _, perr := g04Run(filepath.Join(t.Dir(), tag+"_plain"), d, srcFile, destFile, flags...)
	files, _, printed, err := g04Run(filepath.Join(t.Dir(), tag+"_out"), d, srcFile, destFile, append(flags, "-accept-warnings")...)
	dry, shown, dryPrinted, derr := g04Run(filepath.Join(t.Dir(), tag+"_dry"), d, srcFile, destFile, append(flags, "-dry-run")...)
	context := func() string {
		return fmt.Sprintf("files:\n%s\nbefore:\n%s\ndeclared:\n%s", dumpFiles(files), strings.Join(before.facts(), "\n"), destText)
	}
	fail := func(key, format string, args ...any) ([]vFile, bool) {
		t.Failf(key, "%s (drop=%v, version %v): %s\n%s", label, drop, live.Version, fmt.Sprintf(format, args...), context())
		return files, false
	}
	if err != nil {
		return fail("generate-error", "generate -accept-warnings fails: %v", err)
	}
	// Warnings: printed when accepted, the error otherwise.
	var warnings []string
	paths := map[string]bool{}
	for _, f := range files {
		paths[filepath.Join(t.Dir(), tag+"_out", f.name)] = true
	}
	for _, line := range strings.Split(strings.TrimSuffix(printed, "\n"), "\n") {
		switch {
		case line == "":
		case paths[line]:
			delete(paths, line)
		default:
			warnings = append(warnings, line)
		}
	}
	if len(paths) > 0 {
		return fail("not-listed", "written files are not listed: %v\nprinted:\n%s", paths, printed)
	}
	if len(warnings) > 0 {
		t.Count("refused", 1)
		if perr == nil || len(plain) > 0 {
			return fail("warnings-ignored", "without -accept-warnings files are written despite warnings (err=%v, %d files): %q", perr, len(plain), warnings)
		}
		for _, w := range warnings {
			if !strings.Contains(perr.Error(), w) {
				return fail("warning-hidden", "the error does not mention %q: %v", w, perr)
			}
		}
	} else {
		t.Count("accepted", 1)
		if perr != nil || dumpFiles(plain) != dumpFiles(files) {
			return fail("flag-changes-files", "without warnings, -accept-warnings changes the outcome (err=%v):\n%s", perr, dumpFiles(plain))
		}
	}
	// The dry run shows the same statements and writes nothing.
	t.Count("dry_runs", 1)
	if derr != nil || len(dry) > 0 {
		return fail("dry-run", "the dry run fails or writes files: %v, %d files", derr, len(dry))
	}
	if msg := diffLists(warnings, nonEmptyLines(dryPrinted, "")); msg != "" {
		return fail("dry-run-warnings", "the dry run prints other warnings:\n%s", msg)
	}
	var text strings.Builder
	for _, f := range files {
		if !strings.HasSuffix(f.name, ".undo.sql") {
			text.WriteString(f.text)
		}
	}
	if a, b := nonEmptyLines(text.String(), "-- "), nonEmptyLines(shown, "-- "); strings.Join(a, "\n") != strings.Join(b, "\n") {
		return fail("dry-run-text", "the dry run shows other statements:\n%s", shown)
	}
	if msg := g04Names(d, files); msg != "" {
		return fail("file-names", "%s", msg)
	}
	if msg := g04Warnings(t, before, decl, warnings); msg != "" {
		return fail("warnings", "%s\nwarnings: %q", msg, warnings)
	}
	// Apply file by file.
	undo := map[string]vFile{}
	for _, f := range files {
		if strings.HasSuffix(f.name, ".undo.sql") {
			undo[strings.TrimSuffix(f.name, ".undo.sql")] = f
		}
	}
	pending := map[string]string{} // constraints added NOT VALID: file
	for _, f := range files {
		if strings.HasSuffix(f.name, ".undo.sql") {
			continue
		}
		stmts, err := vSplit(d, f.text)
		must(err)
		if nontx := d == "mysql" && !strings.HasSuffix(f.name, ".tx.sql") || strings.HasSuffix(f.name, ".txoff.sql"); nontx {
			base := strings.TrimSuffix(strings.TrimSuffix(f.name, ".sql"), ".txoff")
			u, has := undo[base]
			if msg := g04Undo(t, live, stmts, u.text, has); msg != "" {
				return fail("undo", "%s: %s", f.name, msg)
			}
		}
		start := len(live.ev)
		if err := vApply(t, live, []vFile{f}); err != nil {
			return fail("rejected", "the server rejects the migration: %v", err)
		}
		if d != "postgres" {
			continue
		}
		for _, e := range live.ev[start:] {
			t.Count(e.kind, 1)
			key := e.schema + "." + e.table + "." + e.name
			if e.kind == "not valid" {
				pending[key] = f.name
			}
			if before.table(e.schema, e.table) == nil {
				continue
			}
			switch e.kind {
			case "index", "add PRIMARY KEY", "add UNIQUE", "add FOREIGN KEY":
				return fail("blocking", "%s: %s %s on the existing table %s blocks it", f.name, e.kind, e.name, e.table)
			case "scan for nulls":
				if live.Version[0] >= 12 {
					return fail("blocking", "%s: SET NOT NULL on %s.%s without a valid check scans the table under an exclusive lock", f.name, e.table, e.name)
				}
			case "validate":
				if pending[key] == f.name {
					return fail("blocking", "%s: constraint %s is validated in the transaction that adds it", f.name, e.name)
				}
			}
		}
	}
	live.ev = nil
	if want := target(decl, before, drop); diffLists(want.facts(), live.facts()) != "" {
		return fail("wrong-schema", "the migration does not produce the declared schema:\n%s", diffLists(want.facts(), live.facts()))
	}
	t.Count("steps", 1)
	t.Sig(fmt.Sprint(d, live.Version[0], drop, len(files), len(warnings)))
	t.Sample("%s %v drop=%v: %d files, warnings %q", d, live.Version, drop, len(files), warnings)
	return files, true
}

func nonEmptyLines(s, skip string) []string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" && (skip == "" || !strings.HasPrefix(l, skip)) {
			out = append(out, l)
		}
	}
	return out
}

// g04Undo stops the file after each of its statements, runs its undo file and
// compares the state with the one before the file.
func g04Undo(t *T, live *vDB, stmts []string, undo string, has bool) string {
	last := len(stmts) - 1
	if has {
		last = len(stmts)
	}
	undos, err := vSplit(live.Dialect, undo)
	must(err)
	for k := 0; k <= last; k++ {
		s := live.clone()
		for _, stmt := range stmts[:k] {
			if s.apply(stmt, false) != nil {
				return "" // reported by the regular run
			}
		}
		want := map[string]bool{}
		for _, f := range live.facts() {
			want[f] = true
		}
		kept := map[string]bool{}
		for _, f := range s.facts() {
			kept[f] = want[f]
		}
		for _, u := range undos {
			if err := s.apply(u, false); err != nil {
				return fmt.Sprintf("stopped after %d of %d statements, the undo file fails: %s: %v", k, len(stmts), u, err)
			}
		}
		t.Count("undo_states", 1)
		got := map[string]bool{}
		for _, f := range s.facts() {
			got[f] = true
			if !want[f] {
				return fmt.Sprintf("stopped after %d of %d statements and undone (undo file: %v), this is left: %s", k, len(stmts), has, f)
			}
		}
		for f, k2 := range kept {
			if k2 && !got[f] {
				return fmt.Sprintf("stopped after %d of %d statements, the undo file removes what existed before: %s", k, len(stmts), f)
			}
		}
	}
	return ""
}

var g04Name = regexp.MustCompile(`^20230101_([0-9]+)_[^/]+\.sql$`)

// g04Names checks that the files are numbered in the order of their names and
// that undo files belong to non-transactional files.
func g04Names(dialect string, files []vFile) string {
	last := 0
	names := map[string]bool{}
	for _, f := range files {
		names[f.name] = true
	}
	for _, f := range files {
		m := g04Name.FindStringSubmatch(f.name)
		if m == nil {
			return "unexpected file name " + f.name
		}
		n, _ := strconv.Atoi(m[1])
		base := strings.TrimSuffix(f.name, ".sql")
		if strings.HasSuffix(base, ".undo") {
			base = strings.TrimSuffix(base, ".undo")
			if !(names[base+".txoff.sql"] || dialect == "mysql" && names[base+".sql"]) {
				return "the undo file has no non-transactional file: " + f.name
			}
			continue
		}
		if n <= last {
			return fmt.Sprintf("file %s is applied after number %d", f.name, last)
		}
		last = n
	}
	return ""
}

// typeParts splits varchar(255) into varchar and 255.
func typeParts(s string) (base string, a, b int) {
	i := strings.IndexByte(s, '(')
	if i < 0 {
		return s, 0, 0
	}
	args := strings.Split(strings.TrimSuffix(s[i+1:], ")"), ",")
	a, _ = strconv.Atoi(strings.TrimSpace(args[0]))
	if len(args) > 1 {
		b, _ = strconv.Atoi(strings.TrimSpace(args[1]))
	}
	return s[:i], a, b
}

// safeType reports whether the documentation calls the change of type safe.
func safeType(dialect, from, to string) bool {
	fb, fa, fs := typeParts(from)
	tb, ta, ts := typeParts(to)
	switch dialect {
	case "postgres":
		switch fb + ">" + tb {
		case "cidr>inet", "varchar>text":
			return true
		case "text>varchar":
			return ta == 0
		case "varchar>varchar":
			return ta == 0 || fa > 0 && ta >= fa
		case "numeric>numeric":
			return ta == 0 || fa > 0 && ta >= fa && ts == fs
		}
	case "mysql":
		if fb == "varchar" && tb == "varchar" {
			return ta >= fa && (fa > 255) == (ta > 255)
		}
	}
	return false
}

// g04Warnings compares the warnings with what is unsafe.
func g04Warnings(t *T, before, decl *vDB, warnings []string) string {
	d := before.Dialect
	type key struct{ schema, table, col string }
	required, allowed := map[key]string{}, map[key]bool{}
	cols := map[key]bool{}
	for _, tb := range decl.Tables {
		lt := before.table(tb.Schema, tb.Name)
		if lt == nil {
			continue
		}
		pk := tb.pk()
		for _, c := range tb.Cols {
			k := key{tb.Schema, tb.Name, c.Name}
			cols[k] = true
			if c.Gen != "" {
				continue
			}
			implied := pk != nil && contains(pk.Cols, c.Name) || c.Ident != "" || c.Autoinc
			lc := lt.col(c.Name)
			if lc == nil {
				switch {
				case d == "postgres" && before.Version[0] < 11 && (c.Def != "" || c.Ident != ""):
					required[k] = "adding a column with DEFAULT or IDENTITY"
				case c.NotNull && c.Def == "" && (implied || d == "mysql"):
					// MySQL has implicit defaults.
					allowed[k] = true
				case c.NotNull && c.Def == "":
					required[k] = "adding a NOT NULL column without DEFAULT"
				}
				continue
			}
			fb, fa, _ := typeParts(lc.Type)
			tb, ta, _ := typeParts(c.Type)
			switch {
			case d == "mysql" && fb == "varchar" && tb == "varchar" && ta < fa && (ta > 255) == (fa > 255):
				// Needs a copy of the table, but the documentation does not
				// mention it.
				allowed[k] = true
			case c.Type != lc.Type && !safeType(d, lc.Type, c.Type):
				required[k] = "changing type from " + lc.Type + " to " + c.Type
			case d == "postgres" && before.Version[0] < 12 && c.NotNull && !lc.NotNull && implied:
				allowed[k] = true
			case d == "postgres" && before.Version[0] < 12 && c.NotNull && !lc.NotNull:
				required[k] = "setting NOT NULL"
			case d == "sqlserver" && c.Ident != "" && lc.Ident == "":
				required[k] = "adding IDENTITY to a column"
			}
		}
	}
	warned := map[key]bool{}
	for _, w := range warnings {
		var hits []key
		for k := range cols {
			table := ddl.QuoteIdentifier(d, k.table)
			if k.schema != before.Cur {
				table = ddl.QuoteIdentifier(d, k.schema) + "." + table
			}
			if !strings.HasPrefix(w, table+": ") {
				continue
			}
			rest := w[len(table)+1:]
			for _, c := range []string{strconv.Quote(k.col), strconv.Quote(ddl.QuoteIdentifier(d, k.col)), ddl.QuoteIdentifier(d, k.col)} {
				if strings.Contains(rest, "column "+c) {
					hits = append(hits, k)
					break
				}
			}
		}
		if len(hits) == 0 {
			return fmt.Sprintf("the warning names no table and column: %s", w)
		}
		ok := false
		for _, k := range hits {
			warned[k] = true
			ok = ok || required[k] != "" || allowed[k]
		}
		if !ok {
			return fmt.Sprintf("the warning is about a safe change: %s", w)
		}
	}
	for k, why := range required {
		if !warned[k] {
			return fmt.Sprintf("no warning for %s on %s.%s", why, k.table, k.col)
		}
		t.Count("warned", 1)
	}
	return ""
}

func g04JSON(db *vDB) []byte {
	b, err := json.MarshalIndent(db.catalog(), "", " ")
	must(err)
	return b
}

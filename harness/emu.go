package main

// Stand-ins for the Postgres, MySQL and SQL Server servers that are not
// available here: SQLite does the storage, and the statements these dialects
// phrase differently are translated or answered. Session variables live per
// connection, as on the servers.

import (
	"context"
	"database/sql/driver"
	"encoding/hex"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"sync"
)

type serverEmu struct {
	dialect string
	mu      sync.Mutex
	// defaults of session variables
	defaults map[string]string
	// log of SET statements, in order
	sets []string
	// identity bookkeeping statements seen
	misc []string
	// strict makes the emulation of MySQL's implicit commit etc. observable
	ddlInTx int
	// tables, when set, switches on the servers' rules about identity columns
	tables map[string]*emuTable
	// sequences of identity columns, by table and column
	seqs map[string]int64
	// connections whose session was written to
	seen map[*mconn]bool
	// onceOnly enforces that one INSERT ... ON CONFLICT DO UPDATE does not
	// touch a row twice
	onceOnly bool
}

// emuTable is what the emulated server knows about a table.
type emuTable struct {
	Schema, Name string
	Cols, Types  []string
	PK, Identity []string
	Always       bool // GENERATED ALWAYS
	Child        bool // (MySQL) its rows reference rows that are not there yet
}

// splitName splits a possibly qualified and quoted name.
func splitName(s string) (parts []string) {
	s = strings.TrimSpace(s)
	for s != "" {
		var part string
		switch s[0] {
		case '"', '`', '[':
			q := s[0]
			if q == '[' {
				q = ']'
			}
			i := 1
			for ; i < len(s); i++ {
				if s[i] == q {
					if i+1 < len(s) && s[i+1] == q {
						part += string(q)
						i++
						continue
					}
					break
				}
				part += s[i : i+1]
			}
			if i < len(s) {
				i++
			}
			s = s[i:]
		default:
			i := strings.IndexByte(s, '.')
			if i < 0 {
				i = len(s)
			}
			part = strings.ToLower(s[:i])
			s = s[i:]
		}
		parts = append(parts, part)
		s = strings.TrimPrefix(s, ".")
	}
	return parts
}

func (e *serverEmu) lookup(name string) *emuTable {
	parts := splitName(name)
	if len(parts) == 0 {
		return nil
	}
	t := e.tables[parts[len(parts)-1]]
	if t != nil && len(parts) > 1 && parts[0] != t.Schema {
		return nil
	}
	return t
}

// splitList splits a comma separated list of names.
func splitList(s string) (out []string) {
	for s != "" {
		i := 0
		quote := byte(0)
		for ; i < len(s); i++ {
			c := s[i]
			if quote != 0 {
				if c == quote {
					quote = 0
				}
				continue
			}
			if c == '"' || c == '`' {
				quote = c
			} else if c == '[' {
				quote = ']'
			} else if c == ',' {
				break
			}
		}
		out = append(out, strings.TrimSpace(s[:i]))
		if i < len(s) {
			i++
		}
		s = s[i:]
	}
	return out
}

func lastPart(s string) string {
	p := splitName(s)
	if len(p) == 0 {
		return ""
	}
	return p[len(p)-1]
}

const reIdent = "(?:\"(?:[^\"]|\"\")*\"|`(?:[^`]|``)*`|\\[(?:[^\\]]|\\]\\])*\\]|\\w+)"

var (
	reInsertHead = regexp.MustCompile(`(?is)^\s*INSERT\s+INTO\s+(` + reIdent + `(?:\.` + reIdent + `)?)\s*\(((?:` + reIdent + `|[\s,])*)\)(.*)$`)
	reSetvalCall = regexp.MustCompile(`(?is)^\s*SELECT\s+setval\(\s*pg_get_serial_sequence\(\s*\$1\s*,\s*\$2\s*\)\s*,\s*MAX\((` + reIdent + `)\)\s*\)\s*FROM\s+(` + reIdent + `(?:\.` + reIdent + `)?)\s*;?\s*$`)
	reAny        = regexp.MustCompile(`([\w.]+) = ANY\(([\w.]+)\)`)
)

type errServer string

func (e errServer) Error() string { return string(e) }

// rules applies the servers' rules about identity columns.
func (e *serverEmu) rules(c *mconn, query string) error {
	if e.tables == nil {
		return nil
	}
	if m := reInsertHead.FindStringSubmatch(query); m != nil {
		t := e.lookup(m[1])
		if t == nil {
			return errServer("no such table: " + m[1])
		}
		if t.Child && e.get(c, "foreign_key_checks") != "0" {
			return errServer("cannot add or update a child row: a foreign key constraint fails")
		}
		explicit := false
		for _, col := range splitList(m[2]) {
			if contains(t.Identity, lastPart(col)) {
				explicit = true
			}
		}
		if e.dialect == "postgres" && explicit && t.Always && !rePGOverride.MatchString(query) {
			return errServer("cannot insert a non-DEFAULT value into an identity column")
		}
		if e.dialect == "sqlserver" && explicit && c.session["identity_insert"] != t.Name {
			return errServer("cannot insert explicit value for identity column when IDENTITY_INSERT is set to OFF")
		}
		if e.dialect == "sqlserver" && !explicit && c.session["identity_insert"] == t.Name {
			return errServer("explicit value must be specified for identity column when IDENTITY_INSERT is set to ON")
		}
	}
	if m := reMSUpdate.FindStringSubmatch(query); m != nil && e.dialect == "sqlserver" {
		t := e.lookup(m[1])
		for _, set := range splitList(m[2]) {
			col, _, _ := strings.Cut(set, "=")
			if t != nil && contains(t.Identity, lastPart(col)) {
				return errServer("cannot update identity column " + col)
			}
		}
	}
	return nil
}

func (e *serverEmu) setval(c *mconn, ctx context.Context, query string, args []driver.NamedValue) error {
	m := reSetvalCall.FindStringSubmatch(query)
	if m == nil || len(args) != 2 {
		return errSyntax(query)
	}
	t := e.lookup(asStr(args[0].Value))
	if t == nil {
		return errServer("relation does not exist: " + asStr(args[0].Value))
	}
	// The column is taken literally, the table name is parsed.
	col := asStr(args[1].Value)
	if !contains(t.Identity, col) {
		return errServer("column " + col + " of relation does not exist")
	}
	if from := e.lookup(m[2]); from != t || lastPart(m[1]) != col {
		return errServer("setval of another table: " + query)
	}
	rows, err := c.c.QueryContext(ctx, "SELECT MAX("+m[1]+") FROM "+m[2], nil)
	if err != nil {
		return err
	}
	defer rows.Close()
	dest := make([]driver.Value, 1)
	if err := rows.Next(dest); err != nil {
		return err
	}
	if dest[0] != nil {
		n, err := strconv.ParseInt(asStr(dest[0]), 10, 64)
		if err != nil {
			return errServer("setval: " + err.Error())
		}
		e.mu.Lock()
		e.seqs[t.Name+"\x00"+col] = n
		e.mu.Unlock()
	}
	return nil
}

func newEmu(dialect string) *serverEmu {
	e := &serverEmu{dialect: dialect, defaults: map[string]string{}}
	switch dialect {
	case "postgres":
		e.defaults["lock_timeout"] = "7s"
		e.defaults["timezone"] = "Asia/Singapore"
	case "mysql":
		e.defaults["lock_wait_timeout"] = "31536000"
		e.defaults["foreign_key_checks"] = "1"
		e.defaults["time_zone"] = "SYSTEM"
	case "sqlserver":
		e.defaults["lock_timeout"] = "-1"
	}
	return e
}

func (e *serverEmu) get(c *mconn, name string) string {
	name = strings.ToLower(name)
	if v, ok := c.session[name]; ok {
		return v
	}
	return e.defaults[name]
}

var (
	reShow        = regexp.MustCompile(`(?i)^\s*SHOW\s+(\w+)\s*;?\s*$`)
	reSelVar      = regexp.MustCompile(`(?i)^\s*SELECT\s+@@(?:session\.)?(\w+)\s*;?\s*$`)
	reSetEq       = regexp.MustCompile(`(?is)^\s*SET\s+(?:SESSION\s+)?(?:@@)?(\w+)\s*(?:=|TO)\s*(.+?)\s*;?\s*$`)
	reSetLock     = regexp.MustCompile(`(?is)^\s*SET\s+LOCK_TIMEOUT\s+(-?\w+)\s*;?\s*$`)
	reSetIdentity = regexp.MustCompile(`(?is)^\s*SET\s+IDENTITY_INSERT\s+(.+?)\s+(ON|OFF)\s*;?\s*$`)
	reOnDup       = regexp.MustCompile(`(?is)\s+ON\s+DUPLICATE\s+KEY\s+UPDATE\s+(.*)$`)
	reValuesFn    = regexp.MustCompile("(?is)\\bVALUES\\((`(?:[^`]|``)*`|\\w+)\\)")
	reAddFK       = regexp.MustCompile(`(?is)^\s*ALTER\s+TABLE\s+.+?\s+ADD\s+CONSTRAINT\s+.+?\s+FOREIGN\s+KEY\b`)
	reEmptyIn     = regexp.MustCompile(`(?i)\bIN\s*\(\s*\)`)
	reTimeTypes   = regexp.MustCompile(`(?i)\b(DATETIMEOFFSET|TIMESTAMPTZ)\b`)
	reMSUpdate    = regexp.MustCompile(`(?is)^\s*UPDATE\s+(.+?)\s+WITH\s*\([^()]*\)\s*SET\s+(.+?)\s+FROM\s+(.+?)\s+JOIN\s*\(\s*VALUES\s+(.+?)\)\s*AS\s+(\w+)\s*\((.+?)\)\s*ON\s+(.+)$`)
	reMSInsert    = regexp.MustCompile(`(?is)^\s*INSERT\s+INTO\s+(.+?)\s+SELECT\s+(.+?)\s+FROM\s*\(\s*VALUES\s+(.+?)\)\s*AS\s+(\w+)\s*\((.+?)\)\s*WHERE\s+NOT\s+EXISTS\s*(.+)$`)
	reSetval      = regexp.MustCompile(`(?is)^\s*SELECT\s+setval\(`)
	rePGOverride  = regexp.MustCompile(`(?is)\s+OVERRIDING\s+SYSTEM\s+VALUE\b`)
	reExistsQuery = regexp.MustCompile(`(?is)\b(pg_class|information_schema\.tables|sys\.tables)\b`)
)

type emuResult struct{}

func (emuResult) LastInsertId() (int64, error) { return 0, nil }
func (emuResult) RowsAffected() (int64, error) { return 0, nil }

func (e *serverEmu) Query(c *mconn, ctx context.Context, query string, args []driver.NamedValue) (driver.Rows, bool, error) {
	if reEmptyIn.MatchString(query) {
		return nil, true, errSyntax(query)
	}
	if m := reShow.FindStringSubmatch(query); m != nil && e.dialect == "postgres" {
		return canned1(e.get(c, m[1])), true, nil
	}
	if m := reSelVar.FindStringSubmatch(query); m != nil && e.dialect != "postgres" {
		v := e.get(c, m[1])
		if n, err := strconv.ParseInt(v, 10, 64); err == nil {
			return canned1(n), true, nil
		}
		return canned1(v), true, nil
	}
	if reExistsQuery.MatchString(query) && regexp.MustCompile(`(?i)\bEXISTS\b`).MatchString(query) && len(args) == 1 {
		rows, err := c.c.QueryContext(ctx, "SELECT EXISTS (SELECT 1 FROM sqlite_schema WHERE type = 'table' AND tbl_name = $1)", args)
		return rows, true, err
	}
	if reSetval.MatchString(query) {
		if e.tables != nil {
			return canned1(int64(1)), true, e.setval(c, ctx, query, args)
		}
		e.mu.Lock()
		e.misc = append(e.misc, query)
		e.mu.Unlock()
		return canned1(int64(1)), true, nil
	}
	if q := strings.ToLower(strings.TrimSpace(query)); (q == "select database()" || q == "select schema_name()") && e.tables != nil {
		return canned1(emuSchema(e.dialect)), true, nil
	}
	if e.dialect == "postgres" && reAny.MatchString(query) {
		rows, err := c.c.QueryContext(ctx, reAny.ReplaceAllString(query, "in_array_($1, $2)"), args)
		return rows, true, err
	}
	if strings.Contains(strings.ToLower(query), "current_schema()") && len(args) == 0 {
		return canned1("public"), true, nil
	}
	return nil, false, nil
}

func unquoteLit(s string) string {
	s = strings.TrimSpace(s)
	if len(s) >= 2 && s[0] == '\'' && s[len(s)-1] == '\'' {
		return strings.ReplaceAll(s[1:len(s)-1], "''", "'")
	}
	return s
}

func (e *serverEmu) Exec(c *mconn, ctx context.Context, query string, args []driver.NamedValue) (driver.Result, bool, error) {
	e.mu.Lock()
	if e.seen == nil {
		e.seen = map[*mconn]bool{}
	}
	e.seen[c] = true
	e.mu.Unlock()
	if e.onceOnly {
		if m := reInsertHead.FindStringSubmatch(query); m != nil && strings.Contains(strings.ToUpper(query), "DO UPDATE") {
			t := e.lookup(m[1])
			cols := splitList(m[2])
			keys := map[string]bool{}
			for i := 0; t != nil && i+len(cols) <= len(args); i += len(cols) {
				k := ""
				for j, col := range cols {
					if contains(t.PK, lastPart(col)) {
						k += asStr(args[i+j].Value) + "\x00"
					}
				}
				if keys[k] {
					return nil, true, errServer("ON CONFLICT DO UPDATE command cannot affect row a second time")
				}
				keys[k] = true
			}
		}
	}
	record := func(name, val string) {
		e.mu.Lock()
		e.sets = append(e.sets, name+"="+val)
		e.mu.Unlock()
	}
	if m := reSetIdentity.FindStringSubmatch(query); m != nil && e.dialect == "sqlserver" {
		if e.tables != nil {
			t := e.lookup(m[1])
			if t == nil || len(t.Identity) == 0 {
				return nil, true, errServer("table " + m[1] + " does not have the identity property")
			}
			if strings.EqualFold(m[2], "ON") {
				if on := c.session["identity_insert"]; on != "" && on != t.Name {
					return nil, true, errServer("IDENTITY_INSERT is already ON for table " + on)
				}
				c.session["identity_insert"] = t.Name
			} else if c.session["identity_insert"] == t.Name {
				delete(c.session, "identity_insert")
			}
			return emuResult{}, true, nil
		}
		c.session["identity_insert "+m[1]] = strings.ToUpper(m[2])
		record("identity_insert "+m[1], strings.ToUpper(m[2]))
		return emuResult{}, true, nil
	}
	if m := reSetLock.FindStringSubmatch(query); m != nil && e.dialect == "sqlserver" {
		if _, err := strconv.Atoi(m[1]); err != nil {
			return nil, true, errSyntax(query)
		}
		c.session["lock_timeout"] = m[1]
		record("lock_timeout", m[1])
		return emuResult{}, true, nil
	}
	if m := reSetEq.FindStringSubmatch(query); m != nil && e.dialect != "sqlserver" && len(args) == 0 {
		name, val := strings.ToLower(m[1]), strings.TrimSpace(m[2])
		if e.dialect == "postgres" && !regexp.MustCompile(`^('([^']|'')*'|-?\d+|[A-Za-z_]\w*|"[^"]*")$`).MatchString(val) {
			return nil, true, errSyntax(query)
		}
		c.session[name] = unquoteLit(val)
		record(name, unquoteLit(val))
		return emuResult{}, true, nil
	}
	if reSetval.MatchString(query) {
		if e.tables != nil {
			return emuResult{}, true, e.setval(c, ctx, query, args)
		}
		e.mu.Lock()
		e.misc = append(e.misc, query)
		e.mu.Unlock()
		return emuResult{}, true, nil
	}
	if err := e.rules(c, query); err != nil {
		return nil, true, err
	}
	if reEmptyIn.MatchString(query) {
		return nil, true, errSyntax(query)
	}
	if e.dialect == "mysql" && reAddFK.MatchString(query) {
		// Rows are compared with the referenced ones unless the checks are off.
		if e.get(c, "foreign_key_checks") != "0" {
			return nil, true, errServer("cannot add a foreign key constraint: a child row has no parent")
		}
		record("fk", "added")
		return emuResult{}, true, nil
	}
	q := query
	if strings.HasPrefix(strings.TrimSpace(strings.ToUpper(q)), "CREATE TABLE") {
		q = reTimeTypes.ReplaceAllString(q, "TIMESTAMP")
	}
	switch e.dialect {
	case "postgres":
		q = rePGOverride.ReplaceAllString(q, "")
	case "mysql":
		if m := reOnDup.FindStringSubmatchIndex(q); m != nil {
			set := reValuesFn.ReplaceAllString(q[m[2]:m[3]], "excluded.$1")
			q = q[:m[0]] + " ON CONFLICT DO UPDATE SET " + set
		}
	case "sqlserver":
		if m := reMSUpdate.FindStringSubmatch(q); m != nil {
			q = "WITH " + m[5] + " (" + m[6] + ") AS (VALUES " + m[4] + ") UPDATE " + m[1] + " SET " + m[2] + " FROM " + m[5] + " WHERE " + m[7]
		} else if m := reMSInsert.FindStringSubmatch(q); m != nil {
			q = "WITH " + m[4] + " (" + m[5] + ") AS (VALUES " + m[3] + ") INSERT INTO " + m[1] + " SELECT " + m[2] + " FROM " + m[4] + " WHERE NOT EXISTS " + m[6]
		}
	}
	if len(args) > 32766 {
		// More than SQLite takes.
		q, args = inlineArgs(q, args), nil
	}
	if q == query {
		return nil, false, nil
	}
	res, err := c.c.ExecContext(ctx, q, args)
	return res, true, err
}

var reToken = regexp.MustCompile("'[^']*'|\"[^\"]*\"|`[^`]*`|\\?|\\$\\d+")

// inlineArgs puts the arguments in the place of the parameters.
func inlineArgs(query string, args []driver.NamedValue) string {
	i := 0
	return reToken.ReplaceAllStringFunc(query, func(s string) string {
		switch {
		case s == "?":
			i++
		case s[0] == '$':
			i, _ = strconv.Atoi(s[1:])
		default:
			return s
		}
		switch v := args[i-1].Value.(type) {
		case nil:
			return "NULL"
		case int64:
			return strconv.FormatInt(v, 10)
		case []byte:
			return "x'" + hex.EncodeToString(v) + "'"
		case string:
			return "'" + strings.ReplaceAll(v, "'", "''") + "'"
		default:
			panic(fmt.Sprintf("argument of type %T", v))
		}
	})
}

type errSyntax string

func (e errSyntax) Error() string { return "syntax error: " + string(e) }

func emuSchema(dialect string) string {
	switch dialect {
	case "postgres":
		return "public"
	case "mysql":
		return "app"
	case "sqlserver":
		return "dbo"
	}
	return ""
}

package main

// Interpreting DROP statements on the model database of an emulated server.

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
)

const reQName = reIdent + `(?:\.` + reIdent + `)?`

var (
	reDrop     = regexp.MustCompile(`(?is)^DROP\s+(MATERIALIZED\s+VIEW|VIEW|TABLE|PROCEDURE|FUNCTION|AGGREGATE|ROUTINE|TYPE|DOMAIN|EXTENSION)\s+(IF\s+EXISTS\s+)?(` + reQName + `)\s*(\(.*\))?\s*(CASCADE|RESTRICT)?$`)
	reDropCon  = regexp.MustCompile(`(?is)^ALTER\s+TABLE\s+(` + reQName + `)\s+DROP\s+(CONSTRAINT|FOREIGN\s+KEY)\s+(` + reIdent + `)\s*(CASCADE)?$`)
	reKeywords = map[string]bool{"order": true, "group": true, "select": true, "user": true, "table": true}
)

// resolve splits a name as the server would.
func (s *dbServer) resolve(name string) (schema, object string, err error) {
	for _, m := range regexp.MustCompile(reIdent).FindAllString(name, -1) {
		bare := m[0] != '"' && m[0] != '`' && m[0] != '['
		if bare && reKeywords[strings.ToLower(m)] {
			return "", "", errSyntax(name)
		}
		if s.dialect == "postgres" && (m[0] == '`' || m[0] == '[') || s.dialect == "mysql" && (m[0] == '"' || m[0] == '[') || s.dialect == "sqlserver" && m[0] == '`' {
			return "", "", errSyntax(name)
		}
	}
	parts := splitNameKeep(name, s.dialect == "postgres")
	if len(parts) == 1 {
		return s.cat.CurrentSchema, parts[0], nil
	}
	return parts[0], parts[1], nil
}

// splitNameKeep is splitName, folding unquoted names only if asked to.
func splitNameKeep(s string, fold bool) (out []string) {
	for _, m := range regexp.MustCompile(reIdent).FindAllString(s, -1) {
		p := splitName(m)
		if m[0] != '"' && m[0] != '`' && m[0] != '[' && !fold {
			p = []string{m}
		}
		out = append(out, p...)
	}
	return out
}

func (s *dbServer) schema(name string) *ddl.Schema {
	for i := range s.cat.Schemas {
		if s.cat.Schemas[i].SchemaName == name {
			return &s.cat.Schemas[i]
		}
	}
	return nil
}

// before tells whether the server is older than a version of MySQL.
func (s *dbServer) before(nums ...int) bool {
	if strings.Contains(s.version, "Maria") {
		return false
	}
	for i, n := range nums {
		if v := s.cat.VersionNums; i >= len(v) || v[i] != n {
			return i < len(v) && v[i] < n
		}
	}
	return false
}

func (s *dbServer) ddl(stmt string) error {
	if m := reDropCon.FindStringSubmatch(stmt); m != nil {
		schema, table, err := s.resolve(m[1])
		if err != nil {
			return err
		}
		if foreign := !strings.EqualFold(m[2], "CONSTRAINT"); s.dialect == "mysql" && !foreign && s.before(8, 0, 19) || s.dialect != "mysql" && foreign || m[4] != "" && s.dialect != "postgres" {
			return errSyntax(stmt)
		}
		con := splitNameKeep(m[3], s.dialect == "postgres")[0]
		if sc := s.schema(schema); sc != nil {
			for i := range sc.Tables {
				t := &sc.Tables[i]
				if t.TableName != table {
					continue
				}
				for j := range t.Constraints {
					if t.Constraints[j].ConstraintName == con {
						if t.Constraints[j].ConstraintType != "FOREIGN KEY" {
							return errServer("not a foreign key: " + stmt)
						}
						t.Constraints = append(t.Constraints[:j:j], t.Constraints[j+1:]...)
						return nil
					}
				}
			}
		}
		return errServer("no such constraint: " + stmt)
	}
	m := reDrop.FindStringSubmatch(stmt)
	if m == nil {
		return errSyntax(stmt)
	}
	kind := strings.ToUpper(strings.Join(strings.Fields(m[1]), " "))
	cascade := strings.EqualFold(m[5], "CASCADE")
	ifExists := m[2] != ""
	if cascade && s.dialect == "sqlserver" || cascade && s.dialect == "mysql" && kind != "TABLE" && kind != "VIEW" {
		return errSyntax(stmt)
	}
	schema, name, err := s.resolve(m[3])
	if err != nil {
		return err
	}
	missing := func() error {
		if ifExists {
			return nil
		}
		return errServer("does not exist: " + stmt)
	}
	if kind == "EXTENSION" {
		if s.dialect != "postgres" {
			return errSyntax(stmt)
		}
		for i, e := range s.cat.Extensions {
			if e == name {
				s.cat.Extensions = append(s.cat.Extensions[:i:i], s.cat.Extensions[i+1:]...)
				return nil
			}
		}
		return missing()
	}
	sc := s.schema(schema)
	if sc == nil {
		return missing()
	}
	if isSystem(s.dialect, schema) {
		return errServer("permission denied: " + stmt)
	}
	switch kind {
	case "VIEW", "MATERIALIZED VIEW":
		for i := range sc.Views {
			v := &sc.Views[i]
			if v.ViewName != name {
				continue
			}
			if v.IsMaterialized != (kind == "MATERIALIZED VIEW") {
				return errServer("wrong kind of view: " + stmt)
			}
			sc.Views = append(sc.Views[:i:i], sc.Views[i+1:]...)
			return nil
		}
	case "TABLE":
		for i := range sc.Tables {
			if sc.Tables[i].TableName != name {
				continue
			}
			// Foreign keys of other tables hold the table.
			for a := range s.cat.Schemas {
				for b := range s.cat.Schemas[a].Tables {
					t := &s.cat.Schemas[a].Tables[b]
					for c := 0; c < len(t.Constraints); c++ {
						con := &t.Constraints[c]
						if con.ConstraintType != "FOREIGN KEY" || con.ReferencesSchema != schema || con.ReferencesTable != name || t.TableSchema == schema && t.TableName == name {
							continue
						}
						if s.dialect != "postgres" || !cascade {
							return errServer(fmt.Sprintf("cannot drop table %s referenced by constraint %s", name, con.ConstraintName))
						}
						t.Constraints = append(t.Constraints[:c:c], t.Constraints[c+1:]...)
						c--
					}
				}
			}
			// Views may refer to any table.
			if s.dialect == "postgres" && !cascade && len(sc.Views) > 0 {
				return errServer("cannot drop table, views depend on it: " + stmt)
			}
			sc.Tables = append(sc.Tables[:i:i], sc.Tables[i+1:]...)
			return nil
		}
	case "PROCEDURE", "FUNCTION", "ROUTINE", "AGGREGATE":
		var found []int
		for i := range sc.Routines {
			r := &sc.Routines[i]
			typ := r.RoutineType
			if typ == "WINDOW" {
				typ = "FUNCTION"
			}
			if r.RoutineName != name || kind != "ROUTINE" && typ != kind && s.dialect != "postgres" {
				continue
			}
			if m[4] != "" {
				if s.dialect != "postgres" {
					return errSyntax(stmt)
				}
				args := strings.TrimSpace(m[4][1 : len(m[4])-1])
				if kind == "AGGREGATE" {
					if args == "" {
						return errSyntax(stmt)
					}
					if args == "*" {
						args = ""
					}
				}
				if args != r.IdentityArguments {
					continue
				}
			} else if kind == "AGGREGATE" {
				return errSyntax(stmt)
			}
			if kind != "ROUTINE" && typ != kind {
				return errServer("wrong kind of routine: " + stmt)
			}
			found = append(found, i)
		}
		if len(found) > 1 {
			return errServer(fmt.Sprintf("function name %q is not unique", name))
		}
		if len(found) == 1 {
			i := found[0]
			sc.Routines = append(sc.Routines[:i:i], sc.Routines[i+1:]...)
			return nil
		}
	case "TYPE", "DOMAIN":
		if s.dialect != "postgres" {
			return errSyntax(stmt)
		}
		used := false
		for i := range sc.Tables {
			for _, c := range sc.Tables[i].Columns {
				if c.DomainName == name || c.IsEnum && lastPart(c.ColumnType) == name {
					used = true
				}
			}
		}
		if used && !cascade {
			return errServer("type is in use: " + stmt)
		}
		for i := range sc.Enums {
			if sc.Enums[i].EnumName == name {
				if kind == "DOMAIN" {
					return errServer("not a domain: " + stmt)
				}
				sc.Enums = append(sc.Enums[:i:i], sc.Enums[i+1:]...)
				return nil
			}
		}
		for i := range sc.Domains {
			if sc.Domains[i].DomainName == name {
				sc.Domains = append(sc.Domains[:i:i], sc.Domains[i+1:]...)
				return nil
			}
		}
	}
	return missing()
}

From b0af6e96a009ddcc56696753c87a2a3b25def3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:48 +0000
Subject: [PATCH 001/152] fix: escape every quote, including ones that are
 already doubled

EscapeQuote treated two adjacent quotes as an already escaped quote, so a
name or string that really contains two adjacent quotes was changed.
---
 ddl/sq.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ddl/sq.go b/ddl/sq.go
index dcfe810..008ec0b 100644
--- a/ddl/sq.go
+++ b/ddl/sq.go
@@ -90,11 +90,7 @@ func EscapeQuote(str string, quote byte) string {
 		b.WriteString(str[:i])
 		b.WriteByte(quote)
 		b.WriteByte(quote)
-		if len(str[i:]) > 2 && str[i] == quote && str[i+1] == quote {
-			str = str[i+2:]
-		} else {
-			str = str[i+1:]
-		}
+		str = str[i+1:]
 		i = strings.IndexByte(str, quote)
 	}
 	b.WriteString(str)
-- 
2.43.0


From 685dd4424da6b9bf09de14e98bb6bbfc3971d799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:18 +0000
Subject: [PATCH 002/152] fix: run a migration once even if its filename is
 given twice

A repeated filename was executed once per mention, because only the last
mention was matched against the history table. touch failed on Postgres
and SQL Server, where one upsert may not affect the same row twice.
---
 ddl/migrate_cmd.go |  2 +-
 ddl/touch_cmd.go   | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index bb9f16e..d668c6b 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -203,7 +203,7 @@ func (cmd *MigrateCmd) Run() error {
 			return err
 		}
 	}
-	cmd.Filenames = sortAndFilterFilenames(cmd.Filenames)
+	cmd.Filenames = removeDuplicates(sortAndFilterFilenames(cmd.Filenames))
 	migrations := make([]migration, len(cmd.Filenames))
 	cache := make(map[string]int)
 	for i, filename := range cmd.Filenames {
diff --git a/ddl/touch_cmd.go b/ddl/touch_cmd.go
index 5e521ce..3c0b423 100644
--- a/ddl/touch_cmd.go
+++ b/ddl/touch_cmd.go
@@ -134,7 +134,7 @@ func (cmd *TouchCmd) Run() error {
 			return err
 		}
 	}
-	cmd.Filenames = sortAndFilterFilenames(cmd.Filenames)
+	cmd.Filenames = removeDuplicates(sortAndFilterFilenames(cmd.Filenames))
 
 	// Upsert the rowvalues.
 	bi := BatchInsert{
@@ -322,6 +322,20 @@ func normalizeFilename(filename, dir string) string {
 	return strings.TrimPrefix(strings.TrimPrefix(filename, dir), "/")
 }
 
+// removeDuplicates removes repeated filenames, keeping the first of each.
+func removeDuplicates(filenames []string) []string {
+	seen := make(map[string]struct{}, len(filenames))
+	result := make([]string, 0, len(filenames))
+	for _, filename := range filenames {
+		if _, ok := seen[filename]; ok {
+			continue
+		}
+		seen[filename] = struct{}{}
+		result = append(result, filename)
+	}
+	return result
+}
+
 func sortAndFilterFilenames(filenames []string) []string {
 	result := make([]string, 0, len(filenames))
 	repeatable := make([]string, 0, len(filenames))
-- 
2.43.0


From 6bea19458ba7e49209052a307927a2139faeb065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:32 +0000
Subject: [PATCH 003/152] fix: quote the Postgres lock_timeout value when
 restoring it

SHOW lock_timeout reports a value with a unit, such as 7s, which is only
accepted by SET as a quoted string. migrate failed after having applied
every migration whenever the session had a lock_timeout of its own.
---
 ddl/migrate_cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index d668c6b..04e5846 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -264,7 +264,7 @@ func (cmd *MigrateCmd) Run() error {
 	milliseconds := strconv.FormatInt(cmd.LockTimeout.Milliseconds(), 10)
 	switch cmd.Dialect {
 	case DialectPostgres:
-		restoreSessionValue, err = setSessionValue(cmd.Ctx, conn, "SHOW lock_timeout", "SET lock_timeout = %s", milliseconds)
+		restoreSessionValue, err = setSessionValue(cmd.Ctx, conn, "SHOW lock_timeout", "SET lock_timeout = '%s'", milliseconds)
 	case DialectMySQL:
 		restoreSessionValue, err = setSessionValue(cmd.Ctx, conn, "SELECT @@lock_wait_timeout", "SET lock_wait_timeout = %s", seconds)
 	case DialectSQLServer:
-- 
2.43.0


From 954608d8688b9be3270aa008310c5edafa44b416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:20 +0000
Subject: [PATCH 004/152] fix: compute the lock timeout retry delay for any
 base delay

The delay was computed in whole seconds, which panics for a base delay
below half a second, and the exponential multiplier overflowed for a large
number of attempts.
---
 ddl/migrate_cmd.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index 04e5846..ef4f1e7 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -393,8 +393,11 @@ func (cmd *MigrateCmd) runWithRetry(conn *sql.Conn, queue []migration) error {
 				fmt.Fprintf(cmd.Stderr, queue[stoppedAt].filename+": attempt %d/%d timed out\n", attempts, cmd.MaxAttempts)
 				return fmt.Errorf("%s: %w", queue[stoppedAt].filename, migrationErr)
 			}
-			multiplier := int(math.Exp2(float64(attempts)))
-			delay := time.Duration(rng.Intn(int(cmd.BaseDelay*time.Duration(multiplier)/time.Second))) * time.Second
+			maxDelay := float64(cmd.BaseDelay) * math.Exp2(float64(attempts))
+			if maxDelay > float64(cmd.MaxDelay) {
+				maxDelay = float64(cmd.MaxDelay)
+			}
+			delay := time.Duration(rng.Int63n(int64(maxDelay) + 1))
 			if delay < cmd.BaseDelay {
 				delay = cmd.BaseDelay
 			} else if delay > cmd.MaxDelay {
-- 
2.43.0


From 2c497f56f96fcc0d6b7f6825e9b55dcfeb3d1f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:32 +0000
Subject: [PATCH 005/152] fix: guard the shared random generator of migrate
 retries

Migrations retried at the same time in one process used the same
generator without synchronisation.
---
 ddl/migrate_cmd.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index ef4f1e7..44cedb5 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -17,6 +17,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -340,6 +341,9 @@ type migration struct {
 // https://www.reddit.com/r/golang/comments/ntyi7i/what_is_the_reason_go_chose_to_use_a_constant_as/h0w0tu7/
 var rng = rand.New(rand.NewSource(int64(new(maphash.Hash).Sum64())))
 
+// rngMu guards rng, which is shared by all MigrateCmds.
+var rngMu sync.Mutex
+
 // MigrationError is returned by (*MigrateCmd).Run() if any errors were
 // encountered when running a migration script (SQL syntax errors, violated
 // constraints, etc).
@@ -397,7 +401,9 @@ func (cmd *MigrateCmd) runWithRetry(conn *sql.Conn, queue []migration) error {
 			if maxDelay > float64(cmd.MaxDelay) {
 				maxDelay = float64(cmd.MaxDelay)
 			}
+			rngMu.Lock()
 			delay := time.Duration(rng.Int63n(int64(maxDelay) + 1))
+			rngMu.Unlock()
 			if delay < cmd.BaseDelay {
 				delay = cmd.BaseDelay
 			} else if delay > cmd.MaxDelay {
-- 
2.43.0


From 61531187a24de93d4e72098f3027a035251f82d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:43 +0000
Subject: [PATCH 006/152] fix: report lock timeouts that happen when a
 transaction starts

A lock timeout while beginning a transaction made the retry loop index the
queue with -1. Filenames are also no longer used as a format string.
---
 ddl/migrate_cmd.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index 44cedb5..6c4ff19 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -393,8 +393,11 @@ func (cmd *MigrateCmd) runWithRetry(conn *sql.Conn, queue []migration) error {
 		attempts++
 		stoppedAt, migrationErr := cmd.run(conn, queue)
 		if migrationErr != nil && isRetryable && cmd.driver.IsLockTimeout != nil && cmd.driver.IsLockTimeout(migrationErr) {
+			if stoppedAt < 0 {
+				stoppedAt = 0
+			}
 			if attempts >= cmd.MaxAttempts {
-				fmt.Fprintf(cmd.Stderr, queue[stoppedAt].filename+": attempt %d/%d timed out\n", attempts, cmd.MaxAttempts)
+				fmt.Fprintf(cmd.Stderr, "%s: attempt %d/%d timed out\n", queue[stoppedAt].filename, attempts, cmd.MaxAttempts)
 				return fmt.Errorf("%s: %w", queue[stoppedAt].filename, migrationErr)
 			}
 			maxDelay := float64(cmd.BaseDelay) * math.Exp2(float64(attempts))
@@ -409,7 +412,7 @@ func (cmd *MigrateCmd) runWithRetry(conn *sql.Conn, queue []migration) error {
 			} else if delay > cmd.MaxDelay {
 				delay = cmd.MaxDelay
 			}
-			fmt.Fprintf(cmd.Stderr, queue[stoppedAt].filename+": attempt %d/%d timed out, retrying in %s\n", attempts, cmd.MaxAttempts, delay.String())
+			fmt.Fprintf(cmd.Stderr, "%s: attempt %d/%d timed out, retrying in %s\n", queue[stoppedAt].filename, attempts, cmd.MaxAttempts, delay.String())
 			time.Sleep(delay)
 			continue
 		}
-- 
2.43.0


From 4e0c4db9b0832da072450b439fa4ec0001208baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:54 +0000
Subject: [PATCH 007/152] fix: run the undo script of a failed single statement
 migration

A non-transactional migration made of one statement, such as the CREATE
INDEX CONCURRENTLY files written by generate, never had its undo script
called when it failed.
---
 ddl/migrate_cmd.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index 6c4ff19..a1f60db 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -398,6 +398,9 @@ func (cmd *MigrateCmd) runWithRetry(conn *sql.Conn, queue []migration) error {
 			}
 			if attempts >= cmd.MaxAttempts {
 				fmt.Fprintf(cmd.Stderr, "%s: attempt %d/%d timed out\n", queue[stoppedAt].filename, attempts, cmd.MaxAttempts)
+				if !isTx {
+					migrationErr = cmd.undo(conn, queue[0], migrationErr)
+				}
 				return fmt.Errorf("%s: %w", queue[stoppedAt].filename, migrationErr)
 			}
 			maxDelay := float64(cmd.BaseDelay) * math.Exp2(float64(attempts))
@@ -417,7 +420,7 @@ func (cmd *MigrateCmd) runWithRetry(conn *sql.Conn, queue []migration) error {
 			continue
 		}
 		if migrationErr != nil {
-			if !isRetryable {
+			if !isTx {
 				migrationErr = cmd.undo(conn, queue[0], migrationErr)
 			}
 			if stoppedAt < 0 {
-- 
2.43.0


From f02e87bce1dafa7b0b0288beb8c3734650560cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:05 +0000
Subject: [PATCH 008/152] fix: report errors of mv

A rename that the database refused, for example because the destination
is already recorded, was reported as success.
---
 ddl/mv_cmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddl/mv_cmd.go b/ddl/mv_cmd.go
index 29cde10..25af152 100644
--- a/ddl/mv_cmd.go
+++ b/ddl/mv_cmd.go
@@ -123,11 +123,11 @@ func (cmd *MvCmd) Run() error {
 	b.WriteString(" WHERE filename = '" + EscapeQuote(cmd.SrcFilename, '\'') + "'")
 	result, err := cmd.DB.Exec(b.String())
 	if err != nil {
-		return nil
+		return err
 	}
 	rowsAffected, err := result.RowsAffected()
 	if err != nil {
-		return nil
+		return err
 	}
 	fmt.Fprintln(cmd.Stderr, strconv.FormatInt(rowsAffected, 10)+" rows affected")
 	if err != nil {
-- 
2.43.0


From 23a1e58b9668d59b41298ecc1061fb0934cedd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:16 +0000
Subject: [PATCH 009/152] fix: do not query the history table with an empty
 filename list

migrate and ls sent 'filename IN ()' for a directory without migrations,
which is a syntax error on every database except SQLite.
---
 ddl/ls_cmd.go      | 16 +++++++++-------
 ddl/migrate_cmd.go |  3 +++
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/ddl/ls_cmd.go b/ddl/ls_cmd.go
index 69f8b4a..922385c 100644
--- a/ddl/ls_cmd.go
+++ b/ddl/ls_cmd.go
@@ -148,7 +148,7 @@ func (cmd *LsCmd) Run() error {
 	if err != nil {
 		return err
 	}
-	if exists {
+	if exists && len(filenames) > 0 {
 		var b strings.Builder
 		b.WriteString("SELECT filename, checksum, started_at, time_taken_ns, success")
 		b.WriteString(" FROM " + QuoteIdentifier(cmd.Dialect, cmd.HistoryTable))
@@ -245,14 +245,16 @@ func (cmd *LsCmd) Run() error {
 		var b strings.Builder
 		b.WriteString("SELECT filename")
 		b.WriteString(" FROM " + QuoteIdentifier(cmd.Dialect, cmd.HistoryTable))
-		b.WriteString(" WHERE filename NOT IN (")
-		for i, filename := range filenames {
-			if i > 0 {
-				b.WriteString(", ")
+		if len(filenames) > 0 {
+			b.WriteString(" WHERE filename NOT IN (")
+			for i, filename := range filenames {
+				if i > 0 {
+					b.WriteString(", ")
+				}
+				b.WriteString("'" + EscapeQuote(filename, '\'') + "'")
 			}
-			b.WriteString("'" + EscapeQuote(filename, '\'') + "'")
+			b.WriteString(")")
 		}
-		b.WriteString(")")
 		b.WriteString(" ORDER BY CASE WHEN filename LIKE 'repeatable/%' THEN 1 ELSE 0 END, filename")
 		rows, err := cmd.DB.Query(b.String())
 		if err != nil {
diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index a1f60db..47425b6 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -217,6 +217,9 @@ func (cmd *MigrateCmd) Run() error {
 		if err != nil {
 			return err
 		}
+		if len(cmd.Filenames) == 0 {
+			return nil
+		}
 		var b strings.Builder
 		b.WriteString("SELECT filename, checksum, started_at, time_taken_ns, success")
 		b.WriteString(" FROM " + QuoteIdentifier(cmd.Dialect, cmd.HistoryTable))
-- 
2.43.0


From 345d36127b1ba48b3d66dcdbfdba02e051628e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:27 +0000
Subject: [PATCH 010/152] fix: notice a failure while reading the history table

An error in the middle of the result set was ignored, so migrate ran
migrations again whose history rows it did not get to see.
---
 ddl/ls_cmd.go      | 4 ++--
 ddl/migrate_cmd.go | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ddl/ls_cmd.go b/ddl/ls_cmd.go
index 922385c..9834d00 100644
--- a/ddl/ls_cmd.go
+++ b/ddl/ls_cmd.go
@@ -185,7 +185,7 @@ func (cmd *LsCmd) Run() error {
 				}
 			}
 		}
-		err = rows.Close()
+		err = closeRows(rows)
 		if err != nil {
 			return err
 		}
@@ -272,7 +272,7 @@ func (cmd *LsCmd) Run() error {
 				return err
 			}
 		}
-		err = rows.Close()
+		err = closeRows(rows)
 		if err != nil {
 			return err
 		}
diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index 47425b6..2b4812a 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -256,6 +256,10 @@ func (cmd *MigrateCmd) Run() error {
 				}
 			}
 		}
+		err = closeRows(rows)
+		if err != nil {
+			return err
+		}
 	}
 
 	conn, err := cmd.DB.Conn(cmd.Ctx)
-- 
2.43.0


From 12566ac3d1a3d159124005f2b2e78f952e2f39f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:51 +0000
Subject: [PATCH 011/152] fix: generate a migration when the only change to a
 table is a dropped column

---
 ddl/mysql_migration.go     | 1 +
 ddl/postgres_migration.go  | 1 +
 ddl/sqlite_migration.go    | 1 +
 ddl/sqlserver_migration.go | 1 +
 4 files changed, 4 insertions(+)

diff --git a/ddl/mysql_migration.go b/ddl/mysql_migration.go
index cdf9584..9f191ca 100644
--- a/ddl/mysql_migration.go
+++ b/ddl/mysql_migration.go
@@ -256,6 +256,7 @@ func newMySQLMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) mysql
 			}
 			if len(alterTable.dropConstraints) > 0 ||
 				len(alterTable.dropIndexes) > 0 ||
+				len(alterTable.dropColumns) > 0 ||
 				len(alterTable.addColumns) > 0 ||
 				len(alterTable.alterColumns) > 0 ||
 				len(alterTable.createIndexes) > 0 ||
diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index 75da68c..b433258 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -353,6 +353,7 @@ func newPostgresMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) po
 			}
 			if len(alterTable.dropConstraints) > 0 ||
 				len(alterTable.dropIndexes) > 0 ||
+				len(alterTable.dropColumns) > 0 ||
 				len(alterTable.addColumns) > 0 ||
 				len(alterTable.alterColumns) > 0 ||
 				len(alterTable.alterConstraints) > 0 ||
diff --git a/ddl/sqlite_migration.go b/ddl/sqlite_migration.go
index 19175b1..318d015 100644
--- a/ddl/sqlite_migration.go
+++ b/ddl/sqlite_migration.go
@@ -218,6 +218,7 @@ func newSQLiteMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) sqli
 		}
 		if len(alterTable.dropConstraints) > 0 ||
 			len(alterTable.dropIndexes) > 0 ||
+			len(alterTable.dropColumns) > 0 ||
 			len(alterTable.addColumns) > 0 ||
 			len(alterTable.alterColumns) > 0 ||
 			len(alterTable.createIndexes) > 0 ||
diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 5d0b1e6..2987692 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -433,6 +433,7 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 
 			if len(alterTable.dropConstraints) > 0 ||
 				len(alterTable.dropIndexes) > 0 ||
+				len(alterTable.dropColumns) > 0 ||
 				len(alterTable.addColumns) > 0 ||
 				len(alterTable.alterColumns) > 0 ||
 				len(alterTable.createIndexes) > 0 ||
-- 
2.43.0


From 66d9f8ae0247e4b45e9ba08f2c8d59a187dd1a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:03 +0000
Subject: [PATCH 012/152] fix: introspect SQLite tables whose name starts with
 sqlite but is not reserved

---
 ddl/introspection_scripts/sqlite_columns.sql     | 2 +-
 ddl/introspection_scripts/sqlite_constraints.sql | 6 +++---
 ddl/introspection_scripts/sqlite_indexes.sql     | 2 +-
 ddl/introspection_scripts/sqlite_tables.sql      | 4 ++--
 ddl/introspection_scripts/sqlite_triggers.sql    | 2 +-
 ddl/introspection_scripts/sqlite_views.sql       | 2 +-
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/ddl/introspection_scripts/sqlite_columns.sql b/ddl/introspection_scripts/sqlite_columns.sql
index 30ed9e5..711f8f7 100644
--- a/ddl/introspection_scripts/sqlite_columns.sql
+++ b/ddl/introspection_scripts/sqlite_columns.sql
@@ -13,7 +13,7 @@ FROM (
     WHERE
         type = 'table'
         {{- if not .IncludeSystemCatalogs }}
-        AND tbl_name NOT LIKE 'sqlite_%' AND sql NOT LIKE 'CREATE TABLE ''%'
+        AND tbl_name NOT LIKE 'sqlite\_%' ESCAPE '\' AND sql NOT LIKE 'CREATE TABLE ''%'
         {{- end }}
         {{- if .Tables }}
         AND tbl_name IN ({{ mklist .Tables }})
diff --git a/ddl/introspection_scripts/sqlite_constraints.sql b/ddl/introspection_scripts/sqlite_constraints.sql
index ba35d12..b9d3d5a 100644
--- a/ddl/introspection_scripts/sqlite_constraints.sql
+++ b/ddl/introspection_scripts/sqlite_constraints.sql
@@ -30,7 +30,7 @@ FROM (
         WHERE
             type = 'table'
             {{- if not .IncludeSystemCatalogs }}
-            AND tbl_name NOT LIKE 'sqlite_%' AND sql NOT LIKE 'CREATE TABLE ''%'
+            AND tbl_name NOT LIKE 'sqlite\_%' ESCAPE '\' AND sql NOT LIKE 'CREATE TABLE ''%'
             {{- end }}
             {{- if .Tables }}
             AND tbl_name IN ({{ mklist .Tables }})
@@ -71,7 +71,7 @@ FROM (
         WHERE
             type = 'table'
             {{- if not .IncludeSystemCatalogs }}
-            AND tbl_name NOT LIKE 'sqlite_%' AND sql NOT LIKE 'CREATE TABLE ''%'
+            AND tbl_name NOT LIKE 'sqlite\_%' ESCAPE '\' AND sql NOT LIKE 'CREATE TABLE ''%'
             {{- end }}
             {{- if .Tables }}
             AND tbl_name IN ({{ mklist .Tables }})
@@ -118,7 +118,7 @@ FROM (
         WHERE
             type = 'table'
             {{- if not .IncludeSystemCatalogs }}
-            AND tbl_name NOT LIKE 'sqlite_%' AND sql NOT LIKE 'CREATE TABLE ''%'
+            AND tbl_name NOT LIKE 'sqlite\_%' ESCAPE '\' AND sql NOT LIKE 'CREATE TABLE ''%'
             {{- end }}
             {{- if .Tables }}
             AND tbl_name IN ({{ mklist .Tables }})
diff --git a/ddl/introspection_scripts/sqlite_indexes.sql b/ddl/introspection_scripts/sqlite_indexes.sql
index 6bc8f78..8591523 100644
--- a/ddl/introspection_scripts/sqlite_indexes.sql
+++ b/ddl/introspection_scripts/sqlite_indexes.sql
@@ -24,7 +24,7 @@ FROM (
         WHERE
             type = 'table'
             {{- if not .IncludeSystemCatalogs }}
-            AND tbl_name NOT LIKE 'sqlite_%' AND sql NOT LIKE 'CREATE TABLE ''%'
+            AND tbl_name NOT LIKE 'sqlite\_%' ESCAPE '\' AND sql NOT LIKE 'CREATE TABLE ''%'
             {{- end }}
             {{- if .Tables }}
             AND tbl_name IN ({{ mklist .Tables }})
diff --git a/ddl/introspection_scripts/sqlite_tables.sql b/ddl/introspection_scripts/sqlite_tables.sql
index 516bcc0..e5d5e6b 100644
--- a/ddl/introspection_scripts/sqlite_tables.sql
+++ b/ddl/introspection_scripts/sqlite_tables.sql
@@ -7,9 +7,9 @@ WHERE
     type = 'table'
     {{- if not .IncludeSystemCatalogs }}
     {{- if .VersionNums.LowerThan 3 37 }}
-    AND m.tbl_name NOT LIKE 'sqlite_%' AND m.sql NOT LIKE 'CREATE TABLE ''%'
+    AND m.tbl_name NOT LIKE 'sqlite\_%' ESCAPE '\' AND m.sql NOT LIKE 'CREATE TABLE ''%'
     {{- else }}
-    AND m.tbl_name NOT LIKE 'sqlite_%' AND EXISTS (
+    AND m.tbl_name NOT LIKE 'sqlite\_%' ESCAPE '\' AND EXISTS (
         SELECT 1
         FROM pragma_table_list AS tl
         WHERE tl."type" IN ('table', 'virtual') AND tl.schema = 'main' AND tl.name = m.tbl_name
diff --git a/ddl/introspection_scripts/sqlite_triggers.sql b/ddl/introspection_scripts/sqlite_triggers.sql
index dfc218a..79679be 100644
--- a/ddl/introspection_scripts/sqlite_triggers.sql
+++ b/ddl/introspection_scripts/sqlite_triggers.sql
@@ -7,7 +7,7 @@ FROM
 WHERE
     type = 'trigger'
     {{- if not .IncludeSystemCatalogs }}
-    AND tbl_name NOT LIKE 'sqlite_%' AND sql NOT LIKE 'CREATE TABLE ''%'
+    AND tbl_name NOT LIKE 'sqlite\_%' ESCAPE '\' AND sql NOT LIKE 'CREATE TABLE ''%'
     {{- end }}
     {{- if .Tables }}
     AND tbl_name IN ({{ mklist .Tables }})
diff --git a/ddl/introspection_scripts/sqlite_views.sql b/ddl/introspection_scripts/sqlite_views.sql
index 140d513..cc2626a 100644
--- a/ddl/introspection_scripts/sqlite_views.sql
+++ b/ddl/introspection_scripts/sqlite_views.sql
@@ -12,7 +12,7 @@ FROM (
     WHERE
         type = 'view'
         {{- if not .IncludeSystemCatalogs }}
-        AND tbl_name NOT LIKE 'sqlite_%' AND sql NOT LIKE 'CREATE TABLE ''%'
+        AND tbl_name NOT LIKE 'sqlite\_%' ESCAPE '\' AND sql NOT LIKE 'CREATE TABLE ''%'
         {{- end }}
         {{- if .Views }}
         AND tbl_name IN ({{ mklist .Views }})
-- 
2.43.0


From f16e31ab69dac65bf600b4aaa30a666c9c67b946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:14 +0000
Subject: [PATCH 013/152] fix: compare SQLite column types case insensitively

---
 ddl/sqlite_migration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/sqlite_migration.go b/ddl/sqlite_migration.go
index 318d015..af88a27 100644
--- a/ddl/sqlite_migration.go
+++ b/ddl/sqlite_migration.go
@@ -176,7 +176,7 @@ func newSQLiteMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) sqli
 				continue
 			}
 			columnsAreDifferent := func() bool {
-				if srcColumn.ColumnType != destColumn.ColumnType {
+				if !strings.EqualFold(srcColumn.ColumnType, destColumn.ColumnType) {
 					return true
 				}
 				srcDefault := normalizeColumnDefault(dialect, srcColumn.ColumnDefault)
-- 
2.43.0


From 39e1fb2f911c5bc3af33ccb49b1aef63ff37f0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:48 +0000
Subject: [PATCH 014/152] fix: copy SQLite tables whose CREATE TABLE statement
 quotes the table name

---
 ddl/sqlite_migration.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/ddl/sqlite_migration.go b/ddl/sqlite_migration.go
index af88a27..f44ab8e 100644
--- a/ddl/sqlite_migration.go
+++ b/ddl/sqlite_migration.go
@@ -375,6 +375,39 @@ func (m *sqliteMigration) sql(prefix string) (filenames []string, bufs []*bytes.
 	return filenames, bufs, warnings
 }
 
+// renameCreateTable replaces the table name in a CREATE TABLE statement, which
+// SQLite stores the way the user quoted it.
+func renameCreateTable(query string, tableName string) string {
+	const prefix = "CREATE TABLE "
+	if !strings.HasPrefix(query, prefix) {
+		return query
+	}
+	oldName := query[len(prefix):]
+	n := strings.IndexAny(oldName, " \t\r\n(")
+	if oldName != "" && strings.IndexByte("\"`'[", oldName[0]) >= 0 {
+		quote := oldName[0]
+		if quote == '[' {
+			quote = ']'
+		}
+		n = -1
+		for i := 1; i < len(oldName); i++ {
+			if oldName[i] != quote {
+				continue
+			}
+			if quote != ']' && i+1 < len(oldName) && oldName[i+1] == quote {
+				i++
+				continue
+			}
+			n = i + 1
+			break
+		}
+	}
+	if n < 0 {
+		return query
+	}
+	return prefix + tableName + oldName[n:]
+}
+
 func (alterTable *sqliteAlterTable) copyTable(buf *bytes.Buffer) {
 	const (
 		dialect          = DialectSQLite
@@ -387,7 +420,7 @@ func (alterTable *sqliteAlterTable) copyTable(buf *bytes.Buffer) {
 	// CREATE "${TableName}_new".
 	tableNew := *alterTable.destTable
 	tableNew.TableName = alterTable.destTable.TableName + "_new"
-	tableNew.SQL = strings.Replace(alterTable.destTable.SQL, "CREATE TABLE "+tableName, "CREATE TABLE "+tableNameNew, 1)
+	tableNew.SQL = renameCreateTable(alterTable.destTable.SQL, tableNameNew)
 	writeCreateTable(dialect, buf, currentSchema, defaultCollation, &tableNew, true)
 
 	// INSERT INTO "${TableName}_new" SELECT ... FROM "$TableName".
-- 
2.43.0


From 6c8618862ce74c757dee0416bfe2343848b3af7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:52 +0000
Subject: [PATCH 015/152] fix: copy the SQLite table when dropping a column
 that has a table-level foreign key

---
 ddl/sqlite_migration.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ddl/sqlite_migration.go b/ddl/sqlite_migration.go
index f44ab8e..bc870ff 100644
--- a/ddl/sqlite_migration.go
+++ b/ddl/sqlite_migration.go
@@ -270,7 +270,9 @@ func (m *sqliteMigration) sql(prefix string) (filenames []string, bufs []*bytes.
 				copyTable[i], hasCopyTable = true, true
 				continue
 			}
-			if !alterTable.columnIsDropped[constraint.Columns[0]] {
+			// ALTER TABLE DROP COLUMN cannot remove a column that is part of a
+			// table-level FOREIGN KEY definition.
+			if !alterTable.columnIsDropped[constraint.Columns[0]] || strings.Contains(strings.ToUpper(alterTable.srcTable.SQL), "FOREIGN") {
 				copyTable[i], hasCopyTable = true, true
 				continue
 			}
-- 
2.43.0


From 8d5094aa6db3af89579f27e95112c560695c5900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:02 +0000
Subject: [PATCH 016/152] fix: recognise expressions such as (1) + (2) that are
 not wrapped in brackets

---
 ddl/ddl.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/ddl/ddl.go b/ddl/ddl.go
index 8a07751..1b79ab7 100644
--- a/ddl/ddl.go
+++ b/ddl/ddl.go
@@ -643,7 +643,7 @@ func wrapBrackets(s string) string {
 	if s == "" {
 		return ""
 	}
-	if s[0] == '(' && s[len(s)-1] == ')' {
+	if wrappedInBrackets(s) {
 		return s
 	}
 	return "(" + s + ")"
@@ -654,14 +654,38 @@ func unwrapBrackets(s string) string {
 		return ""
 	}
 	last := len(s) - 1
-	if s[0] == '(' && s[last] == ')' {
+	if wrappedInBrackets(s) {
 		return s[1:last]
 	}
 	return s
 }
 
 func wrappedInBrackets(s string) bool {
-	return s != "" && s[0] == '(' && s[len(s)-1] == ')'
+	if s == "" || s[0] != '(' || s[len(s)-1] != ')' {
+		return false
+	}
+	// The first bracket must be closed by the last one: (1) + (2) is not
+	// wrapped in brackets.
+	level := 0
+	var quote byte
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; {
+		case quote != 0:
+			if c == quote {
+				quote = 0
+			}
+		case c == '\'' || c == '"' || c == '`':
+			quote = c
+		case c == '(':
+			level++
+		case c == ')':
+			level--
+			if level == 0 {
+				return i == len(s)-1
+			}
+		}
+	}
+	return false
 }
 
 // splitArgs works like strings.Split with commas except it ignores commas inside
-- 
2.43.0


From b590fa28fd960948735e3872c2829e05b3ea049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:07 +0000
Subject: [PATCH 017/152] fix: generate valid SQLite ADD COLUMN statements for
 unique columns

---
 ddl/sqlite_migration.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ddl/sqlite_migration.go b/ddl/sqlite_migration.go
index bc870ff..0c23ed4 100644
--- a/ddl/sqlite_migration.go
+++ b/ddl/sqlite_migration.go
@@ -352,7 +352,11 @@ func (m *sqliteMigration) sql(prefix string) (filenames []string, bufs []*bytes.
 				buf.WriteString("\n")
 			}
 			buf.WriteString("ALTER TABLE " + tableName + " ADD COLUMN ")
-			writeColumnDefinition(dialect, buf, defaultCollation, column, true)
+			// SQLite cannot add UNIQUE or PRIMARY KEY columns, that requires
+			// copying the table.
+			newColumn := *column
+			newColumn.IsUnique, newColumn.IsPrimaryKey = false, false
+			writeColumnDefinition(dialect, buf, defaultCollation, &newColumn, true)
 			buf.WriteString(";\n")
 		}
 		// CREATE INDEX.
-- 
2.43.0


From e689188eef675333102ce1980c5885637a3b0a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:18 +0000
Subject: [PATCH 018/152] fix: replace every column of a SQLite table in one
 migration

---
 ddl/sqlite_migration.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/ddl/sqlite_migration.go b/ddl/sqlite_migration.go
index 0c23ed4..f691d32 100644
--- a/ddl/sqlite_migration.go
+++ b/ddl/sqlite_migration.go
@@ -261,7 +261,8 @@ func (m *sqliteMigration) sql(prefix string) (filenames []string, bufs []*bytes.
 	copyTable := make([]bool, len(m.alterTables))
 	hasCopyTable := false
 	for i, alterTable := range m.alterTables {
-		if len(alterTable.alterColumns) > 0 {
+		// ALTER TABLE DROP COLUMN cannot remove every column of a table.
+		if len(alterTable.alterColumns) > 0 || len(alterTable.dropColumns) == len(alterTable.srcTable.Columns) {
 			copyTable[i], hasCopyTable = true, true
 			continue
 		}
@@ -444,21 +445,23 @@ func (alterTable *sqliteAlterTable) copyTable(buf *bytes.Buffer) {
 		}
 		insertColumns = append(insertColumns, srcColumn.ColumnName)
 	}
-	buf.WriteString("INSERT INTO " + tableNameNew + "\n    (")
-	for i, insertColumn := range insertColumns {
-		if i > 0 {
-			buf.WriteString(", ")
+	if len(insertColumns) > 0 {
+		buf.WriteString("INSERT INTO " + tableNameNew + "\n    (")
+		for i, insertColumn := range insertColumns {
+			if i > 0 {
+				buf.WriteString(", ")
+			}
+			buf.WriteString(QuoteIdentifier(dialect, insertColumn))
 		}
-		buf.WriteString(QuoteIdentifier(dialect, insertColumn))
-	}
-	buf.WriteString(")\nSELECT\n    ")
-	for i, insertColumn := range insertColumns {
-		if i > 0 {
-			buf.WriteString(", ")
+		buf.WriteString(")\nSELECT\n    ")
+		for i, insertColumn := range insertColumns {
+			if i > 0 {
+				buf.WriteString(", ")
+			}
+			buf.WriteString(QuoteIdentifier(dialect, insertColumn))
 		}
-		buf.WriteString(QuoteIdentifier(dialect, insertColumn))
+		buf.WriteString("\nFROM\n    " + tableName + "\n;\n")
 	}
-	buf.WriteString("\nFROM\n    " + tableName + "\n;\n")
 
 	// DROP "$TableName".
 	buf.WriteString("DROP TABLE " + tableName + ";\n")
-- 
2.43.0


From 495f434da7d2611f390b7462198e726eab6f980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:14 +0000
Subject: [PATCH 019/152] fix: recognise STORED generated columns in SQLite
 databases

---
 ddl/introspection_scripts/sqlite_columns.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/introspection_scripts/sqlite_columns.sql b/ddl/introspection_scripts/sqlite_columns.sql
index 711f8f7..dd7cf2e 100644
--- a/ddl/introspection_scripts/sqlite_columns.sql
+++ b/ddl/introspection_scripts/sqlite_columns.sql
@@ -3,7 +3,7 @@ SELECT
     ,columns.name AS column_name
     ,columns.type AS column_type
     ,columns."notnull" AS is_notnull
-    ,columns.hidden = 2 AS is_generated
+    ,columns.hidden IN (2, 3) AS is_generated
     ,COALESCE(columns.dflt_value, '') AS column_default
 FROM (
     SELECT
-- 
2.43.0


From b938afc70fc353b199a98377696e791a730687c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:24 +0000
Subject: [PATCH 020/152] fix: dump SQLite booleans as 1 and 0

---
 ddl/dump_cmd.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 8bbcbd5..148b25d 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -861,6 +861,8 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 			switch columnType {
 			case "DATETIME", "TIMESTAMP":
 				scanDest = append(scanDest, &sql.NullTime{})
+			case "BOOLEAN":
+				scanDest = append(scanDest, &sql.NullBool{})
 			default:
 				scanDest = append(scanDest, &sql.NullString{})
 			}
-- 
2.43.0


From 477d9369044f2b5c3bf03d2c5236a4ec02de1425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:35 +0000
Subject: [PATCH 021/152] fix: keep fractional seconds when dumping timestamps

---
 ddl/dump_cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 148b25d..85f7c5c 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -975,7 +975,7 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 					record[i] = cmd.Nullstring
 					continue
 				}
-				record[i] = value.Time.UTC().Format("2006-01-02 15:04:05")
+				record[i] = value.Time.UTC().Format("2006-01-02 15:04:05.999999999")
 			case *pqarray.BoolArray, *pqarray.Int64Array, *pqarray.Float64Array, *pqarray.StringArray:
 				// If we reach here it means cmd.ArrayAsJSON is true. If
 				// cmd.ArrayAsJSON is false, then the value would have been
-- 
2.43.0


From 791f161bdb0782a1eecb7688881c4a6aea0eaaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:03 +0000
Subject: [PATCH 022/152] fix: dump SQLite dates in the format they are stored
 in

---
 ddl/dump_cmd.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 85f7c5c..efeb49e 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -17,6 +17,7 @@ import (
 	"path/filepath"
 	"strconv"
 	"strings"
+	"time"
 
 	"github.com/bokwoon95/sqddl/internal/pqarray"
 	"golang.org/x/sync/errgroup"
@@ -859,7 +860,7 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 		columnTypes = append(columnTypes, columnType)
 		if cmd.Dialect == DialectSQLite {
 			switch columnType {
-			case "DATETIME", "TIMESTAMP":
+			case "DATETIME", "TIMESTAMP", "DATE":
 				scanDest = append(scanDest, &sql.NullTime{})
 			case "BOOLEAN":
 				scanDest = append(scanDest, &sql.NullBool{})
@@ -975,6 +976,10 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 					record[i] = cmd.Nullstring
 					continue
 				}
+				if t := value.Time.UTC(); cmd.Dialect == DialectSQLite && columnTypes[i] == "DATE" && t.Equal(t.Truncate(24*time.Hour)) {
+					record[i] = t.Format("2006-01-02")
+					continue
+				}
 				record[i] = value.Time.UTC().Format("2006-01-02 15:04:05.999999999")
 			case *pqarray.BoolArray, *pqarray.Int64Array, *pqarray.Float64Array, *pqarray.StringArray:
 				// If we reach here it means cmd.ArrayAsJSON is true. If
-- 
2.43.0


From 7feeb08e578448ad0848c6e4a8845b628d7f110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:13 +0000
Subject: [PATCH 023/152] fix: keep rows with a single empty string when
 dumping to CSV

---
 ddl/dump_cmd.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index efeb49e..4fe806c 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -994,7 +994,14 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 				panic("unreachable")
 			}
 		}
-		err = csvWriter.Write(record)
+		if len(record) == 1 && record[0] == "" {
+			// csv.Writer writes a lone empty field as a blank line (which
+			// csv.Reader skips), so it has to be quoted explicitly.
+			csvWriter.Flush()
+			_, err = io.WriteString(w, "\"\"\n")
+		} else {
+			err = csvWriter.Write(record)
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From d254ba05cba782e9d015f658c408a2f977fbd949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:43 +0000
Subject: [PATCH 024/152] fix: load CSV files into tables whose names start
 with an underscore

---
 ddl/load_cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/load_cmd.go b/ddl/load_cmd.go
index fed2f8e..7f4c078 100644
--- a/ddl/load_cmd.go
+++ b/ddl/load_cmd.go
@@ -324,7 +324,7 @@ func (cmd *LoadCmd) loadSQL(conn *sql.Conn, filename string, r io.Reader) error
 
 // startsWithNumber is used to trim leading digits from a csv filename (in
 // order to determine the name of the table).
-var startsWithNumber = regexp.MustCompile(`^\d*_`)
+var startsWithNumber = regexp.MustCompile(`^\d+_`)
 
 var sqliteTimestampFormats = []string{
 	"2006-01-02 15:04:05.999999999-07:00",
-- 
2.43.0


From b0a9a71b30c9f32bc99df988f35fc6479a39a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:00 +0000
Subject: [PATCH 025/152] fix: introspect SQLite tables created with a
 single-quoted name

---
 ddl/introspection_scripts/sqlite_columns.sql  |  8 +++++++
 .../sqlite_constraints.sql                    | 24 +++++++++++++++++++
 ddl/introspection_scripts/sqlite_indexes.sql  |  8 +++++++
 3 files changed, 40 insertions(+)

diff --git a/ddl/introspection_scripts/sqlite_columns.sql b/ddl/introspection_scripts/sqlite_columns.sql
index dd7cf2e..c70357f 100644
--- a/ddl/introspection_scripts/sqlite_columns.sql
+++ b/ddl/introspection_scripts/sqlite_columns.sql
@@ -13,7 +13,15 @@ FROM (
     WHERE
         type = 'table'
         {{- if not .IncludeSystemCatalogs }}
+        {{- if .VersionNums.LowerThan 3 37 }}
         AND tbl_name NOT LIKE 'sqlite\_%' ESCAPE '\' AND sql NOT LIKE 'CREATE TABLE ''%'
+        {{- else }}
+        AND tbl_name NOT LIKE 'sqlite\_%' ESCAPE '\' AND EXISTS (
+            SELECT 1
+            FROM pragma_table_list AS tl
+            WHERE tl."type" IN ('table', 'virtual') AND tl.schema = 'main' AND tl.name = tbl_name
+        )
+        {{- end }}
         {{- end }}
         {{- if .Tables }}
         AND tbl_name IN ({{ mklist .Tables }})
diff --git a/ddl/introspection_scripts/sqlite_constraints.sql b/ddl/introspection_scripts/sqlite_constraints.sql
index b9d3d5a..522bbad 100644
--- a/ddl/introspection_scripts/sqlite_constraints.sql
+++ b/ddl/introspection_scripts/sqlite_constraints.sql
@@ -30,7 +30,15 @@ FROM (
         WHERE
             type = 'table'
             {{- if not .IncludeSystemCatalogs }}
+            {{- if .VersionNums.LowerThan 3 37 }}
             AND tbl_name NOT LIKE 'sqlite\_%' ESCAPE '\' AND sql NOT LIKE 'CREATE TABLE ''%'
+            {{- else }}
+            AND tbl_name NOT LIKE 'sqlite\_%' ESCAPE '\' AND EXISTS (
+                SELECT 1
+                FROM pragma_table_list AS tl
+                WHERE tl."type" IN ('table', 'virtual') AND tl.schema = 'main' AND tl.name = tbl_name
+            )
+            {{- end }}
             {{- end }}
             {{- if .Tables }}
             AND tbl_name IN ({{ mklist .Tables }})
@@ -71,7 +79,15 @@ FROM (
         WHERE
             type = 'table'
             {{- if not .IncludeSystemCatalogs }}
+            {{- if .VersionNums.LowerThan 3 37 }}
             AND tbl_name NOT LIKE 'sqlite\_%' ESCAPE '\' AND sql NOT LIKE 'CREATE TABLE ''%'
+            {{- else }}
+            AND tbl_name NOT LIKE 'sqlite\_%' ESCAPE '\' AND EXISTS (
+                SELECT 1
+                FROM pragma_table_list AS tl
+                WHERE tl."type" IN ('table', 'virtual') AND tl.schema = 'main' AND tl.name = tbl_name
+            )
+            {{- end }}
             {{- end }}
             {{- if .Tables }}
             AND tbl_name IN ({{ mklist .Tables }})
@@ -118,7 +134,15 @@ FROM (
         WHERE
             type = 'table'
             {{- if not .IncludeSystemCatalogs }}
+            {{- if .VersionNums.LowerThan 3 37 }}
             AND tbl_name NOT LIKE 'sqlite\_%' ESCAPE '\' AND sql NOT LIKE 'CREATE TABLE ''%'
+            {{- else }}
+            AND tbl_name NOT LIKE 'sqlite\_%' ESCAPE '\' AND EXISTS (
+                SELECT 1
+                FROM pragma_table_list AS tl
+                WHERE tl."type" IN ('table', 'virtual') AND tl.schema = 'main' AND tl.name = tbl_name
+            )
+            {{- end }}
             {{- end }}
             {{- if .Tables }}
             AND tbl_name IN ({{ mklist .Tables }})
diff --git a/ddl/introspection_scripts/sqlite_indexes.sql b/ddl/introspection_scripts/sqlite_indexes.sql
index 8591523..54c6599 100644
--- a/ddl/introspection_scripts/sqlite_indexes.sql
+++ b/ddl/introspection_scripts/sqlite_indexes.sql
@@ -24,7 +24,15 @@ FROM (
         WHERE
             type = 'table'
             {{- if not .IncludeSystemCatalogs }}
+            {{- if .VersionNums.LowerThan 3 37 }}
             AND tbl_name NOT LIKE 'sqlite\_%' ESCAPE '\' AND sql NOT LIKE 'CREATE TABLE ''%'
+            {{- else }}
+            AND tbl_name NOT LIKE 'sqlite\_%' ESCAPE '\' AND EXISTS (
+                SELECT 1
+                FROM pragma_table_list AS tl
+                WHERE tl."type" IN ('table', 'virtual') AND tl.schema = 'main' AND tl.name = tbl_name
+            )
+            {{- end }}
             {{- end }}
             {{- if .Tables }}
             AND tbl_name IN ({{ mklist .Tables }})
-- 
2.43.0


From 67921102a76dbaa301b45ed9ecce410b2b884d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:32:27 +0000
Subject: [PATCH 026/152] fix: accept .tar.gzip archives in load and generate
 as documented

---
 ddl/generate_cmd.go | 2 +-
 ddl/load_cmd.go     | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ddl/generate_cmd.go b/ddl/generate_cmd.go
index 30029d5..5821856 100644
--- a/ddl/generate_cmd.go
+++ b/ddl/generate_cmd.go
@@ -353,7 +353,7 @@ func writeCatalog(catalog *Catalog, fsys fs.FS, historyTable, s string) error {
 	if strings.HasSuffix(s, ".zip") {
 		return writeCatalogFromZip(catalog, fsys, s)
 	}
-	if strings.HasSuffix(s, ".tgz") || strings.HasSuffix(s, ".tar.gz") {
+	if strings.HasSuffix(s, ".tgz") || strings.HasSuffix(s, ".tar.gz") || strings.HasSuffix(s, ".tar.gzip") {
 		return writeCatalogFromTgz(catalog, fsys, s)
 	}
 	if isDir(fsys, s) {
diff --git a/ddl/load_cmd.go b/ddl/load_cmd.go
index 7f4c078..b094eac 100644
--- a/ddl/load_cmd.go
+++ b/ddl/load_cmd.go
@@ -238,7 +238,7 @@ func (cmd *LoadCmd) Run() error {
 			continue
 		}
 		// is it a tar gzip file?
-		if strings.HasSuffix(filename, ".tgz") || strings.HasSuffix(filename, ".tar.gz") {
+		if strings.HasSuffix(filename, ".tgz") || strings.HasSuffix(filename, ".tar.gz") || strings.HasSuffix(filename, ".tar.gzip") {
 			err = cmd.loadTgz(conn, filename)
 			if err != nil {
 				return err
@@ -770,7 +770,9 @@ func (cmd *LoadCmd) loadTgz(conn *sql.Conn, tgzName string) error {
 	// As a result we want to accept both dump.tgz/schema.sql and
 	// dump.tgz/dump/schema.sql as top level files.
 	var name string
-	if strings.HasSuffix(tgzName, ".tar.gz") {
+	if strings.HasSuffix(tgzName, ".tar.gzip") {
+		name = strings.TrimSuffix(strings.TrimPrefix(filepath.Base(tgzName), "./"), ".tar.gzip")
+	} else if strings.HasSuffix(tgzName, ".tar.gz") {
 		name = strings.TrimSuffix(strings.TrimPrefix(filepath.Base(tgzName), "./"), ".tar.gz")
 	} else {
 		name = strings.TrimSuffix(strings.TrimPrefix(filepath.Base(tgzName), "./"), ".tgz")
-- 
2.43.0


From 9595f1d7dece02b44fb688d92d2ab08cefd18d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:32:37 +0000
Subject: [PATCH 027/152] fix: run the SQL files of tar archives whose entries
 start with ./

---
 ddl/load_cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/load_cmd.go b/ddl/load_cmd.go
index b094eac..ddc5d59 100644
--- a/ddl/load_cmd.go
+++ b/ddl/load_cmd.go
@@ -790,7 +790,7 @@ func (cmd *LoadCmd) loadTgz(conn *sql.Conn, tgzName string) error {
 		if err != nil {
 			return err
 		}
-		switch hdr.Name {
+		switch strings.TrimPrefix(hdr.Name, "./") {
 		case "schema.sql", name + "/schema.sql":
 			schemaFilename = hdr.Name
 			_, err = schemaBuf.ReadFrom(tarReader)
-- 
2.43.0


From 13ea262403432b8d68110e6051df6d422616ec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:51 +0000
Subject: [PATCH 028/152] fix: restore session values after a cancelled load

---
 ddl/load_cmd.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ddl/load_cmd.go b/ddl/load_cmd.go
index ddc5d59..77593ae 100644
--- a/ddl/load_cmd.go
+++ b/ddl/load_cmd.go
@@ -199,6 +199,11 @@ func (cmd *LoadCmd) Run() error {
 		defer restoreSessionValue()
 	}
 
+	// Transactions on the conn are not bound to cmd.Ctx (only the statements
+	// inside are) because otherwise they are rolled back in the background on
+	// cancellation, and restoring the session value while a transaction is
+	// still open has no effect.
+
 	// The main loop.
 	for _, filename := range cmd.Filenames {
 		// is it an SQL file?
@@ -219,7 +224,7 @@ func (cmd *LoadCmd) Run() error {
 			if err != nil {
 				return err
 			}
-			tx, err := conn.BeginTx(cmd.Ctx, nil)
+			tx, err := conn.BeginTx(context.Background(), nil)
 			if err != nil {
 				return err
 			}
@@ -670,7 +675,7 @@ func (cmd *LoadCmd) loadZip(conn *sql.Conn, zipName string) error {
 			if err != nil {
 				return err
 			}
-			tx, err := conn.BeginTx(cmd.Ctx, nil)
+			tx, err := conn.BeginTx(context.Background(), nil)
 			if err != nil {
 				return err
 			}
@@ -856,7 +861,7 @@ func (cmd *LoadCmd) loadTgz(conn *sql.Conn, tgzName string) error {
 		if dir != "." && dir != name {
 			continue
 		}
-		tx, err := conn.BeginTx(cmd.Ctx, nil)
+		tx, err := conn.BeginTx(context.Background(), nil)
 		if err != nil {
 			return err
 		}
@@ -951,7 +956,7 @@ func (cmd *LoadCmd) loadDir(conn *sql.Conn, dirname string) error {
 			if err != nil {
 				return err
 			}
-			tx, err := conn.BeginTx(cmd.Ctx, nil)
+			tx, err := conn.BeginTx(context.Background(), nil)
 			if err != nil {
 				return err
 			}
@@ -1114,7 +1119,8 @@ func setSessionValue(ctx context.Context, db DB, getter, setter, value string) (
 		if !atomic.CompareAndSwapInt32(&done, 0, 1) {
 			return nil
 		}
-		_, err = db.ExecContext(ctx, strings.ReplaceAll(setter, "%s", EscapeQuote(oldValue, '\'')))
+		// The session value has to be restored even if the ctx was cancelled.
+		_, err = db.ExecContext(context.Background(), strings.ReplaceAll(setter, "%s", EscapeQuote(oldValue, '\'')))
 		return err
 	}, nil
 }
-- 
2.43.0


From 96a7e797bf365aa53a584dfabd103062b9e2527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:22 +0000
Subject: [PATCH 029/152] fix: report malformed subset queries instead of
 panicking

---
 ddl/subsetter.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ddl/subsetter.go b/ddl/subsetter.go
index d7f5f5a..52f03fd 100644
--- a/ddl/subsetter.go
+++ b/ddl/subsetter.go
@@ -104,7 +104,7 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 	var result queryResult
 	str := query
 	for i := strings.IndexByte(str, OPEN_BRACE); i >= 0; i = strings.IndexByte(str, OPEN_BRACE) {
-		if i+1 <= len(str) && str[i+1] == OPEN_BRACE {
+		if i+1 < len(str) && str[i+1] == OPEN_BRACE {
 			str = str[i+2:]
 			continue
 		}
@@ -114,7 +114,7 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 			return fmt.Errorf("no %q found", CLOSE_BRACE)
 		}
 		if str[:j+1] == "{*}" {
-			if starStart > 0 {
+			if starStart >= 0 {
 				return fmt.Errorf("more than one {*}")
 			}
 			starStart = len(query) - len(str)
@@ -122,13 +122,22 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 			str = str[j+1:]
 			continue
 		}
-		if tableStart > 0 {
+		if tableStart >= 0 {
 			return fmt.Errorf("more than one {tableName}")
 		}
 		tableStart = len(query) - len(str)
 		tableEnd = tableStart + j + 1
 		str = str[j+1:]
 	}
+	if starStart < 0 {
+		return fmt.Errorf("no {*} found")
+	}
+	if tableStart < 0 {
+		return fmt.Errorf("no {tableName} found")
+	}
+	if tableStart < starStart {
+		return fmt.Errorf("{*} must come before %s", query[tableStart:tableEnd])
+	}
 	var tableSchema string
 	tableName := query[tableStart+1 : tableEnd-1]
 	if i := strings.Index(tableName, "."); i >= 0 {
-- 
2.43.0


From fb32f108cf49f19ae0474655d8c4b2f2b611349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:52 +0000
Subject: [PATCH 030/152] fix: dump subset queries that match no rows

---
 ddl/subsetter.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ddl/subsetter.go b/ddl/subsetter.go
index 52f03fd..fd055a2 100644
--- a/ddl/subsetter.go
+++ b/ddl/subsetter.go
@@ -30,6 +30,8 @@ type Subsetter struct {
 
 // queryResult holds the query results of a subset query (in memory).
 type queryResult struct {
+	tableSchema string
+	tableName   string
 	columns     []string
 	columnTypes []string
 	records     [][]string
@@ -154,6 +156,7 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 	if pkey == nil {
 		return fmt.Errorf("table %q has no primary key", tableName)
 	}
+	result.tableSchema, result.tableName = baseTable.TableSchema, baseTable.TableName
 	result.columns = pkey.Columns
 	result.columnTypes = make([]string, 0, len(pkey.Columns))
 	scanDest := make([]any, 0, len(pkey.Columns))
@@ -514,6 +517,16 @@ func (ss *Subsetter) Query(tableSchema, tableName string) string {
 			resultColumns = b.String()
 		}
 		buf.WriteString("query" + strconv.Itoa(num+1) + "_ ")
+		if len(result.records) == 0 {
+			// VALUES must have at least one row, select zero rows from the
+			// table instead.
+			buf.WriteString("(" + resultColumns + ") AS (\n    SELECT " + resultColumns + " FROM ")
+			if result.tableSchema != "" {
+				buf.WriteString(QuoteIdentifier(ss.dialect, result.tableSchema) + ".")
+			}
+			buf.WriteString(QuoteIdentifier(ss.dialect, result.tableName) + " WHERE 1 = 0\n)\n")
+			continue
+		}
 		if ss.dialect == DialectSQLServer {
 			buf.WriteString(" AS (\n    SELECT * FROM (VALUES ")
 		} else {
-- 
2.43.0


From 97b51bb7f972fc43b77399e3ee1d6a987ed39f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:30 +0000
Subject: [PATCH 031/152] fix: match SQLite rows with date and timestamp keys
 in subset dumps

---
 ddl/subsetter.go | 46 +++++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/ddl/subsetter.go b/ddl/subsetter.go
index fd055a2..1cb61d3 100644
--- a/ddl/subsetter.go
+++ b/ddl/subsetter.go
@@ -168,6 +168,11 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 			b.WriteString(", ")
 		}
 		column := ss.cache.GetColumn(baseTable, columnName)
+		if ss.dialect == DialectSQLite {
+			// The unary + makes the driver return the value as it is stored,
+			// instead of converting it according to the declared column type.
+			b.WriteString("+")
+		}
 		if baseTable.TableSchema != "" {
 			b.WriteString(QuoteIdentifier(ss.dialect, baseTable.TableSchema) + ".")
 		}
@@ -182,7 +187,7 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 		}
 		result.columnTypes = append(result.columnTypes, columnType)
 		if ss.dialect == DialectSQLite {
-			scanDest = append(scanDest, &sql.NullString{})
+			scanDest = append(scanDest, new(any))
 			continue
 		}
 		switch columnType {
@@ -220,6 +225,19 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 		record := make([]string, len(scanDest))
 		for i, value := range scanDest {
 			switch value := value.(type) {
+			case *any:
+				switch value := (*value).(type) {
+				case nil:
+					record[i] = "NULL"
+				case int64:
+					record[i] = strconv.FormatInt(value, 10)
+				case float64:
+					record[i] = strconv.FormatFloat(value, 'e', -1, 64)
+				case []byte:
+					record[i] = "x'" + hex.EncodeToString(value) + "'"
+				default:
+					record[i] = "'" + EscapeQuote(fmt.Sprint(value), '\'') + "'"
+				}
 			case *[]byte:
 				if *value == nil {
 					record[i] = "NULL"
@@ -269,32 +287,6 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 					record[i] = "NULL"
 					continue
 				}
-				if ss.dialect == DialectSQLite {
-					columnType := result.columnTypes[i]
-					switch columnType {
-					case "BINARY", "VARBINARY", "TINYBLOB", "BLOB", "MEDIUMBLOB", "LONGBLOB":
-						record[i] = "x'" + hex.EncodeToString([]byte(value.String)) + "'"
-						continue
-					case "BOOLEAN", "BIT",
-						"NUMERIC", "FLOAT", "REAL", "DOUBLE PRECISION",
-						"TINYINT", "SMALLINT", "MEDIUMINT", "INT", "INTEGER", "BIGINT":
-						record[i] = value.String
-						continue
-					case "UUID":
-						if len(value.String) == 16 {
-							record[i] = "x'" + hex.EncodeToString([]byte(value.String)) + "'"
-							continue
-						}
-					case "DATE", "TIME", "TIMETZ", "DATETIME", "DATETIME2", "SMALLDATETIME", "DATETIMEOFFSET", "TIMESTAMP", "TIMESTAMPTZ":
-						if _, err := strconv.ParseInt(value.String, 10, 64); err == nil {
-							record[i] = value.String
-							continue
-						} else if _, err = strconv.ParseFloat(value.String, 64); err == nil {
-							record[i] = value.String
-							continue
-						}
-					}
-				}
 				record[i] = "'" + EscapeQuote(value.String, '\'') + "'"
 			case *Timestamp:
 				if !value.Valid {
-- 
2.43.0


From 30c4afc96321f9276b218d21a797734c415f6cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:15 +0000
Subject: [PATCH 032/152] fix: follow every foreign key path when dumping a
 subset

---
 ddl/subsetter.go | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/ddl/subsetter.go b/ddl/subsetter.go
index 1cb61d3..4a93819 100644
--- a/ddl/subsetter.go
+++ b/ddl/subsetter.go
@@ -328,8 +328,40 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 	var toVisit []*Constraint
 	visited := make(map[*Constraint]struct{}) // In order to break cycles, never visit the same fkey twice.
 	if !extended {
-		for i := range baseTable.Constraints {
-			toVisit = append(toVisit, &baseTable.Constraints[i])
+		// Follow every chain of foreign keys starting from the base table. In
+		// order to break cycles, a chain never visits the same table twice.
+		chains := append([]join{}, tableJoins[tableID]...)
+		for len(chains) > 0 {
+			chain := chains[len(chains)-1]
+			chains = chains[:len(chains)-1]
+			lastTableID := chain.tableIDs[len(chain.tableIDs)-1]
+			table := ss.cache.GetTable(ss.cache.GetSchema(ss.catalog, lastTableID[0]), lastTableID[1])
+			if table == nil {
+				continue
+			}
+			for i := range table.Constraints {
+				constraint := &table.Constraints[i]
+				if constraint.ConstraintType != FOREIGN_KEY {
+					continue
+				}
+				referencedTableID := [2]string{constraint.ReferencesSchema, constraint.ReferencesTable}
+				duplicateTable := false
+				for _, tableID := range chain.tableIDs {
+					if referencedTableID == tableID {
+						duplicateTable = true
+						break
+					}
+				}
+				if duplicateTable {
+					continue
+				}
+				newChain := join{
+					tableIDs: append(append([][2]string{}, chain.tableIDs...), referencedTableID),
+					fkeys:    append(append([]*Constraint{}, chain.fkeys...), constraint),
+				}
+				tableJoins[referencedTableID] = append(tableJoins[referencedTableID], newChain)
+				chains = append(chains, newChain)
+			}
 		}
 	} else {
 		toVisit = append(toVisit, ss.referencedBy[baseTable]...)
-- 
2.43.0


From 48c59d1a97bf072d1674bc63190ffbd9348244f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:24 +0000
Subject: [PATCH 033/152] fix: extended subset dumps with tables filtered out

---
 ddl/subsetter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/subsetter.go b/ddl/subsetter.go
index 4a93819..cec4dba 100644
--- a/ddl/subsetter.go
+++ b/ddl/subsetter.go
@@ -463,6 +463,9 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 		newJoins = newJoins[:i]
 		tableJoins[referencedTableID] = append(tableJoins[referencedTableID], newJoins...)
 		table := ss.cache.GetTable(ss.cache.GetSchema(ss.catalog, constraint.ReferencesSchema), constraint.ReferencesTable)
+		if table == nil {
+			continue
+		}
 		for i := range table.Constraints {
 			toVisit = append(toVisit, &table.Constraints[i])
 		}
-- 
2.43.0


From 947f42f42e42c50fcae11eace357bed36f41d480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:55:52 +0000
Subject: [PATCH 034/152] fix: use the default batch size when
 BatchInsert.Batchsize is negative

---
 ddl/batch_insert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/batch_insert.go b/ddl/batch_insert.go
index c01acc7..08281e6 100644
--- a/ddl/batch_insert.go
+++ b/ddl/batch_insert.go
@@ -316,7 +316,7 @@ func (bi *BatchInsert) ExecContext(ctx context.Context, db DB, next func([]any)
 
 	// insert values using insertStmt (and updateStmt), batch by batch
 	var batchcounter int
-	args := make([]any, 0, bi.Batchsize*len(bi.Columns))
+	args := make([]any, 0, batchsize*len(bi.Columns))
 	rowvalue := make([]any, len(bi.Columns))
 	for {
 		err = next(rowvalue)
-- 
2.43.0


From 2cde0d2192c0c655400c90cf6e7bc881f555092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:04 +0000
Subject: [PATCH 035/152] fix: update the sequences of Postgres identity
 columns whose names need quoting

---
 ddl/batch_insert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/batch_insert.go b/ddl/batch_insert.go
index 08281e6..f46f8b1 100644
--- a/ddl/batch_insert.go
+++ b/ddl/batch_insert.go
@@ -414,7 +414,7 @@ func (bi *BatchInsert) ExecContext(ctx context.Context, db DB, next func([]any)
 			columnName := QuoteIdentifier(bi.Dialect, column)
 			_, err = db.ExecContext(ctx,
 				"SELECT setval(pg_get_serial_sequence($1, $2), MAX("+columnName+")) FROM "+tableName,
-				tableName, columnName,
+				tableName, column, // the column name is taken literally, it must not be quoted
 			)
 			if err != nil {
 				return rowsAffected, err
-- 
2.43.0


From c3ecba59246fe50647f386ac9ea2b7743fe8d9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:36 +0000
Subject: [PATCH 036/152] fix: turn IDENTITY_INSERT off again when a batch
 insert fails

---
 ddl/batch_insert.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ddl/batch_insert.go b/ddl/batch_insert.go
index f46f8b1..b97b166 100644
--- a/ddl/batch_insert.go
+++ b/ddl/batch_insert.go
@@ -188,6 +188,13 @@ func (bi *BatchInsert) ExecContext(ctx context.Context, db DB, next func([]any)
 		if err != nil {
 			return 0, err
 		}
+		defer func() {
+			// IDENTITY_INSERT stays ON for the rest of the session (even if
+			// the transaction is rolled back) unless it is turned off.
+			if err != nil {
+				_, _ = db.ExecContext(context.Background(), "SET IDENTITY_INSERT "+tableName+" OFF")
+			}
+		}()
 	}
 
 	// updateQuery: updateStart + middle + updateEnd (SQLServer only)
-- 
2.43.0


From d25beaf91517e4c003370501136d8afb6517d7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:46 +0000
Subject: [PATCH 037/152] fix: upsert SQL Server tables with only key and
 identity columns

---
 ddl/batch_insert.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ddl/batch_insert.go b/ddl/batch_insert.go
index b97b166..2dd117e 100644
--- a/ddl/batch_insert.go
+++ b/ddl/batch_insert.go
@@ -281,7 +281,14 @@ func (bi *BatchInsert) ExecContext(ctx context.Context, db DB, next func([]any)
 	// updateStart, updateEnd (SQLServer only)
 	var updateStart, updateEnd string
 	var updateStmt *sql.Stmt
-	if len(keyColumns) > 0 && len(nonKeyColumns) > 0 && bi.Dialect == DialectSQLServer {
+	hasUpdateColumns := false // identity columns cannot be updated
+	for _, column := range nonKeyColumns {
+		if _, ok := isIdentityColumn[column]; !ok {
+			hasUpdateColumns = true
+			break
+		}
+	}
+	if len(keyColumns) > 0 && hasUpdateColumns && bi.Dialect == DialectSQLServer {
 		buf.Reset()
 		buf.WriteString("UPDATE " + tableName + " WITH (UPDLOCK, SERIALIZABLE) SET ")
 		written := false
-- 
2.43.0


From 14e8bae1da45f73f46929539e0da2976af68e28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:57:48 +0000
Subject: [PATCH 038/152] fix: load CSV files into MySQL and SQL Server tables
 without a primary key

---
 ddl/load_cmd.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ddl/load_cmd.go b/ddl/load_cmd.go
index 77593ae..116b262 100644
--- a/ddl/load_cmd.go
+++ b/ddl/load_cmd.go
@@ -1036,9 +1036,9 @@ func getColumnInfo(ctx context.Context, tx *sql.Tx, dialect, tableSchema, tableN
 			", columns.column_type" +
 			", key_column_usage.column_name IS NOT NULL AS is_key_column" +
 			" FROM information_schema.columns" +
-			" JOIN information_schema.table_constraints USING (table_schema, table_name)" +
-			" LEFT JOIN information_schema.key_column_usage USING (constraint_schema, constraint_name, table_name, column_name)" +
-			" WHERE table_constraints.constraint_type = 'PRIMARY KEY' AND columns.table_schema = ? AND columns.table_name = ?" +
+			" LEFT JOIN information_schema.table_constraints ON table_constraints.constraint_type = 'PRIMARY KEY' AND table_constraints.table_schema = columns.table_schema AND table_constraints.table_name = columns.table_name" +
+			" LEFT JOIN information_schema.key_column_usage ON key_column_usage.constraint_schema = table_constraints.constraint_schema AND key_column_usage.constraint_name = table_constraints.constraint_name AND key_column_usage.table_name = columns.table_name AND key_column_usage.column_name = columns.column_name" +
+			" WHERE columns.table_schema = ? AND columns.table_name = ?" +
 			" ORDER BY columns.ordinal_position"
 	case DialectSQLServer:
 		query = "SELECT" +
@@ -1049,9 +1049,9 @@ func getColumnInfo(ctx context.Context, tx *sql.Tx, dialect, tableSchema, tableN
 			" FROM sys.columns" +
 			" JOIN sys.tables ON tables.object_id = columns.object_id" +
 			" JOIN sys.schemas ON schemas.schema_id = tables.schema_id" +
-			" LEFT JOIN sys.indexes ON indexes.object_id = tables.object_id" +
+			" LEFT JOIN sys.indexes ON indexes.is_primary_key = 1 AND indexes.object_id = tables.object_id" +
 			" LEFT JOIN sys.index_columns ON index_columns.index_id = indexes.index_id AND index_columns.object_id = indexes.object_id AND index_columns.column_id = columns.column_id" +
-			" WHERE COALESCE(indexes.is_primary_key, 0) = 1 AND schemas.name = @p1 AND tables.name = @p2" +
+			" WHERE schemas.name = @p1 AND tables.name = @p2" +
 			" ORDER BY COLUMNPROPERTY(columns.object_id, columns.name, 'ordinal')"
 	default:
 		return columnTypes, nil, nil, nil
-- 
2.43.0


From 4177bc42efdebfd958dac9b998a0e0bfb1de8d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:57:58 +0000
Subject: [PATCH 039/152] fix: load the CSV files of a zip archive in separate
 transactions

---
 ddl/load_cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/load_cmd.go b/ddl/load_cmd.go
index 116b262..9221aac 100644
--- a/ddl/load_cmd.go
+++ b/ddl/load_cmd.go
@@ -659,7 +659,7 @@ func (cmd *LoadCmd) loadZip(conn *sql.Conn, zipName string) error {
 				if err != nil {
 					return err
 				}
-				tx, err := conn.BeginTx(ctx, nil)
+				tx, err := cmd.DB.BeginTx(ctx, nil)
 				if err != nil {
 					return err
 				}
-- 
2.43.0


From d91e277988415fc98322744ba8c94c5db77a542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:08 +0000
Subject: [PATCH 040/152] fix: load empty JSON arrays into Postgres array
 columns

---
 ddl/load_cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/load_cmd.go b/ddl/load_cmd.go
index 9221aac..f218b04 100644
--- a/ddl/load_cmd.go
+++ b/ddl/load_cmd.go
@@ -471,7 +471,7 @@ func (cmd *LoadCmd) loadCSV(ctx context.Context, tx *sql.Tx, filename string, r
 				rowvalue[i] = b
 				continue
 			}
-			if cmd.Dialect == DialectPostgres && strings.HasSuffix(columnType, "[]") && len(field) > 2 && field[0] == '[' && field[len(field)-1] == ']' {
+			if cmd.Dialect == DialectPostgres && strings.HasSuffix(columnType, "[]") && len(field) >= 2 && field[0] == '[' && field[len(field)-1] == ']' {
 				// (Postgres only) Convert JSON arrays into Postgres arrays if
 				// the column is an array type (e.g. TEXT[], INT[]).
 				rowvalue[i] = "{" + field[1:len(field)-1] + "}"
-- 
2.43.0


From ba55ef5866b68e293990676697a342af94ce49ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:55 +0000
Subject: [PATCH 041/152] fix: restore session values after a cancelled
 parallel load

---
 ddl/load_cmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddl/load_cmd.go b/ddl/load_cmd.go
index f218b04..8c1abf2 100644
--- a/ddl/load_cmd.go
+++ b/ddl/load_cmd.go
@@ -659,7 +659,7 @@ func (cmd *LoadCmd) loadZip(conn *sql.Conn, zipName string) error {
 				if err != nil {
 					return err
 				}
-				tx, err := cmd.DB.BeginTx(ctx, nil)
+				tx, err := cmd.DB.BeginTx(context.Background(), nil)
 				if err != nil {
 					return err
 				}
@@ -941,7 +941,7 @@ func (cmd *LoadCmd) loadDir(conn *sql.Conn, dirname string) error {
 				if err != nil {
 					return err
 				}
-				tx, err := cmd.DB.BeginTx(ctx, nil)
+				tx, err := cmd.DB.BeginTx(context.Background(), nil)
 				if err != nil {
 					return err
 				}
-- 
2.43.0


From 4da8babcc98c301dcd6744e1cd286a8f2ad6441c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:18:23 +0000
Subject: [PATCH 042/152] fix: report MySQL indexes named like a constraint of
 another table

An index was left out when any table of the server had a constraint of
the same name. Only constraints of the index's own table count.
---
 ddl/introspection_scripts/mysql_indexes.sql | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ddl/introspection_scripts/mysql_indexes.sql b/ddl/introspection_scripts/mysql_indexes.sql
index f2969e2..0f19bb0 100644
--- a/ddl/introspection_scripts/mysql_indexes.sql
+++ b/ddl/introspection_scripts/mysql_indexes.sql
@@ -28,6 +28,8 @@ FROM (
             SELECT 1
             FROM information_schema.table_constraints
             WHERE table_constraints.constraint_name = statistics.index_name
+                AND table_constraints.table_schema = statistics.table_schema
+                AND table_constraints.table_name = statistics.table_name
         )
         {{- if not .IncludeSystemCatalogs }}
         AND table_schema NOT IN ('mysql', 'information_schema', 'performance_schema', 'sys')
-- 
2.43.0


From 1df495ac29ee97cf6ec1e6f094dcdd9084eddc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:18:33 +0000
Subject: [PATCH 043/152] fix: report MySQL routines that have no parameters

Procedures without parameters were left out and functions without
parameters made the introspection fail.
---
 ddl/introspection_scripts/mysql_routines.sql | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddl/introspection_scripts/mysql_routines.sql b/ddl/introspection_scripts/mysql_routines.sql
index 695be11..714c8ec 100644
--- a/ddl/introspection_scripts/mysql_routines.sql
+++ b/ddl/introspection_scripts/mysql_routines.sql
@@ -3,7 +3,7 @@ SELECT
     ,routines.routine_name
     ,routines.routine_type
     ,COALESCE(routines.dtd_identifier, '') AS return_type
-    ,parameters.parameters
+    ,COALESCE(parameters.parameters, '') AS parameters
     ,routines.routine_definition AS `sql`
     ,routines.routine_comment
     ,routines.routine_body
@@ -12,7 +12,7 @@ SELECT
     ,routines.security_type
 FROM
     information_schema.routines
-    JOIN (
+    LEFT JOIN (
         SELECT
             specific_schema
             ,specific_name
-- 
2.43.0


From 34823456819f85c5fb4acc874d1d5cfb11c54b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:18:42 +0000
Subject: [PATCH 044/152] fix: report MySQL default expressions as expressions

A default such as (uuid()) is reported by MySQL without its brackets and
was taken for a string.
---
 ddl/introspection_scripts/mysql_columns.sql | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ddl/introspection_scripts/mysql_columns.sql b/ddl/introspection_scripts/mysql_columns.sql
index 26ddd5f..3c973b0 100644
--- a/ddl/introspection_scripts/mysql_columns.sql
+++ b/ddl/introspection_scripts/mysql_columns.sql
@@ -15,7 +15,10 @@ SELECT
         WHEN @@collation_database THEN ''
         ELSE COALESCE(c.collation_name, '')
     END AS collation_name
-    ,COALESCE(c.column_default, '') AS column_default
+    ,CASE
+        WHEN c.extra LIKE '%DEFAULT_GENERATED%' AND c.column_default NOT LIKE 'CURRENT_TIMESTAMP%' AND c.column_default NOT LIKE '(%)' THEN CONCAT('(', c.column_default, ')')
+        ELSE COALESCE(c.column_default, '')
+    END AS column_default
     ,c.column_comment
 FROM
     information_schema.columns AS c
-- 
2.43.0


From d64627a9d47e3a6c6b76331bef1a805f4d120992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:18:53 +0000
Subject: [PATCH 045/152] fix: report ON UPDATE CURRENT_TIMESTAMP of MySQL
 columns without a default

The attribute was only recognised on columns that also have a generated
default and no fractional seconds.
---
 ddl/introspection_scripts/mysql_columns.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/introspection_scripts/mysql_columns.sql b/ddl/introspection_scripts/mysql_columns.sql
index 3c973b0..555d826 100644
--- a/ddl/introspection_scripts/mysql_columns.sql
+++ b/ddl/introspection_scripts/mysql_columns.sql
@@ -8,7 +8,7 @@ SELECT
     ,COALESCE(c.numeric_scale, '') AS numeric_scale
     ,COALESCE(c.extra = 'auto_increment', FALSE) AS is_autoincrement
     ,c.is_nullable = 'NO' AS is_notnull
-    ,COALESCE(c.extra = 'DEFAULT_GENERATED on update CURRENT_TIMESTAMP', FALSE) AS on_update_current_timestamp
+    ,COALESCE(c.extra LIKE '%on update CURRENT_TIMESTAMP%', FALSE) AS on_update_current_timestamp
     ,COALESCE(c.generation_expression, '') AS generated_expr
     ,COALESCE(c.extra = 'STORED GENERATED', FALSE) AS generated_expr_stored
     ,CASE c.collation_name
-- 
2.43.0


From c53e03f4b354d0555255e3d7d759a89bd0d67fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:19:46 +0000
Subject: [PATCH 046/152] fix: report MySQL CURRENT_TIMESTAMP defaults with a
 precision as expressions

CURRENT_TIMESTAMP(6) was reported as a string.
---
 ddl/introspection_scripts/mysql_columns.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/introspection_scripts/mysql_columns.sql b/ddl/introspection_scripts/mysql_columns.sql
index 555d826..0441b56 100644
--- a/ddl/introspection_scripts/mysql_columns.sql
+++ b/ddl/introspection_scripts/mysql_columns.sql
@@ -16,7 +16,7 @@ SELECT
         ELSE COALESCE(c.collation_name, '')
     END AS collation_name
     ,CASE
-        WHEN c.extra LIKE '%DEFAULT_GENERATED%' AND c.column_default NOT LIKE 'CURRENT_TIMESTAMP%' AND c.column_default NOT LIKE '(%)' THEN CONCAT('(', c.column_default, ')')
+        WHEN c.extra LIKE '%DEFAULT_GENERATED%' AND c.column_default <> 'CURRENT_TIMESTAMP' AND c.column_default NOT LIKE '(%)' THEN CONCAT('(', c.column_default, ')')
         ELSE COALESCE(c.column_default, '')
     END AS column_default
     ,c.column_comment
-- 
2.43.0


From 08dd2f6e7dabb8308ad78eb9827e93c12f168067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:20:16 +0000
Subject: [PATCH 047/152] fix: report SQL Server objects whose names merely
 start like system ones

The underscore in the LIKE patterns matched any character, so that a
table named sptable or a function named splitter was left out.
---
 ddl/introspection_scripts/sqlserver_columns.sql     | 2 +-
 ddl/introspection_scripts/sqlserver_constraints.sql | 8 ++++----
 ddl/introspection_scripts/sqlserver_indexes.sql     | 4 ++--
 ddl/introspection_scripts/sqlserver_routines.sql    | 2 +-
 ddl/introspection_scripts/sqlserver_tables.sql      | 2 +-
 ddl/introspection_scripts/sqlserver_triggers.sql    | 2 +-
 ddl/introspection_scripts/sqlserver_views.sql       | 2 +-
 7 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/ddl/introspection_scripts/sqlserver_columns.sql b/ddl/introspection_scripts/sqlserver_columns.sql
index 2db241a..cc91538 100644
--- a/ddl/introspection_scripts/sqlserver_columns.sql
+++ b/ddl/introspection_scripts/sqlserver_columns.sql
@@ -42,7 +42,7 @@ FROM
 WHERE
     tables.type = 'U' -- User-defined table (https://stackoverflow.com/a/2907204)
     {{- if not .IncludeSystemCatalogs }}
-    AND tables.name NOT LIKE 'spt_%' AND tables.name NOT LIKE 'msreplication_%'
+    AND tables.name NOT LIKE 'spt[_]%' AND tables.name NOT LIKE 'msreplication[_]%'
     {{- end }}
     {{- if .Schemas }}
     AND schemas.name IN ({{ mklist .Schemas }})
diff --git a/ddl/introspection_scripts/sqlserver_constraints.sql b/ddl/introspection_scripts/sqlserver_constraints.sql
index e354e04..9099696 100644
--- a/ddl/introspection_scripts/sqlserver_constraints.sql
+++ b/ddl/introspection_scripts/sqlserver_constraints.sql
@@ -43,7 +43,7 @@ FROM
 WHERE
     indexes.is_primary_key = 1
     {{- if not .IncludeSystemCatalogs }}
-    AND tables.name NOT LIKE 'spt_%' AND tables.name NOT LIKE 'msreplication_%'
+    AND tables.name NOT LIKE 'spt[_]%' AND tables.name NOT LIKE 'msreplication[_]%'
     {{- end }}
     {{- if .Schemas }}
     AND schemas.name IN ({{ mklist .Schemas }})
@@ -90,7 +90,7 @@ FROM
 WHERE
     indexes.is_unique_constraint = 1
     {{- if not .IncludeSystemCatalogs }}
-    AND tables.name NOT LIKE 'spt_%' AND tables.name NOT LIKE 'msreplication_%'
+    AND tables.name NOT LIKE 'spt[_]%' AND tables.name NOT LIKE 'msreplication[_]%'
     {{- end }}
     {{- if .Schemas }}
     AND schemas.name IN ({{ mklist .Schemas }})
@@ -153,7 +153,7 @@ FROM (
     WHERE
         1 = 1
         {{- if not .IncludeSystemCatalogs }}
-        AND tables1.name NOT LIKE 'spt_%' AND tables1.name NOT LIKE 'msreplication_%'
+        AND tables1.name NOT LIKE 'spt[_]%' AND tables1.name NOT LIKE 'msreplication[_]%'
         {{- end }}
         {{- if .Schemas }}
         AND schemas1.name IN ({{ mklist .Schemas }})
@@ -199,7 +199,7 @@ FROM
 WHERE
     1 = 1
     {{- if not .IncludeSystemCatalogs }}
-    AND tables.name NOT LIKE 'spt_%' AND tables.name NOT LIKE 'msreplication_%'
+    AND tables.name NOT LIKE 'spt[_]%' AND tables.name NOT LIKE 'msreplication[_]%'
     {{- end }}
     {{- if .Schemas }}
     AND schemas.name IN ({{ mklist .Schemas }})
diff --git a/ddl/introspection_scripts/sqlserver_indexes.sql b/ddl/introspection_scripts/sqlserver_indexes.sql
index 92c3483..af55e84 100644
--- a/ddl/introspection_scripts/sqlserver_indexes.sql
+++ b/ddl/introspection_scripts/sqlserver_indexes.sql
@@ -36,7 +36,7 @@ FROM (
         indexes.name IS NOT NULL
         AND indexes.is_primary_key = 0 AND indexes.is_unique_constraint = 0
         {{- if not .IncludeSystemCatalogs }}
-        AND tables.name NOT LIKE 'spt_%' AND tables.name NOT LIKE 'msreplication_%'
+        AND tables.name NOT LIKE 'spt[_]%' AND tables.name NOT LIKE 'msreplication[_]%'
         {{- end }}
         {{- if .Schemas }}
         AND schemas.name IN ({{ mklist .Schemas }})
@@ -75,7 +75,7 @@ FROM (
         indexes.name IS NOT NULL
         AND indexes.is_primary_key = 0 AND indexes.is_unique_constraint = 0
         {{- if not .IncludeSystemCatalogs }}
-        AND views.name NOT LIKE 'spt_%' AND views.name NOT LIKE 'msreplication_%'
+        AND views.name NOT LIKE 'spt[_]%' AND views.name NOT LIKE 'msreplication[_]%'
         {{- end }}
         {{- if .Schemas }}
         AND schemas.name IN ({{ mklist .Schemas }})
diff --git a/ddl/introspection_scripts/sqlserver_routines.sql b/ddl/introspection_scripts/sqlserver_routines.sql
index 84d1f83..13caf78 100644
--- a/ddl/introspection_scripts/sqlserver_routines.sql
+++ b/ddl/introspection_scripts/sqlserver_routines.sql
@@ -10,7 +10,7 @@ FROM
 WHERE
     routines.type IN ('P', 'FN', 'IF', 'TF') -- Procedure, Scalar Function, Inline Function, Table Function (https://stackoverflow.com/a/2907204)
     {{- if not .IncludeSystemCatalogs }}
-    AND routines.name NOT LIKE 'sp_%'
+    AND routines.name NOT LIKE 'sp[_]%'
     {{- end }}
     {{- if .Schemas }}
     AND schemas.name IN ({{ mklist .Schemas }})
diff --git a/ddl/introspection_scripts/sqlserver_tables.sql b/ddl/introspection_scripts/sqlserver_tables.sql
index 5cef455..18233f2 100644
--- a/ddl/introspection_scripts/sqlserver_tables.sql
+++ b/ddl/introspection_scripts/sqlserver_tables.sql
@@ -7,7 +7,7 @@ FROM
 WHERE
     tables.type = 'U' -- User-defined table (https://stackoverflow.com/a/2907204)
     {{- if not .IncludeSystemCatalogs }}
-    AND tables.name NOT LIKE 'spt_%' AND tables.name NOT LIKE 'msreplication_%'
+    AND tables.name NOT LIKE 'spt[_]%' AND tables.name NOT LIKE 'msreplication[_]%'
     {{- end }}
     {{- if .Schemas }}
     AND schemas.name IN ({{ mklist .Schemas }})
diff --git a/ddl/introspection_scripts/sqlserver_triggers.sql b/ddl/introspection_scripts/sqlserver_triggers.sql
index 810909a..23c7717 100644
--- a/ddl/introspection_scripts/sqlserver_triggers.sql
+++ b/ddl/introspection_scripts/sqlserver_triggers.sql
@@ -12,7 +12,7 @@ FROM
 WHERE
     triggers.type = 'TR' -- Trigger (https://stackoverflow.com/a/2907204)
     {{- if not .IncludeSystemCatalogs }}
-    AND tables.name NOT LIKE 'spt_%' AND tables.name NOT LIKE 'msreplication_%'
+    AND tables.name NOT LIKE 'spt[_]%' AND tables.name NOT LIKE 'msreplication[_]%'
     {{- end }}
     {{- if .Schemas }}
     AND schemas.name IN ({{ mklist .Schemas }})
diff --git a/ddl/introspection_scripts/sqlserver_views.sql b/ddl/introspection_scripts/sqlserver_views.sql
index 3ab9a6d..86d7d7f 100644
--- a/ddl/introspection_scripts/sqlserver_views.sql
+++ b/ddl/introspection_scripts/sqlserver_views.sql
@@ -19,7 +19,7 @@ FROM
 WHERE
     views.type = 'V' -- View (https://stackoverflow.com/a/2907204)
     {{- if not .IncludeSystemCatalogs }}
-    AND views.name NOT LIKE 'spt_%' AND views.name NOT LIKE 'msreplication_%'
+    AND views.name NOT LIKE 'spt[_]%' AND views.name NOT LIKE 'msreplication[_]%'
     {{- end }}
     {{- if .Schemas }}
     AND schemas.name IN ({{ mklist .Schemas }})
-- 
2.43.0


From f44bb2541d341c5c3e76bd613f6f2505a7a2d683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:20:28 +0000
Subject: [PATCH 048/152] fix: report the length of SQL Server NCHAR columns

---
 ddl/database_introspector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/database_introspector.go b/ddl/database_introspector.go
index 984ac5d..ffc7292 100644
--- a/ddl/database_introspector.go
+++ b/ddl/database_introspector.go
@@ -618,7 +618,7 @@ func (dbi *DatabaseIntrospector) GetColumns() ([]Column, error) {
 			}
 			normalizedType, _, _ := normalizeColumnType(dbi.Dialect, column.ColumnType)
 			switch normalizedType {
-			case "VARBINARY", "BINARY", "NVARCHAR", "VARCHAR", "CHAR":
+			case "VARBINARY", "BINARY", "NVARCHAR", "VARCHAR", "CHAR", "NCHAR":
 				if column.CharacterLength == "-1" {
 					column.CharacterLength = "MAX"
 				}
-- 
2.43.0


From bd696f0e33d281856766114e3ca5c3241c287d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:00 +0000
Subject: [PATCH 049/152] fix: do not report Postgres column comments as table
 comments

The comments of a table's columns have the table's oid as well, so a
table with commented columns was reported once for every comment.
---
 ddl/introspection_scripts/postgres_tables.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/introspection_scripts/postgres_tables.sql b/ddl/introspection_scripts/postgres_tables.sql
index 9b94b62..43f1aa9 100644
--- a/ddl/introspection_scripts/postgres_tables.sql
+++ b/ddl/introspection_scripts/postgres_tables.sql
@@ -5,7 +5,7 @@ SELECT
 FROM
     pg_class AS tables
     JOIN pg_namespace AS schemas ON schemas.oid = tables.relnamespace
-    LEFT JOIN pg_description ON pg_description.objoid = tables.oid
+    LEFT JOIN pg_description ON pg_description.objoid = tables.oid AND pg_description.objsubid = 0
 WHERE
     tables.relkind = 'r'
     {{- if not .IncludeSystemCatalogs }}
-- 
2.43.0


From c68540b02791fc4822e2edcc998f3877f719631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:12 +0000
Subject: [PATCH 050/152] fix: report the comments of Postgres views, enums and
 domains

The second argument of obj_description is a system catalog, not a
database.
---
 ddl/introspection_scripts/postgres_domains.sql | 2 +-
 ddl/introspection_scripts/postgres_enums.sql   | 2 +-
 ddl/introspection_scripts/postgres_views.sql   | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ddl/introspection_scripts/postgres_domains.sql b/ddl/introspection_scripts/postgres_domains.sql
index b9de9f3..30570eb 100644
--- a/ddl/introspection_scripts/postgres_domains.sql
+++ b/ddl/introspection_scripts/postgres_domains.sql
@@ -7,7 +7,7 @@ SELECT
     ,COALESCE(pg_type.typdefault, '') AS column_default
     ,json_agg(COALESCE(pg_constraint.conname, '') ORDER BY pg_constraint.oid) AS check_names
     ,json_agg(COALESCE(pg_get_constraintdef(pg_constraint.oid, true), '') ORDER BY pg_constraint.oid) AS check_exprs
-    ,COALESCE(obj_description(pg_type.oid, current_database()), '') AS domain_comment
+    ,COALESCE(obj_description(pg_type.oid, 'pg_type'), '') AS domain_comment
 FROM
     pg_type
     LEFT JOIN pg_namespace AS schemas ON schemas.oid = pg_type.typnamespace
diff --git a/ddl/introspection_scripts/postgres_enums.sql b/ddl/introspection_scripts/postgres_enums.sql
index 9e8e00b..8cb9f22 100644
--- a/ddl/introspection_scripts/postgres_enums.sql
+++ b/ddl/introspection_scripts/postgres_enums.sql
@@ -2,7 +2,7 @@ SELECT
     schemas.nspname AS enum_schema
     ,pg_type.typname AS enum_name
     ,json_agg(pg_enum.enumlabel::TEXT ORDER BY pg_enum.enumsortorder) AS enum_labels
-    ,COALESCE(obj_description(pg_type.oid, current_database()), '') AS enum_comment
+    ,COALESCE(obj_description(pg_type.oid, 'pg_type'), '') AS enum_comment
 FROM
     pg_enum
     JOIN pg_type ON pg_type.oid = pg_enum.enumtypid
diff --git a/ddl/introspection_scripts/postgres_views.sql b/ddl/introspection_scripts/postgres_views.sql
index 4c1454e..64c38cb 100644
--- a/ddl/introspection_scripts/postgres_views.sql
+++ b/ddl/introspection_scripts/postgres_views.sql
@@ -6,7 +6,7 @@ SELECT
     ,columns.names AS column_names
     ,columns.types AS column_types
     ,columns.enums AS column_enums
-    ,COALESCE(obj_description(to_regclass(pg_views.schemaname || '.' || pg_views.viewname), current_database()), '') AS view_comment
+    ,COALESCE(obj_description(to_regclass(pg_views.schemaname || '.' || pg_views.viewname), 'pg_class'), '') AS view_comment
 FROM
     pg_views
     JOIN (
@@ -48,7 +48,7 @@ SELECT
     ,columns.names AS column_names
     ,columns.types AS column_types
     ,columns.enums AS column_enums
-    ,COALESCE(obj_description(to_regclass(pg_matviews.schemaname || '.' || pg_matviews.matviewname), current_database()), '') AS view_comment
+    ,COALESCE(obj_description(to_regclass(pg_matviews.schemaname || '.' || pg_matviews.matviewname), 'pg_class'), '') AS view_comment
 FROM
     pg_matviews
     JOIN (
-- 
2.43.0


From 5f58695641d497776cff58982c584ecb9b804e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:23 +0000
Subject: [PATCH 051/152] fix: report Postgres views whose names have to be
 quoted

The names were passed to to_regclass unquoted, so that such views were
not found and left out.
---
 ddl/introspection_scripts/postgres_views.sql | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ddl/introspection_scripts/postgres_views.sql b/ddl/introspection_scripts/postgres_views.sql
index 64c38cb..7e00c15 100644
--- a/ddl/introspection_scripts/postgres_views.sql
+++ b/ddl/introspection_scripts/postgres_views.sql
@@ -2,11 +2,11 @@ SELECT
     pg_views.schemaname AS view_schema
     ,pg_views.viewname AS view_name
     ,FALSE AS is_materialized
-    ,pg_get_viewdef(to_regclass(pg_views.schemaname || '.' || pg_views.viewname), TRUE) AS sql
+    ,pg_get_viewdef(to_regclass(format('%I.%I', pg_views.schemaname, pg_views.viewname)), TRUE) AS sql
     ,columns.names AS column_names
     ,columns.types AS column_types
     ,columns.enums AS column_enums
-    ,COALESCE(obj_description(to_regclass(pg_views.schemaname || '.' || pg_views.viewname), 'pg_class'), '') AS view_comment
+    ,COALESCE(obj_description(to_regclass(format('%I.%I', pg_views.schemaname, pg_views.viewname)), 'pg_class'), '') AS view_comment
 FROM
     pg_views
     JOIN (
@@ -23,7 +23,7 @@ FROM
             AND NOT pg_attribute.attisdropped -- exclude dropped columns
         GROUP BY
             pg_attribute.attrelid
-    ) AS columns ON columns.attrelid = to_regclass(pg_views.schemaname || '.' || pg_views.viewname)
+    ) AS columns ON columns.attrelid = to_regclass(format('%I.%I', pg_views.schemaname, pg_views.viewname))
 WHERE
     TRUE
     {{- if not .IncludeSystemCatalogs }}
@@ -44,11 +44,11 @@ SELECT
     pg_matviews.schemaname AS view_schema
     ,pg_matviews.matviewname AS view_name
     ,TRUE AS is_materialized
-    ,pg_get_viewdef(to_regclass(pg_matviews.schemaname || '.' || pg_matviews.matviewname), TRUE) AS sql
+    ,pg_get_viewdef(to_regclass(format('%I.%I', pg_matviews.schemaname, pg_matviews.matviewname)), TRUE) AS sql
     ,columns.names AS column_names
     ,columns.types AS column_types
     ,columns.enums AS column_enums
-    ,COALESCE(obj_description(to_regclass(pg_matviews.schemaname || '.' || pg_matviews.matviewname), 'pg_class'), '') AS view_comment
+    ,COALESCE(obj_description(to_regclass(format('%I.%I', pg_matviews.schemaname, pg_matviews.matviewname)), 'pg_class'), '') AS view_comment
 FROM
     pg_matviews
     JOIN (
@@ -65,7 +65,7 @@ FROM
             AND NOT pg_attribute.attisdropped -- exclude dropped columns
         GROUP BY
             pg_attribute.attrelid
-    ) AS columns ON columns.attrelid = to_regclass(pg_matviews.schemaname || '.' || pg_matviews.matviewname)
+    ) AS columns ON columns.attrelid = to_regclass(format('%I.%I', pg_matviews.schemaname, pg_matviews.matviewname))
 WHERE
     TRUE
     {{- if not .IncludeSystemCatalogs }}
-- 
2.43.0


From a3bbf011cd3eacfe24f34ef4ce8a7d437f119e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:35 +0000
Subject: [PATCH 052/152] fix: report Postgres indexes named like an unrelated
 constraint

An index was left out when any constraint had its name. Only the
constraints that the index implements count.
---
 ddl/introspection_scripts/postgres_indexes.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/introspection_scripts/postgres_indexes.sql b/ddl/introspection_scripts/postgres_indexes.sql
index c387882..5ef062c 100644
--- a/ddl/introspection_scripts/postgres_indexes.sql
+++ b/ddl/introspection_scripts/postgres_indexes.sql
@@ -40,7 +40,7 @@ FROM (
             -- exclude indexes created by constraints
             SELECT 1
             FROM pg_constraint
-            WHERE pg_constraint.conname = indexes.relname
+            WHERE pg_constraint.conindid = indexes.oid AND pg_constraint.contype IN ('p', 'u', 'x')
         )
         {{- if not .IncludeSystemCatalogs }}
         AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg_%'
-- 
2.43.0


From 2aaffa16139546fafbe1fccf4596a303cf0d12f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:47 +0000
Subject: [PATCH 053/152] fix: report the length and precision of Postgres
 domain columns

---
 ddl/introspection_scripts/postgres_columns.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/introspection_scripts/postgres_columns.sql b/ddl/introspection_scripts/postgres_columns.sql
index 0c5dbea..0a8ea8b 100644
--- a/ddl/introspection_scripts/postgres_columns.sql
+++ b/ddl/introspection_scripts/postgres_columns.sql
@@ -3,7 +3,7 @@ SELECT
     ,tables.relname AS table_name
     ,columns.attname AS column_name
     ,CASE
-        WHEN domain_base_type.oid IS NOT NULL THEN format_type(domain_base_type.oid, domain_base_type.typtypmod)
+        WHEN domain_base_type.oid IS NOT NULL THEN format_type(domain_base_type.oid, domain_type.typtypmod)
         ELSE format_type(columns.atttypid, columns.atttypmod)
     END AS column_type
     ,enum.oid IS NOT NULL AS is_enum
-- 
2.43.0


From 9da8aa9223c42a67d5f053a3dd2cadf50a29f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:59 +0000
Subject: [PATCH 054/152] fix: make the enum and domain filters valid SQL

---
 ddl/introspection_scripts/postgres_domains.sql | 4 ++--
 ddl/introspection_scripts/postgres_enums.sql   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ddl/introspection_scripts/postgres_domains.sql b/ddl/introspection_scripts/postgres_domains.sql
index 30570eb..f94e840 100644
--- a/ddl/introspection_scripts/postgres_domains.sql
+++ b/ddl/introspection_scripts/postgres_domains.sql
@@ -25,9 +25,9 @@ WHERE
     AND schemas.nspname NOT IN ({{ mklist .ExcludeSchemas }})
     {{- end }}
     {{- if .Domains }}
-    pg_type.typname IN ({{ mklist .Domains }})
+    AND pg_type.typname IN ({{ mklist .Domains }})
     {{- else if .ExcludeDomains }}
-    pg_type.typname NOT IN ({{ mklist .ExcludeDomains }})
+    AND pg_type.typname NOT IN ({{ mklist .ExcludeDomains }})
     {{- end }}
 GROUP BY
     schemas.nspname
diff --git a/ddl/introspection_scripts/postgres_enums.sql b/ddl/introspection_scripts/postgres_enums.sql
index 8cb9f22..f7eb564 100644
--- a/ddl/introspection_scripts/postgres_enums.sql
+++ b/ddl/introspection_scripts/postgres_enums.sql
@@ -18,9 +18,9 @@ WHERE
     AND schemas.nspname NOT IN ({{ mklist .ExcludeSchemas }})
     {{- end }}
     {{- if .Enums }}
-    AND pg_typ.typname IN ({{ mklist .Enums }})
+    AND pg_type.typname IN ({{ mklist .Enums }})
     {{- else if .ExcludeEnums }}
-    AND pg_typ.typname NOT IN ({{ mklist .ExcludeEnums }})
+    AND pg_type.typname NOT IN ({{ mklist .ExcludeEnums }})
     {{- end }}
 GROUP BY
     schemas.nspname
-- 
2.43.0


From 93039debf6461151206b589d24aae5045dc189e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:23:11 +0000
Subject: [PATCH 055/152] fix: report Postgres schemas whose names merely start
 with pg

The underscore in the LIKE pattern matched any character, so that a
schema named pgx counted as a system schema.
---
 ddl/introspection_scripts/postgres_columns.sql     |  2 +-
 ddl/introspection_scripts/postgres_constraints.sql | 10 +++++-----
 ddl/introspection_scripts/postgres_domains.sql     |  2 +-
 ddl/introspection_scripts/postgres_enums.sql       |  2 +-
 ddl/introspection_scripts/postgres_indexes.sql     |  2 +-
 ddl/introspection_scripts/postgres_routines.sql    |  2 +-
 ddl/introspection_scripts/postgres_tables.sql      |  2 +-
 ddl/introspection_scripts/postgres_triggers.sql    |  2 +-
 ddl/introspection_scripts/postgres_views.sql       |  4 ++--
 9 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/ddl/introspection_scripts/postgres_columns.sql b/ddl/introspection_scripts/postgres_columns.sql
index 0a8ea8b..4a32639 100644
--- a/ddl/introspection_scripts/postgres_columns.sql
+++ b/ddl/introspection_scripts/postgres_columns.sql
@@ -52,7 +52,7 @@ WHERE
     columns.attnum > 0           -- exclude system columns
     AND NOT columns.attisdropped -- exclude dropped columns
     {{- if not .IncludeSystemCatalogs }}
-    AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg_%'
+    AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg\_%'
     {{- end }}
     {{- if .Schemas }}
     AND schemas.nspname IN ({{ mklist .Schemas }})
diff --git a/ddl/introspection_scripts/postgres_constraints.sql b/ddl/introspection_scripts/postgres_constraints.sql
index 59d9d02..20a7076 100644
--- a/ddl/introspection_scripts/postgres_constraints.sql
+++ b/ddl/introspection_scripts/postgres_constraints.sql
@@ -58,7 +58,7 @@ FROM (
     WHERE
         pg_constraint.contype = 'p'
         {{- if not .IncludeSystemCatalogs }}
-        AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg_%'
+        AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg\_%'
         {{- end }}
         {{- if .Schemas }}
         AND schemas.nspname IN ({{ mklist .Schemas }})
@@ -117,7 +117,7 @@ FROM (
     WHERE
         pg_constraint.contype = 'u'
         {{- if not .IncludeSystemCatalogs }}
-        AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg_%'
+        AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg\_%'
         {{- end }}
         {{- if .Schemas }}
         AND schemas.nspname IN ({{ mklist .Schemas }})
@@ -203,7 +203,7 @@ FROM (
     WHERE
         pg_constraint.contype = 'f'
         {{- if not .IncludeSystemCatalogs }}
-        AND schemas1.nspname <> 'information_schema' AND schemas1.nspname NOT LIKE 'pg_%'
+        AND schemas1.nspname <> 'information_schema' AND schemas1.nspname NOT LIKE 'pg\_%'
         {{- end }}
         {{- if .Schemas }}
         AND schemas1.nspname IN ({{ mklist .Schemas }})
@@ -257,7 +257,7 @@ FROM
 WHERE
     pg_constraint.contype = 'c'
     {{- if not .IncludeSystemCatalogs }}
-    AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg_%'
+    AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg\_%'
     {{- end }}
     {{- if .Schemas }}
     AND schemas.nspname IN ({{ mklist .Schemas }})
@@ -318,7 +318,7 @@ FROM (
     WHERE
         pg_constraint.contype = 'x'
         {{- if not .IncludeSystemCatalogs }}
-        AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg_%'
+        AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg\_%'
         {{- end }}
         {{- if .Schemas }}
         AND schemas.nspname IN ({{ mklist .Schemas }})
diff --git a/ddl/introspection_scripts/postgres_domains.sql b/ddl/introspection_scripts/postgres_domains.sql
index f94e840..8ed03e3 100644
--- a/ddl/introspection_scripts/postgres_domains.sql
+++ b/ddl/introspection_scripts/postgres_domains.sql
@@ -17,7 +17,7 @@ FROM
 WHERE
     pg_type.typtype = 'd'
     {{- if not .IncludeSystemCatalogs }}
-    AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg_%'
+    AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg\_%'
     {{- end }}
     {{- if .Schemas }}
     AND schemas.nspname IN ({{ mklist .Schemas }})
diff --git a/ddl/introspection_scripts/postgres_enums.sql b/ddl/introspection_scripts/postgres_enums.sql
index f7eb564..756b4b6 100644
--- a/ddl/introspection_scripts/postgres_enums.sql
+++ b/ddl/introspection_scripts/postgres_enums.sql
@@ -10,7 +10,7 @@ FROM
 WHERE
     TRUE
     {{- if not .IncludeSystemCatalogs }}
-    AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg_%'
+    AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg\_%'
     {{- end }}
     {{- if .Schemas }}
     AND schemas.nspname IN ({{ mklist .Schemas }})
diff --git a/ddl/introspection_scripts/postgres_indexes.sql b/ddl/introspection_scripts/postgres_indexes.sql
index 5ef062c..1d5357f 100644
--- a/ddl/introspection_scripts/postgres_indexes.sql
+++ b/ddl/introspection_scripts/postgres_indexes.sql
@@ -43,7 +43,7 @@ FROM (
             WHERE pg_constraint.conindid = indexes.oid AND pg_constraint.contype IN ('p', 'u', 'x')
         )
         {{- if not .IncludeSystemCatalogs }}
-        AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg_%'
+        AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg\_%'
         {{- end }}
         {{- if .Schemas }}
         AND schemas.nspname IN ({{ mklist .Schemas }})
diff --git a/ddl/introspection_scripts/postgres_routines.sql b/ddl/introspection_scripts/postgres_routines.sql
index e273134..152c59f 100644
--- a/ddl/introspection_scripts/postgres_routines.sql
+++ b/ddl/introspection_scripts/postgres_routines.sql
@@ -38,7 +38,7 @@ WHERE
             AND pg_proc.oid = proc2.oid
     )
     {{- if not .IncludeSystemCatalogs }}
-    AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg_%'
+    AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg\_%'
     {{- end }}
     {{- if .Schemas }}
     AND schemas.nspname IN ({{ mklist .Schemas }})
diff --git a/ddl/introspection_scripts/postgres_tables.sql b/ddl/introspection_scripts/postgres_tables.sql
index 43f1aa9..872bff3 100644
--- a/ddl/introspection_scripts/postgres_tables.sql
+++ b/ddl/introspection_scripts/postgres_tables.sql
@@ -9,7 +9,7 @@ FROM
 WHERE
     tables.relkind = 'r'
     {{- if not .IncludeSystemCatalogs }}
-    AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg_%'
+    AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg\_%'
     {{- end }}
     {{- if .Schemas }}
     AND schemas.nspname IN ({{ mklist .Schemas }})
diff --git a/ddl/introspection_scripts/postgres_triggers.sql b/ddl/introspection_scripts/postgres_triggers.sql
index 292b71e..6cad78e 100644
--- a/ddl/introspection_scripts/postgres_triggers.sql
+++ b/ddl/introspection_scripts/postgres_triggers.sql
@@ -13,7 +13,7 @@ FROM
 WHERE
     NOT pg_trigger.tgisinternal -- exclude system triggers
     {{- if not .IncludeSystemCatalogs }}
-    AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg_%'
+    AND schemas.nspname <> 'information_schema' AND schemas.nspname NOT LIKE 'pg\_%'
     {{- end }}
     {{- if .Schemas }}
     AND schemas.nspname IN ({{ mklist .Schemas }})
diff --git a/ddl/introspection_scripts/postgres_views.sql b/ddl/introspection_scripts/postgres_views.sql
index 7e00c15..41a893a 100644
--- a/ddl/introspection_scripts/postgres_views.sql
+++ b/ddl/introspection_scripts/postgres_views.sql
@@ -27,7 +27,7 @@ FROM
 WHERE
     TRUE
     {{- if not .IncludeSystemCatalogs }}
-    AND pg_views.schemaname <> 'information_schema' AND pg_views.schemaname NOT LIKE 'pg_%'
+    AND pg_views.schemaname <> 'information_schema' AND pg_views.schemaname NOT LIKE 'pg\_%'
     {{- end }}
     {{- if .Schemas }}
     AND pg_views.schemaname IN ({{ mklist .Schemas }})
@@ -69,7 +69,7 @@ FROM
 WHERE
     TRUE
     {{- if not .IncludeSystemCatalogs }}
-    AND pg_matviews.schemaname <> 'information_schema' AND pg_matviews.schemaname NOT LIKE 'pg_%'
+    AND pg_matviews.schemaname <> 'information_schema' AND pg_matviews.schemaname NOT LIKE 'pg\_%'
     {{- end }}
     {{- if .Schemas }}
     AND pg_matviews.schemaname IN ({{ mklist .Schemas }})
-- 
2.43.0


From 5880b0b237c42bc14df9dd42ae839936e63eb958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:24:39 +0000
Subject: [PATCH 056/152] fix: do not report an empty check for Postgres
 domains without checks

---
 ddl/database_introspector.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ddl/database_introspector.go b/ddl/database_introspector.go
index ffc7292..c0ff0f2 100644
--- a/ddl/database_introspector.go
+++ b/ddl/database_introspector.go
@@ -874,6 +874,10 @@ func (dbi *DatabaseIntrospector) GetDomains() ([]Domain, error) {
 		for i, checkExpr := range domain.CheckExprs {
 			domain.CheckExprs[i] = strings.TrimPrefix(checkExpr, "CHECK ")
 		}
+		// A domain without checks yields a single empty check.
+		if len(domain.CheckExprs) == 1 && domain.CheckExprs[0] == "" {
+			domain.CheckNames, domain.CheckExprs = nil, nil
+		}
 		// When deserializing a Catalog from JSON, empty slices are set as
 		// nil (because of omitempty). If we want to follow that precedent
 		// we have to set empty slices to nil here as well.
-- 
2.43.0


From 9306083c289f3e0cc88db95a195cf78e72c26f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:25:01 +0000
Subject: [PATCH 057/152] fix: keep the brackets of Postgres array types that
 have arguments

character varying(10)[] was reported as varchar(10).
---
 ddl/database_introspector.go | 7 +++++++
 ddl/ddl.go                   | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/ddl/database_introspector.go b/ddl/database_introspector.go
index c0ff0f2..1f86e2e 100644
--- a/ddl/database_introspector.go
+++ b/ddl/database_introspector.go
@@ -545,6 +545,13 @@ func (dbi *DatabaseIntrospector) GetColumns() ([]Column, error) {
 			}
 			if column.IsEnum {
 				column.ColumnType = strings.ToLower(column.ColumnType)
+			} else if arg1 != "" && strings.HasSuffix(normalizedType, "[]") {
+				// The arguments come before the array brackets.
+				args := arg1
+				if arg2 != "" {
+					args += "," + arg2
+				}
+				column.ColumnType = strings.ToLower(strings.TrimSuffix(normalizedType, "[]")) + "(" + args + ")[]"
 			} else if arg1 != "" && arg2 != "" {
 				column.ColumnType = strings.ToLower(normalizedType) + "(" + arg1 + "," + arg2 + ")"
 			} else if arg1 != "" {
diff --git a/ddl/ddl.go b/ddl/ddl.go
index 1b79ab7..ef5289a 100644
--- a/ddl/ddl.go
+++ b/ddl/ddl.go
@@ -801,6 +801,9 @@ func normalizeColumnType(dialect string, columnType string) (normalizedType, arg
 	if dialect == DialectPostgres && strings.HasSuffix(normalizedType, "[]") {
 		isPostgresArray = true
 		normalizedType = normalizedType[:len(normalizedType)-2]
+	} else if dialect == DialectPostgres && strings.HasSuffix(suffix, "[]") {
+		isPostgresArray = true
+		suffix = strings.TrimSpace(suffix[:len(suffix)-2])
 	}
 	switch dialect {
 	case DialectPostgres:
-- 
2.43.0


From 4b7358ced5e1c40e426be0adea89b8b5be70cd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:25:12 +0000
Subject: [PATCH 058/152] fix: do not panic on column types with a stray
 closing bracket

---
 ddl/ddl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/ddl.go b/ddl/ddl.go
index ef5289a..e3b233c 100644
--- a/ddl/ddl.go
+++ b/ddl/ddl.go
@@ -785,7 +785,7 @@ func normalizeColumnType(dialect string, columnType string) (normalizedType, arg
 	var args, suffix string
 	i := strings.Index(columnType, "(")
 	j := strings.LastIndex(columnType, ")")
-	if j > i {
+	if i >= 0 && j > i {
 		normalizedType = strings.TrimSpace(columnType[:i])
 		args = strings.TrimSpace(columnType[i+1 : j])
 		suffix = strings.TrimSpace(columnType[j+1:])
-- 
2.43.0


From 35c5d98d11946c30f37cb024c86f8b9c66e7b946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:03 +0000
Subject: [PATCH 059/152] fix: understand MySQL versions that have a suffix

Version strings such as 5.7.40-log or 8.0.31-0ubuntu0.20.04.1 made the
introspection fail.
---
 ddl/database_introspector.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ddl/database_introspector.go b/ddl/database_introspector.go
index 1f86e2e..114df73 100644
--- a/ddl/database_introspector.go
+++ b/ddl/database_introspector.go
@@ -314,10 +314,9 @@ func (dbi *DatabaseIntrospector) GetVersionNums() (versionNums VersionNums, err
 		// Example: "15.2 (Debian 15.2-1.pgdg110+1)"
 		version, _, _ = strings.Cut(version, " ")
 	case DialectMySQL:
-		if strings.Contains(version, "MariaDB") {
-			// Example: "10.11.2-MariaDB-1:10.11.2+maria~ubu2204"
-			version, _, _ = strings.Cut(version, "-")
-		}
+		// Example: "10.11.2-MariaDB-1:10.11.2+maria~ubu2204"
+		// Example: "8.0.31-0ubuntu0.20.04.1"
+		version, _, _ = strings.Cut(version, "-")
 	}
 	strs := strings.Split(version, ".")
 	versionNums = make([]int, len(strs))
-- 
2.43.0


From 0d2c2eb27db9cd502358c19123acf894eebbe507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:25 +0000
Subject: [PATCH 060/152] fix: introspect Postgres databases that have
 aggregates

pg_get_functiondef raises an error for aggregate functions, so that a
single one made the introspection fail.
---
 ddl/introspection_scripts/postgres_routines.sql | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ddl/introspection_scripts/postgres_routines.sql b/ddl/introspection_scripts/postgres_routines.sql
index 152c59f..f08ffe8 100644
--- a/ddl/introspection_scripts/postgres_routines.sql
+++ b/ddl/introspection_scripts/postgres_routines.sql
@@ -17,7 +17,12 @@ SELECT
     END AS routine_type
     {{- end }}
     ,pg_get_function_identity_arguments(pg_proc.oid) AS identity_arguments
-    ,pg_get_functiondef(pg_proc.oid) || ';' AS sql
+    -- pg_get_functiondef raises an error for aggregates
+    {{- if .VersionNums.LowerThan 11 }}
+    ,CASE WHEN pg_proc.proisagg THEN '' ELSE pg_get_functiondef(pg_proc.oid) || ';' END AS sql
+    {{- else }}
+    ,CASE WHEN pg_proc.prokind = 'a' THEN '' ELSE pg_get_functiondef(pg_proc.oid) || ';' END AS sql
+    {{- end }}
     ,COALESCE(pg_get_function_result(pg_proc.oid), '') AS return_type
     ,COALESCE(pg_description.description, '') AS routine_comment
 FROM
-- 
2.43.0


From 52db07f19a878ba0e65a9295be29cb23318366db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:33:04 +0000
Subject: [PATCH 061/152] fix: introspect SQLite foreign keys that reference a
 primary key implicitly

---
 ddl/database_introspector.go                     | 4 +++-
 ddl/introspection_scripts/sqlite_constraints.sql | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ddl/database_introspector.go b/ddl/database_introspector.go
index 114df73..7e893c6 100644
--- a/ddl/database_introspector.go
+++ b/ddl/database_introspector.go
@@ -254,7 +254,9 @@ func (dbi *DatabaseIntrospector) WriteCatalog(catalog *Catalog) error {
 				case FOREIGN_KEY:
 					column.ReferencesSchema = constraint.ReferencesSchema
 					column.ReferencesTable = constraint.ReferencesTable
-					column.ReferencesColumn = constraint.ReferencesColumns[0]
+					if len(constraint.ReferencesColumns) > 0 {
+						column.ReferencesColumn = constraint.ReferencesColumns[0]
+					}
 					column.UpdateRule = constraint.UpdateRule
 					column.DeleteRule = constraint.DeleteRule
 					column.IsDeferrable = constraint.IsDeferrable
diff --git a/ddl/introspection_scripts/sqlite_constraints.sql b/ddl/introspection_scripts/sqlite_constraints.sql
index 522bbad..05e9844 100644
--- a/ddl/introspection_scripts/sqlite_constraints.sql
+++ b/ddl/introspection_scripts/sqlite_constraints.sql
@@ -123,7 +123,12 @@ FROM (
         ,columns.id AS foreign_key_id
         ,columns."from" AS column_name
         ,columns."table" AS references_table
-        ,columns."to" AS references_column
+        -- "to" is NULL if the foreign key references the primary key implicitly
+        ,COALESCE(columns."to", (
+            SELECT referenced.name
+            FROM pragma_table_info(columns."table") AS referenced
+            WHERE referenced.pk = columns.seq + 1
+        )) AS references_column
         ,columns.on_update AS update_rule
         ,columns.on_delete AS delete_rule
     FROM (
-- 
2.43.0


From c0fefc110c3301a4af23af64109f7d6b9c54bae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:33:28 +0000
Subject: [PATCH 062/152] fix: introspect SQLite triggers of views and of
 tables named in another case

---
 ddl/database_introspector.go                  |  2 +-
 ddl/introspection_scripts/sqlite_triggers.sql | 44 ++++++++++++-------
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/ddl/database_introspector.go b/ddl/database_introspector.go
index 7e893c6..24a7a8b 100644
--- a/ddl/database_introspector.go
+++ b/ddl/database_introspector.go
@@ -1349,7 +1349,7 @@ func (dbi *DatabaseIntrospector) GetTriggers() ([]Trigger, error) {
 		var trigger Trigger
 		switch dbi.Dialect {
 		case DialectSQLite:
-			err = rows.Scan(&trigger.TableName, &trigger.TriggerName, &trigger.SQL)
+			err = rows.Scan(&trigger.TableName, &trigger.TriggerName, &trigger.IsViewTrigger, &trigger.SQL)
 			if err != nil {
 				return nil, fmt.Errorf("scanning Trigger: %w", err)
 			}
diff --git a/ddl/introspection_scripts/sqlite_triggers.sql b/ddl/introspection_scripts/sqlite_triggers.sql
index 79679be..82a8402 100644
--- a/ddl/introspection_scripts/sqlite_triggers.sql
+++ b/ddl/introspection_scripts/sqlite_triggers.sql
@@ -1,20 +1,32 @@
 SELECT
-    tbl_name AS table_name
-    ,name AS trigger_name
-    ,sql || ';' AS sql
-FROM
-    sqlite_schema
+    table_name
+    ,trigger_name
+    ,is_view_trigger
+    ,sql
+FROM (
+    SELECT
+        -- a trigger keeps its table name as it was written in CREATE TRIGGER
+        parents.name AS table_name
+        ,triggers.name AS trigger_name
+        ,parents.type = 'view' AS is_view_trigger
+        ,triggers.sql || ';' AS sql
+    FROM
+        sqlite_schema AS triggers
+        JOIN sqlite_schema AS parents ON parents.type IN ('table', 'view') AND parents.name = triggers.tbl_name COLLATE NOCASE
+    WHERE
+        triggers.type = 'trigger'
+        {{- if not .IncludeSystemCatalogs }}
+        AND triggers.tbl_name NOT LIKE 'sqlite\_%' ESCAPE '\' AND triggers.sql NOT LIKE 'CREATE TABLE ''%'
+        {{- end }}
+    ) AS tmp
+{{- if .Tables }}
 WHERE
-    type = 'trigger'
-    {{- if not .IncludeSystemCatalogs }}
-    AND tbl_name NOT LIKE 'sqlite\_%' ESCAPE '\' AND sql NOT LIKE 'CREATE TABLE ''%'
-    {{- end }}
-    {{- if .Tables }}
-    AND tbl_name IN ({{ mklist .Tables }})
-    {{- else if .ExcludeTables }}
-    AND tbl_name NOT IN ({{ mklist .ExcludeTables }})
-    {{- end }}
+    table_name IN ({{ mklist .Tables }})
+{{- else if .ExcludeTables }}
+WHERE
+    table_name NOT IN ({{ mklist .ExcludeTables }})
+{{- end }}
 ORDER BY
-    tbl_name
-    ,name
+    table_name
+    ,trigger_name
 ;
-- 
2.43.0


From 330e158862ad6b248def0d61388af86f965d1426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:33:55 +0000
Subject: [PATCH 063/152] fix: report errors that end the introspection of
 triggers early

---
 ddl/database_introspector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/database_introspector.go b/ddl/database_introspector.go
index 24a7a8b..6cdb994 100644
--- a/ddl/database_introspector.go
+++ b/ddl/database_introspector.go
@@ -1397,7 +1397,7 @@ func (dbi *DatabaseIntrospector) GetTriggers() ([]Trigger, error) {
 		trigger.SQL = strings.ReplaceAll(trigger.SQL, "\r\n", "\n")
 		triggers = append(triggers, trigger)
 	}
-	return triggers, nil
+	return triggers, closeRows(rows)
 }
 
 // GetViews returns the views in the database.
-- 
2.43.0


From 6ba2aac475f3e3ea7c1874c68fca7a11b7332f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:20:20 +0000
Subject: [PATCH 064/152] fix: wipe overloaded Postgres routines and aggregates

---
 ddl/wipe_cmd.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ddl/wipe_cmd.go b/ddl/wipe_cmd.go
index 7d71401..ee67525 100644
--- a/ddl/wipe_cmd.go
+++ b/ddl/wipe_cmd.go
@@ -187,6 +187,8 @@ func (cmd *WipeCmd) Run() error {
 			cmd.buf.WriteString("DROP ")
 			if routine.RoutineType == "PROCEDURE" {
 				cmd.buf.WriteString("PROCEDURE ")
+			} else if routine.RoutineType == "AGGREGATE" {
+				cmd.buf.WriteString("AGGREGATE ")
 			} else {
 				cmd.buf.WriteString("FUNCTION ")
 			}
@@ -196,7 +198,12 @@ func (cmd *WipeCmd) Run() error {
 			}
 			cmd.buf.WriteString(QuoteIdentifier(cmd.Dialect, routine.RoutineName))
 			if cmd.Dialect == DialectPostgres {
-				cmd.buf.WriteString(" CASCADE")
+				// Routines may share a name, the arguments tell them apart.
+				arguments := routine.IdentityArguments
+				if routine.RoutineType == "AGGREGATE" && arguments == "" {
+					arguments = "*"
+				}
+				cmd.buf.WriteString("(" + arguments + ") CASCADE")
 			}
 			cmd.buf.WriteString(";\n")
 		}
-- 
2.43.0


From 778d28ea5bfcc06702c1824e894ec6b4531533b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:20:31 +0000
Subject: [PATCH 065/152] fix: wipe MySQL databases older than 8.0.19

---
 ddl/wipe_cmd.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ddl/wipe_cmd.go b/ddl/wipe_cmd.go
index ee67525..1af5bcd 100644
--- a/ddl/wipe_cmd.go
+++ b/ddl/wipe_cmd.go
@@ -140,7 +140,14 @@ func (cmd *WipeCmd) Run() error {
 			if constraint.TableSchema != "" && constraint.TableSchema != currentSchema {
 				cmd.buf.WriteString(QuoteIdentifier(cmd.Dialect, constraint.TableSchema) + ".")
 			}
-			cmd.buf.WriteString(QuoteIdentifier(cmd.Dialect, constraint.TableName) + " DROP CONSTRAINT " + QuoteIdentifier(cmd.Dialect, constraint.ConstraintName))
+			cmd.buf.WriteString(QuoteIdentifier(cmd.Dialect, constraint.TableName))
+			if cmd.Dialect == DialectMySQL {
+				// MySQL understands DROP CONSTRAINT only since 8.0.19.
+				cmd.buf.WriteString(" DROP FOREIGN KEY ")
+			} else {
+				cmd.buf.WriteString(" DROP CONSTRAINT ")
+			}
+			cmd.buf.WriteString(QuoteIdentifier(cmd.Dialect, constraint.ConstraintName))
 			if cmd.Dialect == DialectPostgres {
 				cmd.buf.WriteString(" CASCADE")
 			}
-- 
2.43.0


From 9bb1dc27444f4d5818ef0ea9b5b53dce860edb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:29:27 +0000
Subject: [PATCH 066/152] fix: wipe SQLite databases that have cascading self
 references

---
 ddl/wipe_cmd.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/ddl/wipe_cmd.go b/ddl/wipe_cmd.go
index 1af5bcd..4fca364 100644
--- a/ddl/wipe_cmd.go
+++ b/ddl/wipe_cmd.go
@@ -290,7 +290,23 @@ func (cmd *WipeCmd) Run() error {
 	}
 
 	// Otherwise, run the queries in a transaction.
-	tx, err := cmd.DB.BeginTx(cmd.Ctx, nil)
+	conn, err := cmd.DB.Conn(cmd.Ctx)
+	if err != nil {
+		return err
+	}
+	defer conn.Close()
+	restoreSessionValue := func() error { return nil }
+	if cmd.Dialect == DialectSQLite {
+		// SQLite can't drop a table with an ON DELETE CASCADE self reference
+		// if another table that it references has already been dropped, even
+		// if foreign keys are deferred.
+		restoreSessionValue, err = setSessionValue(cmd.Ctx, conn, "PRAGMA foreign_keys", "PRAGMA foreign_keys = %s", "0")
+		if err != nil {
+			return err
+		}
+		defer restoreSessionValue()
+	}
+	tx, err := conn.BeginTx(cmd.Ctx, nil)
 	if err != nil {
 		return err
 	}
@@ -303,5 +319,5 @@ func (cmd *WipeCmd) Run() error {
 	if err != nil {
 		return err
 	}
-	return nil
+	return restoreSessionValue()
 }
-- 
2.43.0


From 57644d937f766ae8b9b2841767bde3c46edcfc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:40:20 +0000
Subject: [PATCH 067/152] fix: table-level modifiers of other dialects do not
 undo a declaration

---
 ddl/struct_parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/struct_parser.go b/ddl/struct_parser.go
index a0a5e42..055f3d7 100644
--- a/ddl/struct_parser.go
+++ b/ddl/struct_parser.go
@@ -820,6 +820,9 @@ func (p *StructParser) parseTableModifiers(table *Table, loc location, modifiers
 		if len(modifier.Dialects) == 0 {
 			modifier.Dialects = dialects
 		}
+		if modifier.ExcludesDialect(p.dialect) {
+			continue
+		}
 		switch modifier.Name {
 		case "dialect":
 			if modifier.RawValue == "" {
-- 
2.43.0


From 1e671a24423f86a2de1468abbb6ff6b37ae0cc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:40:46 +0000
Subject: [PATCH 068/152] fix: an expression between two string literals is not
 a literal default

---
 ddl/ddl.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ddl/ddl.go b/ddl/ddl.go
index e3b233c..090c112 100644
--- a/ddl/ddl.go
+++ b/ddl/ddl.go
@@ -617,7 +617,8 @@ func GenerateName(nameType string, tableName string, columnNames []string) strin
 func isLiteral(s string) bool {
 	// is string literal?
 	if len(s) >= 2 && s[0] == '\'' && s[len(s)-1] == '\'' {
-		return true
+		// It is one literal only if every quote inside is escaped.
+		return !strings.Contains(strings.NewReplacer(`\\`, "", `\'`, "", `''`, "").Replace(s[1:len(s)-1]), "'")
 	}
 	// is known literal?
 	if strings.EqualFold(s, "TRUE") ||
-- 
2.43.0


From a0f9d12f03384a1fa44b2d78e40634948587a918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:41:15 +0000
Subject: [PATCH 069/152] fix: the text of a modifier keeps its dialects and
 its brace quoting

---
 ddl/modifier.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ddl/modifier.go b/ddl/modifier.go
index a8eaad5..e3f8f98 100644
--- a/ddl/modifier.go
+++ b/ddl/modifier.go
@@ -95,12 +95,15 @@ func (m *Modifier) writeBuf(buf *bytes.Buffer) {
 		return
 	}
 	last := buf.Len() - 1
-	if last > 0 && buf.Bytes()[last] != ' ' {
+	if last >= 0 && buf.Bytes()[last] != ' ' {
 		buf.WriteString(" ")
 	}
+	if len(m.Dialects) > 0 {
+		buf.WriteString(strings.Join(m.Dialects, ",") + ":")
+	}
 	buf.WriteString(m.Name)
 	if m.RawValue != "" {
-		if i := strings.IndexByte(m.RawValue, ' '); i >= 0 {
+		if strings.IndexByte(m.RawValue, ' ') >= 0 || m.RawValue[0] == '{' {
 			buf.WriteString("={" + m.RawValue + "}")
 		} else {
 			buf.WriteString("=" + m.RawValue)
@@ -111,7 +114,7 @@ func (m *Modifier) writeBuf(buf *bytes.Buffer) {
 		return
 	}
 	buf.WriteString("=")
-	valueHasSpace := strings.IndexByte(m.Value, ' ') >= 0
+	valueHasSpace := strings.IndexByte(m.Value, ' ') >= 0 || strings.HasPrefix(m.Value, "{")
 	if valueHasSpace || len(m.Submodifiers) > 0 {
 		buf.WriteString("{")
 	}
-- 
2.43.0


From aafbcba77e49114a796b3182cd9a23a802c209cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:41:43 +0000
Subject: [PATCH 070/152] fix: report a foreignkey modifier without references
 instead of panicking

---
 ddl/struct_parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ddl/struct_parser.go b/ddl/struct_parser.go
index 055f3d7..957e535 100644
--- a/ddl/struct_parser.go
+++ b/ddl/struct_parser.go
@@ -585,6 +585,10 @@ func (p *StructParser) parseForeignKeyModifier(table *Table, loc location, m *Mo
 			p.report(loc, "unknown modifier "+strconv.Quote(submodifier.Name))
 		}
 	}
+	if len(constraint.ReferencesColumns) == 0 {
+		constraint.Ignore = true
+		p.report(loc, "no referenced column(s) provided")
+	}
 }
 
 func (p *StructParser) parseReferencesModifier(table *Table, columnName string, loc location, m *Modifier) {
-- 
2.43.0


From 00ec1115d54ed7c79063e7a83e97b44bf2f2f641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:50 +0000
Subject: [PATCH 071/152] fix: read every field of a struct field declaration
 with several names

---
 ddl/struct_parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ddl/struct_parser.go b/ddl/struct_parser.go
index 957e535..226832d 100644
--- a/ddl/struct_parser.go
+++ b/ddl/struct_parser.go
@@ -125,6 +125,11 @@ func (p *StructParser) VisitStruct(node ast.Node) {
 			}
 		}
 		tableStruct.Fields = append(tableStruct.Fields, structField)
+		// One declaration may name several fields of the same type.
+		for j := 1; j < len(astField.Names); j++ {
+			structField.Name = astField.Names[j].Name
+			tableStruct.Fields = append(tableStruct.Fields, structField)
+		}
 	}
 	p.TableStructs = append(p.TableStructs, tableStruct)
 }
-- 
2.43.0


From 266381c2d8f2adeb08e806f2b3aa6e7a521f97bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:43:34 +0000
Subject: [PATCH 072/152] fix: report constraints and indexes whose generated
 names are the same

---
 ddl/struct_parser.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ddl/struct_parser.go b/ddl/struct_parser.go
index 226832d..40943d3 100644
--- a/ddl/struct_parser.go
+++ b/ddl/struct_parser.go
@@ -418,6 +418,9 @@ func (p *StructParser) parseIndexModifier(table *Table, columnNames []string, lo
 	indexName := GenerateName(INDEX, table.TableName, columnNames)
 	p.locations[[2]string{table.TableSchema, indexName}] = loc
 	index := p.cache.GetOrCreateIndex(table, indexName, columnNames)
+	if p.nameTaken(loc, indexName, index.Columns, columnNames) {
+		return
+	}
 	index.TableSchema = table.TableSchema
 	index.TableName = table.TableName
 	index.Ignore = m.ExcludesDialect(p.dialect)
@@ -462,6 +465,9 @@ func (p *StructParser) parsePrimaryKeyUniqueModifier(table *Table, columnNames [
 	}
 	p.locations[[2]string{table.TableSchema, constraintName}] = loc
 	constraint := p.cache.GetOrCreateConstraint(table, constraintName, constraintType, columnNames)
+	if p.nameTaken(loc, constraintName, constraint.Columns, columnNames) {
+		return
+	}
 	constraint.TableSchema = table.TableSchema
 	constraint.TableName = table.TableName
 	constraint.Ignore = m.ExcludesDialect(p.dialect)
@@ -506,6 +512,9 @@ func (p *StructParser) parseForeignKeyModifier(table *Table, loc location, m *Mo
 	constraintName := GenerateName(FOREIGN_KEY, table.TableName, columnNames)
 	p.locations[[2]string{table.TableSchema, constraintName}] = loc
 	constraint := p.cache.GetOrCreateConstraint(table, constraintName, FOREIGN_KEY, columnNames)
+	if p.nameTaken(loc, constraintName, constraint.Columns, columnNames) {
+		return
+	}
 	constraint.TableSchema = table.TableSchema
 	constraint.TableName = table.TableName
 	constraint.Ignore = m.ExcludesDialect(p.dialect)
@@ -609,6 +618,9 @@ func (p *StructParser) parseReferencesModifier(table *Table, columnName string,
 	p.locations[[2]string{table.TableSchema, constraintName}] = loc
 
 	constraint := p.cache.GetOrCreateConstraint(table, constraintName, FOREIGN_KEY, []string{columnName})
+	if p.nameTaken(loc, constraintName, constraint.Columns, []string{columnName}) {
+		return
+	}
 	constraint.TableSchema = table.TableSchema
 	constraint.TableName = table.TableName
 	constraint.Ignore = m.ExcludesDialect(p.dialect)
@@ -867,6 +879,16 @@ func (p *StructParser) parseTableModifiers(table *Table, loc location, modifiers
 	}
 }
 
+// nameTaken reports the case where different columns of a table lead to the
+// same generated name, in which case one would replace the other.
+func (p *StructParser) nameTaken(loc location, name string, existingColumns, columnNames []string) bool {
+	if strings.Join(existingColumns, ",") == strings.Join(columnNames, ",") {
+		return false
+	}
+	p.report(loc, fmt.Sprintf("%s: name %s is already used for %s", strings.Join(columnNames, ","), name, strings.Join(existingColumns, ",")))
+	return true
+}
+
 func (p *StructParser) report(loc location, msg string) {
 	p.parserDiagnostics.locs = append(p.parserDiagnostics.locs, loc)
 	p.parserDiagnostics.msgs = append(p.parserDiagnostics.msgs, msg)
-- 
2.43.0


From 7b1b755059fa1b1bc93e1e9c7c11400d5575e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:46:34 +0000
Subject: [PATCH 073/152] fix: generated structs use valid and distinct Go
 identifiers

---
 ddl/table_structs.go | 30 ++++++++++++++++++++++++++----
 ddl/tables_cmd.go    |  3 ++-
 ddl/view_structs.go  |  8 +++++---
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/ddl/table_structs.go b/ddl/table_structs.go
index a4d4a62..821c92e 100644
--- a/ddl/table_structs.go
+++ b/ddl/table_structs.go
@@ -6,6 +6,7 @@ import (
 	"go/token"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
 // TableStructs is a slice of TableStructs.
@@ -69,15 +70,16 @@ func (s *TableStructs) ReadCatalog(catalog *Catalog) error {
 	buf := bufpool.Get().(*bytes.Buffer)
 	buf.Reset()
 	defer bufpool.Put(buf)
+	structNames := make(map[string]bool)
 	for _, schema := range catalog.Schemas {
 		for _, table := range schema.Tables {
 			tableStruct := TableStruct{
-				Name:   strings.ToUpper(strings.ReplaceAll(table.TableName, " ", "_")),
+				Name:   goIdentifier(table.TableName, structNames),
 				Fields: make([]StructField, 0, len(table.Columns)+1),
 			}
 			tableStruct.Fields = append(tableStruct.Fields, StructField{Type: "sq.TableStruct"})
 			firstField := &tableStruct.Fields[0]
-			if (table.TableSchema != "" && table.TableSchema != catalog.CurrentSchema) || needsQuoting(table.TableName) {
+			if (table.TableSchema != "" && table.TableSchema != catalog.CurrentSchema) || needsQuoting(table.TableName) || strings.ToLower(tableStruct.Name) != table.TableName {
 				if table.TableSchema != "" {
 					firstField.NameTag = table.TableSchema + "." + table.TableName
 				} else {
@@ -181,15 +183,16 @@ func (s *TableStructs) ReadCatalog(catalog *Catalog) error {
 				}
 				indexModifierList = append(indexModifierList, m)
 			}
+			fieldNames := make(map[string]bool)
 			for i, column := range table.Columns {
 				if column.Ignore {
 					continue
 				}
 				structField := StructField{
-					Name: strings.ToUpper(strings.ReplaceAll(column.ColumnName, " ", "_")),
+					Name: goIdentifier(column.ColumnName, fieldNames),
 					Type: getFieldType(catalog.Dialect, &table.Columns[i]),
 				}
-				if needsQuoting(column.ColumnName) {
+				if needsQuoting(column.ColumnName) || strings.ToLower(structField.Name) != column.ColumnName {
 					structField.NameTag = column.ColumnName
 				}
 				var defaultColumnType string
@@ -467,6 +470,25 @@ func getFieldType(dialect string, column *Column) (fieldType string) {
 	return "sq.AnyField"
 }
 
+// goIdentifier converts the name of a table or column into a Go identifier
+// which is different from those already taken.
+func goIdentifier(name string, taken map[string]bool) string {
+	identifier := strings.Map(func(char rune) rune {
+		if char == '_' || unicode.IsLetter(char) || unicode.IsDigit(char) {
+			return char
+		}
+		return '_'
+	}, strings.ToUpper(name))
+	if !token.IsIdentifier(identifier) || identifier == "_" {
+		identifier = "X" + identifier
+	}
+	for taken[identifier] {
+		identifier += "_"
+	}
+	taken[identifier] = true
+	return identifier
+}
+
 func needsQuoting(identifier string) bool {
 	for i, char := range identifier {
 		if i == 0 && (char >= '0' && char <= '9') {
diff --git a/ddl/tables_cmd.go b/ddl/tables_cmd.go
index 3d54064..12a5ca2 100644
--- a/ddl/tables_cmd.go
+++ b/ddl/tables_cmd.go
@@ -148,6 +148,7 @@ func (cmd *TablesCmd) Run() error {
 		return err
 	}
 	if cmd.SchemaQualifiedStructs {
+		structNames := make(map[string]bool)
 		for i := range tableStructs {
 			tableStruct := &tableStructs[i]
 			tableName := strings.ToLower(tableStruct.Name)
@@ -162,7 +163,7 @@ func (cmd *TablesCmd) Run() error {
 				tableSchema = catalog.CurrentSchema
 			}
 			if tableSchema != "" {
-				tableStruct.Name = strings.ToUpper(strings.ReplaceAll(tableSchema+"_"+tableName, " ", "_"))
+				tableStruct.Name = goIdentifier(tableSchema+"_"+tableName, structNames)
 				tableStruct.Fields[0].NameTag = tableSchema + "." + tableName
 			}
 		}
diff --git a/ddl/view_structs.go b/ddl/view_structs.go
index 86fb9dc..9843c8f 100644
--- a/ddl/view_structs.go
+++ b/ddl/view_structs.go
@@ -41,14 +41,15 @@ func NewViewStructs(dialect string, db *sql.DB, filter Filter) (ViewStructs, err
 
 // ReadCatalog reads from a catalog and populates the ViewStructs accordingly.
 func (s *ViewStructs) ReadCatalog(catalog *Catalog) error {
+	structNames := make(map[string]bool)
 	for _, schema := range catalog.Schemas {
 		for _, view := range schema.Views {
 			viewStruct := ViewStruct{
-				Name:   strings.ToUpper(strings.ReplaceAll(view.ViewName, " ", "_")),
+				Name:   goIdentifier(view.ViewName, structNames),
 				Fields: make([]StructField, 0, len(view.Columns)+1),
 			}
 			viewStruct.Fields = append(viewStruct.Fields, StructField{Type: "sq.ViewStruct"})
-			if (view.ViewSchema != "" && view.ViewSchema != catalog.CurrentSchema) || needsQuoting(view.ViewName) {
+			if (view.ViewSchema != "" && view.ViewSchema != catalog.CurrentSchema) || needsQuoting(view.ViewName) || strings.ToLower(viewStruct.Name) != view.ViewName {
 				if view.ViewSchema != "" {
 					viewStruct.Fields[0].NameTag = view.ViewSchema + "." + view.ViewName
 				} else {
@@ -59,13 +60,14 @@ func (s *ViewStructs) ReadCatalog(catalog *Catalog) error {
 			for _, column := range view.EnumColumns {
 				isEnum[column] = true
 			}
+			fieldNames := make(map[string]bool)
 			for i, column := range view.Columns {
 				columnType := ""
 				if i < len(view.ColumnTypes) {
 					columnType = view.ColumnTypes[i]
 				}
 				structField := StructField{
-					Name: strings.ToUpper(strings.ReplaceAll(column, " ", "_")),
+					Name: goIdentifier(column, fieldNames),
 					Type: getFieldType(catalog.Dialect, &Column{
 						ColumnType: columnType,
 						IsEnum:     isEnum[column],
-- 
2.43.0


From 7b933d236908d432ffce54eb8f445907840a5412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:50:24 +0000
Subject: [PATCH 074/152] fix: fields of view structs keep the name of their
 column

---
 ddl/view_structs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/view_structs.go b/ddl/view_structs.go
index 9843c8f..1f8415b 100644
--- a/ddl/view_structs.go
+++ b/ddl/view_structs.go
@@ -73,6 +73,9 @@ func (s *ViewStructs) ReadCatalog(catalog *Catalog) error {
 						IsEnum:     isEnum[column],
 					}),
 				}
+				if strings.ToLower(structField.Name) != strings.ReplaceAll(column, " ", "_") {
+					structField.NameTag = column
+				}
 				viewStruct.Fields = append(viewStruct.Fields, structField)
 			}
 			*s = append(*s, viewStruct)
-- 
2.43.0


From 3e7f9175236c01f1c32455e3db43a7cb487eeb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:50:34 +0000
Subject: [PATCH 075/152] fix: names with a backquote no longer break the
 generated structs

---
 ddl/table_structs.go | 26 ++++++++++++++------------
 ddl/view_structs.go  |  6 +-----
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/ddl/table_structs.go b/ddl/table_structs.go
index 821c92e..a0005aa 100644
--- a/ddl/table_structs.go
+++ b/ddl/table_structs.go
@@ -412,23 +412,17 @@ func (s *TableStructs) MarshalText() (text []byte, err error) {
 			if structField.NameTag == "" && ddlTag == "" {
 				continue
 			}
-			buf.WriteString(" `")
-			written := false
+			tag := ""
 			if structField.NameTag != "" {
-				if written {
-					buf.WriteString(" ")
-				}
-				written = true
-				buf.WriteString(`sq:` + strconv.Quote(structField.NameTag))
+				tag = `sq:` + strconv.Quote(structField.NameTag)
 			}
 			if ddlTag != "" {
-				if written {
-					buf.WriteString(" ")
+				if tag != "" {
+					tag += " "
 				}
-				written = true
-				buf.WriteString(`ddl:` + strconv.Quote(ddlTag))
+				tag += `ddl:` + strconv.Quote(ddlTag)
 			}
-			buf.WriteString("`")
+			buf.WriteString(" " + quoteTag(tag))
 		}
 		buf.WriteString("\n}\n")
 	}
@@ -437,6 +431,14 @@ func (s *TableStructs) MarshalText() (text []byte, err error) {
 	return b, nil
 }
 
+// quoteTag converts a struct tag into a Go string literal.
+func quoteTag(tag string) string {
+	if strings.ContainsRune(tag, '`') {
+		return strconv.Quote(tag)
+	}
+	return "`" + tag + "`"
+}
+
 func getFieldType(dialect string, column *Column) (fieldType string) {
 	if column.IsEnum {
 		return "sq.EnumField"
diff --git a/ddl/view_structs.go b/ddl/view_structs.go
index 1f8415b..d1bbabd 100644
--- a/ddl/view_structs.go
+++ b/ddl/view_structs.go
@@ -103,11 +103,7 @@ func (s *ViewStructs) MarshalText() (text []byte, err error) {
 			if structField.NameTag == "" {
 				continue
 			}
-			buf.WriteString(" `")
-			if structField.NameTag != "" {
-				buf.WriteString(`sq:` + strconv.Quote(structField.NameTag))
-			}
-			buf.WriteString("`")
+			buf.WriteString(" " + quoteTag(`sq:`+strconv.Quote(structField.NameTag)))
 		}
 		buf.WriteString("\n}\n")
 	}
-- 
2.43.0


From 5e203fbf8ab037353d6abbd95349274f46e95c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:50:44 +0000
Subject: [PATCH 076/152] fix: derive a valid package name from any directory
 name

---
 ddl/table_structs.go | 14 ++++++++++++++
 ddl/tables_cmd.go    |  2 +-
 ddl/views_cmd.go     |  2 +-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/ddl/table_structs.go b/ddl/table_structs.go
index a0005aa..43699fd 100644
--- a/ddl/table_structs.go
+++ b/ddl/table_structs.go
@@ -472,6 +472,20 @@ func getFieldType(dialect string, column *Column) (fieldType string) {
 	return "sq.AnyField"
 }
 
+// goPackageName converts the name of a directory into a Go package name.
+func goPackageName(dirname string) string {
+	name := strings.Map(func(char rune) rune {
+		if char == '_' || unicode.IsLetter(char) || unicode.IsDigit(char) {
+			return char
+		}
+		return '_'
+	}, dirname)
+	if !token.IsIdentifier(name) {
+		name = "_" + name
+	}
+	return name
+}
+
 // goIdentifier converts the name of a table or column into a Go identifier
 // which is different from those already taken.
 func goIdentifier(name string, taken map[string]bool) string {
diff --git a/ddl/tables_cmd.go b/ddl/tables_cmd.go
index 12a5ca2..e342f99 100644
--- a/ddl/tables_cmd.go
+++ b/ddl/tables_cmd.go
@@ -182,7 +182,7 @@ func (cmd *TablesCmd) Run() error {
 		}
 		dirname := filepath.Base(filepath.Dir(cmd.Filename))
 		if dirname != "" && dirname != "." {
-			cmd.PackageName = strings.ReplaceAll(dirname, " ", "_")
+			cmd.PackageName = goPackageName(dirname)
 		}
 	}
 	if cmd.PackageName == "" {
diff --git a/ddl/views_cmd.go b/ddl/views_cmd.go
index 1439345..f63b421 100644
--- a/ddl/views_cmd.go
+++ b/ddl/views_cmd.go
@@ -136,7 +136,7 @@ func (cmd *ViewsCmd) Run() error {
 		}
 		dirname := filepath.Base(filepath.Dir(cmd.Filename))
 		if dirname != "" && dirname != "." {
-			cmd.PackageName = strings.ReplaceAll(dirname, " ", "_")
+			cmd.PackageName = goPackageName(dirname)
 		}
 	}
 	if cmd.PackageName == "" {
-- 
2.43.0


From f0f8e51805bc8268079a3cc634888635a16e2e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:50:55 +0000
Subject: [PATCH 077/152] fix: generated references to another schema name
 their columns

---
 ddl/table_structs.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ddl/table_structs.go b/ddl/table_structs.go
index 43699fd..602b46d 100644
--- a/ddl/table_structs.go
+++ b/ddl/table_structs.go
@@ -116,8 +116,9 @@ func (s *TableStructs) ReadCatalog(catalog *Catalog) error {
 					if constraint.ReferencesSchema != "" && constraint.ReferencesSchema != catalog.CurrentSchema {
 						buf.WriteString(constraint.ReferencesSchema + ".")
 					}
-					buf.WriteString(constraint.ReferencesTable)
-					columnsEqual := true
+					// schema.table would be read as table.column: name the
+					// columns if the schema is named.
+					columnsEqual := buf.Len() == 0
 					for i := range constraint.Columns {
 						if i >= len(constraint.ReferencesColumns) {
 							columnsEqual = false
@@ -128,6 +129,7 @@ func (s *TableStructs) ReadCatalog(catalog *Catalog) error {
 							break
 						}
 					}
+					buf.WriteString(constraint.ReferencesTable)
 					if !columnsEqual {
 						buf.WriteString("." + strings.Join(constraint.ReferencesColumns, ","))
 					}
-- 
2.43.0


From f1ef707ec9c45318bd0047e531c078d8f15c1c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:51:50 +0000
Subject: [PATCH 078/152] fix: table structs leave out indexes on expressions
 and unquote index columns

---
 ddl/table_structs.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/ddl/table_structs.go b/ddl/table_structs.go
index 602b46d..9aeaf66 100644
--- a/ddl/table_structs.go
+++ b/ddl/table_structs.go
@@ -162,11 +162,28 @@ func (s *TableStructs) ReadCatalog(catalog *Catalog) error {
 				}
 				constraintModifierList = append(constraintModifierList, m)
 			}
+			tableColumns := make(map[string]bool)
+			for _, column := range table.Columns {
+				tableColumns[column.ColumnName] = true
+			}
 			for _, index := range table.Indexes {
 				if index.Ignore || !isSimpleIndex(index) {
 					continue
 				}
-				columnNames := strings.Join(index.Columns, ",")
+				// Skip indexes on expressions.
+				indexColumns := make([]string, 0, len(index.Columns))
+				for _, column := range index.Columns {
+					if last := len(column) - 1; catalog.Dialect == DialectPostgres && last > 0 && column[0] == '"' && column[last] == '"' {
+						column = strings.ReplaceAll(column[1:last], `""`, `"`)
+					}
+					if tableColumns[column] {
+						indexColumns = append(indexColumns, column)
+					}
+				}
+				if len(indexColumns) != len(index.Columns) {
+					continue
+				}
+				columnNames := strings.Join(indexColumns, ",")
 				m := &Modifier{Name: "index", Value: columnNames}
 				indexModifiers[columnNames] = m
 				// unique
-- 
2.43.0


From 4b7afc9e775bf0b7eb074b7c0114a435a0df252c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:52:36 +0000
Subject: [PATCH 079/152] fix: table structs write the type of TIMESTAMP
 columns

---
 ddl/table_structs.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ddl/table_structs.go b/ddl/table_structs.go
index 9aeaf66..afa90d3 100644
--- a/ddl/table_structs.go
+++ b/ddl/table_structs.go
@@ -273,8 +273,6 @@ func (s *TableStructs) ReadCatalog(catalog *Catalog) error {
 						defaultColumnType = "TIMESTAMPTZ"
 					case DialectSQLServer:
 						defaultColumnType = "DATETIMEOFFSET"
-					default:
-						defaultColumnType = "TIMESTAMP"
 					}
 				case "sq.UUIDField":
 					switch catalog.Dialect {
-- 
2.43.0


From 1177622de1e1660a6065b5bd44d958725434140c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:53:03 +0000
Subject: [PATCH 080/152] fix: table structs keep INT primary keys of SQLite
 apart from INTEGER

---
 ddl/table_structs.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ddl/table_structs.go b/ddl/table_structs.go
index afa90d3..d95aee2 100644
--- a/ddl/table_structs.go
+++ b/ddl/table_structs.go
@@ -285,12 +285,15 @@ func (s *TableStructs) ReadCatalog(catalog *Catalog) error {
 				// type
 				if column.DomainName != "" {
 					structField.Modifiers = append(structField.Modifiers, Modifier{Name: "type", RawValue: column.DomainName})
-				} else if column.ColumnType != "" && column.ColumnType != defaultColumnType {
-					isSQLiteRowid := catalog.Dialect == DialectSQLite &&
+				} else if column.ColumnType != "" {
+					isSQLitePrimaryKey := catalog.Dialect == DialectSQLite &&
 						primarykeyModifier != nil &&
-						primarykeyModifier.Value == column.ColumnName &&
-						strings.EqualFold(column.ColumnType, "INTEGER")
-					if !isSQLiteRowid {
+						primarykeyModifier.Value == column.ColumnName
+					if isSQLitePrimaryKey && structField.Type == "sq.NumberField" {
+						defaultColumnType = "INTEGER"
+					}
+					isSQLiteRowid := isSQLitePrimaryKey && strings.EqualFold(column.ColumnType, "INTEGER")
+					if column.ColumnType != defaultColumnType && !isSQLiteRowid {
 						structField.Modifiers = append(structField.Modifiers, Modifier{Name: "type", RawValue: column.ColumnType})
 					}
 				}
-- 
2.43.0


From c0414867cd9f6e8b55333eb09f7a30faeb607341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:53:15 +0000
Subject: [PATCH 081/152] fix: recognize partial and descending indexes
 whatever their spacing

---
 ddl/table_structs.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/ddl/table_structs.go b/ddl/table_structs.go
index d95aee2..18d3a0b 100644
--- a/ddl/table_structs.go
+++ b/ddl/table_structs.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"database/sql"
 	"go/token"
+	"regexp"
 	"strconv"
 	"strings"
 	"unicode"
@@ -565,15 +566,20 @@ func isSimpleIndex(index Index) bool {
 			return false
 		}
 	}
-	upperSQL := strings.ToUpper(index.SQL)
-	if strings.Contains(upperSQL, " WHERE ") {
-		return false
-	}
-	if strings.Contains(upperSQL, " DESC") {
-		return false
+	// Names and strings may contain anything, look at the rest only.
+	words := strings.FieldsFunc(strings.ToUpper(quotedRegexp.ReplaceAllString(index.SQL, "()")), func(char rune) bool {
+		return char != '_' && !unicode.IsLetter(char) && !unicode.IsDigit(char)
+	})
+	for _, word := range words {
+		if word == "WHERE" || word == "DESC" {
+			return false
+		}
 	}
-	if strings.Contains(upperSQL, " INCLUDE ") {
+	if strings.Contains(strings.ToUpper(index.SQL), " INCLUDE ") {
 		return false
 	}
 	return true
 }
+
+// quotedRegexp matches quoted identifiers and strings.
+var quotedRegexp = regexp.MustCompile("\"[^\"]*\"|'[^']*'|`[^`]*`|\\[[^\\]]*\\]")
-- 
2.43.0


From 752541cb8d0a414aad3008be50a1253333e0500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:53:25 +0000
Subject: [PATCH 082/152] fix: table structs keep identity columns with a seed

---
 ddl/table_structs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/table_structs.go b/ddl/table_structs.go
index 18d3a0b..65a9331 100644
--- a/ddl/table_structs.go
+++ b/ddl/table_structs.go
@@ -342,7 +342,7 @@ func (s *TableStructs) ReadCatalog(catalog *Catalog) error {
 							structField.Modifiers = append(structField.Modifiers, Modifier{Name: "alwaysidentity"})
 						}
 					case DialectSQLServer:
-						if column.ColumnIdentity == IDENTITY {
+						if strings.HasPrefix(column.ColumnIdentity, IDENTITY) {
 							structField.Modifiers = append(structField.Modifiers, Modifier{Name: "identity"})
 						}
 					}
-- 
2.43.0


From 4d71ab52ebe7040fe8f136c2f1f54b2858804d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:28:54 +0000
Subject: [PATCH 083/152] fix: quote column names in Postgres ALTER COLUMN
 statements

A column named with a reserved word, upper case letters or spaces was written
unquoted, so the generated migration failed or altered another column.
---
 ddl/postgres_migration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index b433258..a469c64 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -511,7 +511,7 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 		// ALTER COLUMN.
 		for _, columns := range alterTable.alterColumns {
 			srcColumn, destColumn := columns[0], columns[1]
-			columnName := destColumn.ColumnName
+			columnName := QuoteIdentifier(dialect, destColumn.ColumnName)
 			srcType, srcArg1, srcArg2 := normalizeColumnType(dialect, srcColumn.ColumnType)
 			destType, destArg1, destArg2 := normalizeColumnType(dialect, destColumn.ColumnType)
 			// Do we need to ALTER TYPE?
-- 
2.43.0


From 762895bf1cafd2a167a5b1707063a02efcc44636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:29:28 +0000
Subject: [PATCH 084/152] fix: alter the table that owns each Postgres foreign
 key

Foreign keys between the same two tables are written into one file, whichever
of the tables they belong to. All of them were written as an ALTER TABLE of
the first one's table.
---
 ddl/postgres_migration.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index a469c64..d995c73 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -369,16 +369,22 @@ func newPostgresMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) po
 func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*bytes.Buffer, warnings []string) {
 	const dialect = DialectPostgres
 	n := 0
+	// The foreign keys of a group may belong to either table of the pair.
+	getTableName := func(fkey *Constraint) string {
+		tableName := QuoteIdentifier(dialect, fkey.TableName)
+		if fkey.TableSchema != "" && fkey.TableSchema != m.currentSchema {
+			tableName = QuoteIdentifier(dialect, fkey.TableSchema) + "." + tableName
+		}
+		return tableName
+	}
 
 	// DROP FOREIGN KEY.
 	for _, fkeys := range m.dropFkeys {
 		n++
 		fk := *fkeys[0]
 		name := strings.ReplaceAll(fk.TableName, " ", "_") + "_"
-		tableName := QuoteIdentifier(dialect, fk.TableName)
 		if fk.TableSchema != "" && fk.TableSchema != m.currentSchema {
 			name = strings.ReplaceAll(fk.TableSchema, " ", "_") + "_" + name
-			tableName = QuoteIdentifier(dialect, fk.TableSchema) + "." + tableName
 		}
 		if fk.ReferencesSchema != "" && fk.ReferencesSchema != m.currentSchema {
 			name += strings.ReplaceAll(fk.ReferencesSchema, " ", "_") + "_"
@@ -393,6 +399,7 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
+			tableName := getTableName(fkey)
 			constraintName := QuoteIdentifier(dialect, fkey.ConstraintName)
 			buf.WriteString("ALTER TABLE " + tableName + " DROP CONSTRAINT IF EXISTS " + constraintName + ";\n")
 		}
@@ -727,10 +734,8 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 		n++
 		fk := *fkeys[0]
 		name := strings.ReplaceAll(fk.TableName, " ", "_") + "_"
-		tableName := QuoteIdentifier(dialect, fk.TableName)
 		if fk.TableSchema != "" && fk.TableSchema != m.currentSchema {
 			name = strings.ReplaceAll(fk.TableSchema, " ", "_") + "_" + name
-			tableName = QuoteIdentifier(dialect, fk.TableSchema) + "." + tableName
 		}
 		if fk.ReferencesSchema != "" && fk.ReferencesSchema != m.currentSchema {
 			name += strings.ReplaceAll(fk.ReferencesSchema, " ", "_") + "_"
@@ -745,6 +750,7 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
+			tableName := getTableName(fkey)
 			buf.WriteString("ALTER TABLE " + tableName + " ADD ")
 			writeConstraintDefinition(dialect, buf, m.currentSchema, fkey)
 			buf.WriteString(";\n")
@@ -756,10 +762,8 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 		n++
 		fk := *fkeys[0]
 		name := strings.ReplaceAll(fk.TableName, " ", "_") + "_"
-		tableName := QuoteIdentifier(dialect, fk.TableName)
 		if fk.TableSchema != "" && fk.TableSchema != m.currentSchema {
 			name = strings.ReplaceAll(fk.TableSchema, " ", "_") + "_" + name
-			tableName = QuoteIdentifier(dialect, fk.TableSchema) + "." + tableName
 		}
 		if fk.ReferencesSchema != "" && fk.ReferencesSchema != m.currentSchema {
 			name += strings.ReplaceAll(fk.ReferencesSchema, " ", "_") + "_"
@@ -774,6 +778,7 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
+			tableName := getTableName(fkey)
 			buf.WriteString("ALTER TABLE " + tableName + " ADD ")
 			writeConstraintDefinition(dialect, buf, m.currentSchema, fkey)
 			buf.WriteString(" NOT VALID;\n")
@@ -788,6 +793,7 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
+			tableName := getTableName(fkey)
 			constraintName := QuoteIdentifier(dialect, fkey.ConstraintName)
 			buf.WriteString("ALTER TABLE " + tableName + " VALIDATE CONSTRAINT " + constraintName + ";\n")
 		}
-- 
2.43.0


From f9dbea536943b9e064f7e7e4868727fc1802dcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:31:01 +0000
Subject: [PATCH 085/152] fix: compare column defaults by what they mean

A default in brackets never matched the same default without them, so
expressions such as NOW() or GETDATE() were altered in every migration.
Postgres casts were cut off at the first double colon, even inside a string or
a function call, and negative numbers never matched because Postgres reports
them as quoted literals.
---
 ddl/ddl.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/ddl/ddl.go b/ddl/ddl.go
index 090c112..fb42f72 100644
--- a/ddl/ddl.go
+++ b/ddl/ddl.go
@@ -908,6 +908,12 @@ func normalizeColumnDefault(dialect string, columnDefault string) (normalizedDef
 	if columnDefault == "" {
 		return ""
 	}
+	for wrappedInBrackets(columnDefault) {
+		columnDefault = strings.TrimSpace(unwrapBrackets(columnDefault))
+	}
+	if dialect == DialectPostgres {
+		columnDefault = trimPostgresCast(columnDefault)
+	}
 	upperDefault := strings.ToUpper(columnDefault)
 	switch upperDefault {
 	case "1", "TRUE":
@@ -926,9 +932,6 @@ func normalizeColumnDefault(dialect string, columnDefault string) (normalizedDef
 		if upperDefault == "NOW()" {
 			return "CURRENT_TIMESTAMP"
 		}
-		if before, _, found := strings.Cut(columnDefault, "::"); found {
-			return before
-		}
 	case DialectMySQL:
 		if upperDefault == "NOW()" {
 			return "CURRENT_TIMESTAMP"
@@ -941,6 +944,28 @@ func normalizeColumnDefault(dialect string, columnDefault string) (normalizedDef
 	return columnDefault
 }
 
+// trimPostgresCast removes the cast that Postgres puts behind a literal when
+// it reports a column default, e.g. 'abc'::text or '-5'::integer. Casts inside
+// an expression or a string are part of the default.
+func trimPostgresCast(columnDefault string) string {
+	i := strings.LastIndex(columnDefault, "::")
+	if i < 0 {
+		return columnDefault
+	}
+	literal := unwrapBrackets(strings.TrimSpace(columnDefault[:i]))
+	if !isLiteral(literal) {
+		return columnDefault
+	}
+	switch strings.ToUpper(strings.TrimSpace(columnDefault[i+2:])) {
+	case "SMALLINT", "INTEGER", "BIGINT", "NUMERIC", "REAL", "DOUBLE PRECISION":
+		number := strings.Trim(literal, "'")
+		if _, err := strconv.ParseFloat(number, 64); err == nil {
+			return number
+		}
+	}
+	return literal
+}
+
 // dirFS is like os.DirFS without the restriction of banning filenames like
 // '../../somefile.sql'.
 type dirFS string
-- 
2.43.0


From 10d5b57be6ccff8e016b38344368a455f0a9ae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:31:10 +0000
Subject: [PATCH 086/152] fix: alter Postgres column defaults that are
 expressions

A default was only changed if both the old and the new one were literals. Any
other change wrote an empty migration each time.
---
 ddl/postgres_migration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index d995c73..139aaef 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -592,7 +592,7 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 					buf.WriteString("\n")
 				}
 				buf.WriteString("ALTER TABLE " + tableName + " ALTER COLUMN " + columnName + " DROP DEFAULT;\n")
-			} else if (srcDefault == "" && destDefault != "") || (isLiteral(srcDefault) && isLiteral(destDefault) && srcDefault != destDefault) {
+			} else if srcDefault != destDefault {
 				if buf.Len() > 0 {
 					buf.WriteString("\n")
 				}
-- 
2.43.0


From da31b649ddf047693805b978cc80b2b7c8b55c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:31:21 +0000
Subject: [PATCH 087/152] fix: remove a Postgres column collation with valid
 SQL

Going back to the default collation was written as COLLATE "", which
Postgres rejects.
---
 ddl/postgres_migration.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index 139aaef..8dadef8 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -581,7 +581,12 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 					if buf.Len() > 0 {
 						buf.WriteString("\n")
 					}
-					buf.WriteString("ALTER TABLE " + tableName + " ALTER COLUMN " + columnName + " TYPE " + destColumn.ColumnType + ` COLLATE "` + EscapeQuote(destColumn.CollationName, '"') + `"` + ";\n")
+					buf.WriteString("ALTER TABLE " + tableName + " ALTER COLUMN " + columnName + " TYPE " + destColumn.ColumnType)
+					// Without COLLATE, the column gets the default collation.
+					if destCollation != m.defaultCollation {
+						buf.WriteString(` COLLATE "` + EscapeQuote(destColumn.CollationName, '"') + `"`)
+					}
+					buf.WriteString(";\n")
 				}
 			}
 			srcDefault := normalizeColumnDefault(dialect, srcColumn.ColumnDefault)
-- 
2.43.0


From edc25752bcd8ace0f5440bd29fa1316677cd5c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:31:51 +0000
Subject: [PATCH 088/152] fix: keep the case of quoted parts of a column type

The values of a MySQL ENUM and quoted Postgres type names were upper-cased in
the generated column definitions, which made it a different type.
---
 ddl/ddl.go      | 22 +++++++++++++++++++++-
 ddl/dump_cmd.go |  2 +-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/ddl/ddl.go b/ddl/ddl.go
index fb42f72..fea5933 100644
--- a/ddl/ddl.go
+++ b/ddl/ddl.go
@@ -781,7 +781,7 @@ func splitArgs(s string) []string {
 // normalizeColumnType will normalize column types so that they can be
 // meaningfully compared.
 func normalizeColumnType(dialect string, columnType string) (normalizedType, arg1, arg2 string) {
-	columnType = strings.ToUpper(strings.TrimSpace(columnType))
+	columnType = toUpperUnquoted(strings.TrimSpace(columnType))
 	normalizedType = columnType
 	var args, suffix string
 	i := strings.Index(columnType, "(")
@@ -901,6 +901,26 @@ func normalizeColumnType(dialect string, columnType string) (normalizedType, arg
 	return normalizedType, arg1, arg2
 }
 
+// toUpperUnquoted uppercases everything except for quoted strings and quoted
+// identifiers, e.g. the values of ENUM('a', 'b').
+func toUpperUnquoted(s string) string {
+	b := []byte(s)
+	var quote byte
+	for i, c := range b {
+		switch {
+		case quote != 0:
+			if c == quote {
+				quote = 0
+			}
+		case c == '\'' || c == '"':
+			quote = c
+		case 'a' <= c && c <= 'z':
+			b[i] = c - 'a' + 'A'
+		}
+	}
+	return string(b)
+}
+
 // normalizeColumnType will normalize column defaults so that they can be
 // meaningfully compared.
 func normalizeColumnDefault(dialect string, columnDefault string) (normalizedDefault string) {
diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 4fe806c..80f76b3 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -1191,7 +1191,7 @@ func writeColumnDefinition(dialect string, buf *bytes.Buffer, defaultCollation s
 	} else if column.IsEnum {
 		buf.WriteString(" " + column.ColumnType)
 	} else if column.ColumnType != "" && !isSQLServerGeneratedColumn {
-		buf.WriteString(" " + strings.ToUpper(column.ColumnType))
+		buf.WriteString(" " + toUpperUnquoted(column.ColumnType))
 	}
 	// PRIMARY KEY
 	if column.IsPrimaryKey && (columnLevelConstraint || dialect == DialectSQLite) {
-- 
2.43.0


From a82b4ffdd274961c481e249dbabce08a8482dc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:32:02 +0000
Subject: [PATCH 089/152] fix: create unique Postgres indexes concurrently

A unique index taken over from another schema was created without
CONCURRENTLY, locking the table against writes.
---
 ddl/dump_cmd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 80f76b3..ce97433 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -1112,6 +1112,7 @@ func writeCreateIndex(dialect string, buf *bytes.Buffer, currentSchema string, i
 		if createConcurrently && dialect == DialectPostgres {
 			indexName := QuoteIdentifier(dialect, index.IndexName)
 			sql = strings.Replace(sql, "CREATE INDEX "+indexName, "CREATE INDEX CONCURRENTLY "+indexName, 1)
+			sql = strings.Replace(sql, "CREATE UNIQUE INDEX "+indexName, "CREATE UNIQUE INDEX CONCURRENTLY "+indexName, 1)
 		}
 		buf.WriteString(sql + "\n")
 		return
-- 
2.43.0


From ab2b585010caf35f9c5a22f9f47bb14f374fabbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:32:14 +0000
Subject: [PATCH 090/152] fix: write the type of MySQL indexes with valid SQL

ADD INDEX lacked the USING keyword in front of the index type, and spatial
indexes were recognised by their name instead of their type.
---
 ddl/dump_cmd.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index ce97433..8b8b1a8 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -1126,7 +1126,7 @@ func writeCreateIndex(dialect string, buf *bytes.Buffer, currentSchema string, i
 func writeIndexDefinition(dialect string, buf *bytes.Buffer, currentSchema string, index *Index, createConcurrently, createInline bool) {
 	var isFulltextOrSpatialIndex bool
 	if dialect == DialectMySQL {
-		if strings.EqualFold(index.IndexType, "FULLTEXT") || strings.EqualFold(index.IndexName, "SPATIAL") {
+		if strings.EqualFold(index.IndexType, "FULLTEXT") || strings.EqualFold(index.IndexType, "SPATIAL") {
 			isFulltextOrSpatialIndex = true
 		}
 	}
@@ -1142,10 +1142,7 @@ func writeIndexDefinition(dialect string, buf *bytes.Buffer, currentSchema strin
 	}
 	buf.WriteString(indexName)
 	if index.IndexType != "" && dialect == DialectMySQL && !strings.EqualFold(index.IndexType, "BTREE") && !isFulltextOrSpatialIndex {
-		if !createInline {
-			buf.WriteString(" USING")
-		}
-		buf.WriteString(" " + index.IndexType)
+		buf.WriteString(" USING " + index.IndexType)
 	}
 	if !createInline {
 		buf.WriteString(" ON ")
-- 
2.43.0


From 576a4a5a616a8e16e8afbb51030738296d8acf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:33:18 +0000
Subject: [PATCH 091/152] fix: alter Postgres identity columns in an order
 Postgres accepts

DROP IDENTITY has to come before the column gets a default or loses its NOT
NULL. ADD GENERATED AS IDENTITY has to come after the column became NOT NULL,
which since Postgres 12 happens in a separate migration.
---
 ddl/postgres_migration.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index 8dadef8..0571f3c 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -47,6 +47,9 @@ type postgresAlterTable struct {
 	// Validate NOT NULL check constraints in a separate transaction.
 	validateNotNull []*Column
 
+	// Columns in validateNotNull that become identity columns afterwards.
+	addIdentity map[*Column]bool
+
 	// Create indexes concurrently outside a transaction.
 	createIndexesConcurrently []*Index
 
@@ -199,6 +202,7 @@ func newPostgresMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) po
 			alterTable := postgresAlterTable{
 				tableSchema: destTable.TableSchema,
 				tableName:   destTable.TableName,
+				addIdentity: make(map[*Column]bool),
 			}
 			if dropObjects {
 				for k := range srcTable.Constraints {
@@ -294,6 +298,9 @@ func newPostgresMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) po
 					alterTable.alterColumns = append(alterTable.alterColumns, [2]*Column{srcColumn, destColumn})
 					if !srcColumn.IsNotNull && destColumn.IsNotNull && !m.versionNums.LowerThan(12) {
 						alterTable.validateNotNull = append(alterTable.validateNotNull, destColumn)
+						if srcColumn.ColumnIdentity == "" && destColumn.ColumnIdentity != "" {
+							alterTable.addIdentity[destColumn] = true
+						}
 					}
 				}
 			}
@@ -589,6 +596,14 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 					buf.WriteString(";\n")
 				}
 			}
+			// Do we need to remove IDENTITY? An identity column can neither have
+			// a DEFAULT nor lose its NOT NULL.
+			if srcColumn.ColumnIdentity != "" && destColumn.ColumnIdentity == "" {
+				if buf.Len() > 0 {
+					buf.WriteString("\n")
+				}
+				buf.WriteString("ALTER TABLE " + tableName + " ALTER COLUMN " + columnName + " DROP IDENTITY;\n")
+			}
 			srcDefault := normalizeColumnDefault(dialect, srcColumn.ColumnDefault)
 			destDefault := normalizeColumnDefault(dialect, destColumn.ColumnDefault)
 			// Do we need to remove DEFAULT? Or do we need to add/change it?
@@ -621,13 +636,9 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 					buf.WriteString("ALTER TABLE " + tableName + " ADD CONSTRAINT " + constraintName + " CHECK (" + columnName + " IS NOT NULL) NOT VALID;\n")
 				}
 			}
-			// Do we need to remove IDENTITY? Or do we need to add it?
-			if srcColumn.ColumnIdentity != "" && destColumn.ColumnIdentity == "" {
-				if buf.Len() > 0 {
-					buf.WriteString("\n")
-				}
-				buf.WriteString("ALTER TABLE " + tableName + " ALTER COLUMN " + columnName + " DROP IDENTITY;\n")
-			} else if srcColumn.ColumnIdentity == "" && destColumn.ColumnIdentity != "" {
+			// Do we need to add IDENTITY? If NOT NULL is added in a later
+			// transaction then IDENTITY has to wait for it.
+			if srcColumn.ColumnIdentity == "" && destColumn.ColumnIdentity != "" && (srcColumn.IsNotNull || !destColumn.IsNotNull || m.versionNums.LowerThan(12)) {
 				if buf.Len() > 0 {
 					buf.WriteString("\n")
 				}
@@ -670,6 +681,9 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 				buf.WriteString("ALTER TABLE " + tableName + " VALIDATE CONSTRAINT " + constraintName + ";\n")
 				buf.WriteString("ALTER TABLE " + tableName + " ALTER COLUMN " + columnName + " SET NOT NULL;\n")
 				buf.WriteString("ALTER TABLE " + tableName + " DROP CONSTRAINT " + constraintName + ";\n")
+				if alterTable.addIdentity[column] {
+					buf.WriteString("ALTER TABLE " + tableName + " ALTER COLUMN " + columnName + " ADD " + column.ColumnIdentity + ";\n")
+				}
 			}
 		}
 
-- 
2.43.0


From 921a2d792154b0259568d103e5979da8053e8c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:34:18 +0000
Subject: [PATCH 092/152] fix: do not drop the NOT NULL that a key or identity
 implies

Without -drop-objects the primary key of a table stays even if it is no longer
declared, so its columns stay NOT NULL. The same goes for Postgres identity
and MySQL AUTO_INCREMENT columns. Migrations tried to make such columns
nullable again, which fails or has no effect.
---
 ddl/ddl.go                 | 23 +++++++++++++++++++++++
 ddl/mysql_migration.go     |  1 +
 ddl/postgres_migration.go  |  1 +
 ddl/sqlserver_migration.go |  1 +
 4 files changed, 26 insertions(+)

diff --git a/ddl/ddl.go b/ddl/ddl.go
index fea5933..371f554 100644
--- a/ddl/ddl.go
+++ b/ddl/ddl.go
@@ -778,6 +778,29 @@ func splitArgs(s string) []string {
 	return args
 }
 
+// impliedNotNull returns the destColumn as the database will report it: a
+// column stays NOT NULL as long as it is an identity column, an AUTO_INCREMENT
+// column or part of a primary key that is not going to be dropped.
+func impliedNotNull(dialect string, destColumn *Column, srcPkey, destPkey *Constraint, dropObjects bool) *Column {
+	if destColumn.IsNotNull {
+		return destColumn
+	}
+	isNotNull := (destColumn.ColumnIdentity != "" && dialect == DialectPostgres) || (destColumn.IsAutoincrement && dialect == DialectMySQL)
+	if srcPkey != nil && destPkey == nil && (!dropObjects || srcPkey.Ignore) {
+		for _, column := range srcPkey.Columns {
+			if column == destColumn.ColumnName {
+				isNotNull = true
+			}
+		}
+	}
+	if !isNotNull {
+		return destColumn
+	}
+	column := *destColumn
+	column.IsNotNull = true
+	return &column
+}
+
 // normalizeColumnType will normalize column types so that they can be
 // meaningfully compared.
 func normalizeColumnType(dialect string, columnType string) (normalizedType, arg1, arg2 string) {
diff --git a/ddl/mysql_migration.go b/ddl/mysql_migration.go
index 9f191ca..d07bb49 100644
--- a/ddl/mysql_migration.go
+++ b/ddl/mysql_migration.go
@@ -177,6 +177,7 @@ func newMySQLMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) mysql
 					alterTable.addColumns = append(alterTable.addColumns, destColumn)
 					continue
 				}
+				destColumn = impliedNotNull(dialect, destColumn, srcCache.GetPrimaryKey(srcTable), destCache.GetPrimaryKey(destTable), dropObjects)
 				columnsAreDifferent := func() bool {
 					srcType, srcArg1, srcArg2 := normalizeColumnType(dialect, srcColumn.ColumnType)
 					destType, destArg1, destArg2 := normalizeColumnType(dialect, destColumn.ColumnType)
diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index 0571f3c..894ced0 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -263,6 +263,7 @@ func newPostgresMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) po
 					alterTable.addColumns = append(alterTable.addColumns, destColumn)
 					continue
 				}
+				destColumn = impliedNotNull(dialect, destColumn, srcCache.GetPrimaryKey(srcTable), destCache.GetPrimaryKey(destTable), dropObjects)
 				columnsAreDifferent := func() bool {
 					srcType, srcArg1, srcArg2 := normalizeColumnType(dialect, srcColumn.ColumnType)
 					destType, destArg1, destArg2 := normalizeColumnType(dialect, destColumn.ColumnType)
diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 2987692..00b3ffa 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -289,6 +289,7 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 					columnName := QuoteIdentifier(dialect, destColumn.ColumnName)
 					m.warnings = append(m.warnings, fmt.Sprintf("%s: column %s: identity cannot be added to an existing column, skipping", tableName, columnName))
 				}
+				destColumn = impliedNotNull(dialect, destColumn, srcCache.GetPrimaryKey(srcTable), destCache.GetPrimaryKey(destTable), dropObjects)
 				columnsAreDifferent := func() bool {
 					srcType, srcArg1, srcArg2 := normalizeColumnType(dialect, srcColumn.ColumnType)
 					destType, destArg1, destArg2 := normalizeColumnType(dialect, destColumn.ColumnType)
-- 
2.43.0


From e81109db54e8291ddbbb8036d291f2b8c38efc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:34:28 +0000
Subject: [PATCH 093/152] fix: keep primary keys and unique constraints
 deferrable on Postgres

Constraints added to an existing table lost DEFERRABLE and INITIALLY DEFERRED.
Changing them on an existing primary key or unique constraint was written as
ALTER CONSTRAINT, which Postgres only supports for foreign keys.
---
 ddl/postgres_migration.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index 894ced0..14b6d7b 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -347,6 +347,12 @@ func newPostgresMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) po
 				}
 				// ALTER CONSTRAINT.
 				if srcConstraint.IsDeferrable != destConstraint.IsDeferrable || srcConstraint.IsInitiallyDeferred != destConstraint.IsInitiallyDeferred {
+					if destConstraint.ConstraintType == PRIMARY_KEY || destConstraint.ConstraintType == UNIQUE {
+						// Only foreign keys can be altered.
+						alterTable.dropConstraints = append(alterTable.dropConstraints, srcConstraint)
+						alterTable.addConstraintsConcurrently = append(alterTable.addConstraintsConcurrently, destConstraint)
+						continue
+					}
 					alterTable.alterConstraints = append(alterTable.alterConstraints, [2]*Constraint{srcConstraint, destConstraint})
 				}
 			}
@@ -745,7 +751,14 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 			buf = bufpool.Get().(*bytes.Buffer)
 			buf.Reset()
 			bufs = append(bufs, buf)
-			buf.WriteString("ALTER TABLE " + tableName + " ADD CONSTRAINT " + constraintName + " " + addKeyConstraint.ConstraintType + " USING INDEX " + constraintName + ";\n")
+			buf.WriteString("ALTER TABLE " + tableName + " ADD CONSTRAINT " + constraintName + " " + addKeyConstraint.ConstraintType + " USING INDEX " + constraintName)
+			if addKeyConstraint.IsDeferrable {
+				buf.WriteString(" DEFERRABLE")
+				if addKeyConstraint.IsInitiallyDeferred {
+					buf.WriteString(" INITIALLY DEFERRED")
+				}
+			}
+			buf.WriteString(";\n")
 		}
 	}
 
-- 
2.43.0


From d6412d16026f8d6c77e04592a45a1560b74f9e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:34:54 +0000
Subject: [PATCH 094/152] fix: do not add generated columns without an
 expression

Table structs only say that a column is generated, not how. CREATE TABLE leaves
such columns out, but a later migration added them as ordinary columns.
---
 ddl/mysql_migration.go     | 3 +++
 ddl/postgres_migration.go  | 3 +++
 ddl/sqlserver_migration.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/ddl/mysql_migration.go b/ddl/mysql_migration.go
index d07bb49..3fdaf4b 100644
--- a/ddl/mysql_migration.go
+++ b/ddl/mysql_migration.go
@@ -173,6 +173,9 @@ func newMySQLMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) mysql
 				}
 				srcColumn := srcCache.GetColumn(srcTable, destColumn.ColumnName)
 				if srcColumn == nil {
+					if destColumn.IsGenerated && destColumn.GeneratedExpr == "" {
+						continue
+					}
 					// ADD COLUMN.
 					alterTable.addColumns = append(alterTable.addColumns, destColumn)
 					continue
diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index 14b6d7b..4783ca9 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -259,6 +259,9 @@ func newPostgresMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) po
 				}
 				srcColumn := srcCache.GetColumn(srcTable, destColumn.ColumnName)
 				if srcColumn == nil {
+					if destColumn.IsGenerated && destColumn.GeneratedExpr == "" {
+						continue
+					}
 					// ADD COLUMN.
 					alterTable.addColumns = append(alterTable.addColumns, destColumn)
 					continue
diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 00b3ffa..d0b63de 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -277,6 +277,9 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 				srcColumn := srcCache.GetColumn(srcTable, destColumn.ColumnName)
 				alterTable.columnTypes[destColumn.ColumnName] = destColumn.ColumnType
 				if srcColumn == nil {
+					if destColumn.IsGenerated && destColumn.GeneratedExpr == "" {
+						continue
+					}
 					// ADD COLUMN.
 					alterTable.addColumns = append(alterTable.addColumns, destColumn)
 					continue
-- 
2.43.0


From f3a7362f7fa84d8b0508f8478c8470d00934f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:39:18 +0000
Subject: [PATCH 095/152] fix: keep NOT NULL and the default collation when
 altering a SQL Server column

ALTER COLUMN without NOT NULL makes the column nullable, so changing the type
of a NOT NULL column lost the constraint. A collation changed back to the
database default was not altered at all. A primary key column whose default
changed was altered for no reason.
---
 ddl/sqlserver_migration.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index d0b63de..4352bac 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -657,6 +657,14 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 			if [3]string{srcType, srcArg1, srcArg2} != [3]string{destType, destArg1, destArg2} {
 				alterType = true
 			}
+			srcCollation := srcColumn.CollationName
+			if srcCollation == "" {
+				srcCollation = m.defaultCollation
+			}
+			destCollation := destColumn.CollationName
+			if destCollation == "" {
+				destCollation = m.defaultCollation
+			}
 			// COLLATE
 			collation := ""
 			if destColumn.CollationName != "" && destColumn.CollationName != m.defaultCollation {
@@ -666,14 +674,14 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 			nullability := ""
 			if isPkeyColumn[destColumn.ColumnName] || destColumn.ColumnIdentity != "" {
 				nullability = "NOT NULL"
-			} else if srcColumn.IsNotNull && !destColumn.IsNotNull {
+			} else if srcColumn.IsNotNull {
 				if destColumn.IsNotNull {
 					nullability = "NOT NULL"
 				} else {
 					nullability = "NULL"
 				}
 			}
-			if alterType || collation != "" || nullability != "" {
+			if alterType || srcCollation != destCollation || (srcColumn.IsNotNull != destColumn.IsNotNull && nullability != "") {
 				if alterType {
 					warnings = append(warnings, fmt.Sprintf("%s: column %s changing type from %q to %q may be unsafe", tableName, columnName, srcColumn.ColumnType, destColumn.ColumnType))
 				}
-- 
2.43.0


From 1bba635f34bc015284ab0cf0bba4b757b56f1d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:39:40 +0000
Subject: [PATCH 096/152] fix: recreate what depends on an altered SQL Server
 column once

An index or constraint over two altered columns was dropped and created twice,
and a foreign key could be added to the wrong group. Nothing has to be
recreated when only the default of a column changes.
---
 ddl/sqlserver_migration.go | 53 +++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 4352bac..aa36e00 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -401,6 +401,9 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 				}
 			}
 			for _, columnpair := range alterTable.alterColumns {
+				if !m.rewritesColumn(alterTable.pkey, columnpair[0], columnpair[1]) {
+					continue
+				}
 				columnName := columnpair[0].ColumnName
 				for _, index := range columnIndexDependencies[columnName] {
 					if droppedIndex[index] {
@@ -408,11 +411,13 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 					}
 					alterTable.dropIndexes = append(alterTable.dropIndexes, index)
 					alterTable.createIndexes = append(alterTable.createIndexes, index)
+					droppedIndex[index] = true
 				}
 				for _, constraint := range columnConstraintDependencies[columnName] {
 					if droppedConstraint[constraint] {
 						continue
 					}
+					droppedConstraint[constraint] = true
 					switch constraint.ConstraintType {
 					case PRIMARY_KEY, UNIQUE:
 						alterTable.dropConstraints = append(alterTable.dropConstraints, constraint)
@@ -425,11 +430,13 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 							m.dropFkeys[n1] = append(m.dropFkeys[n1], constraint)
 						} else {
 							m.dropFkeys = append(m.dropFkeys, []*Constraint{constraint})
+							dropFkeysPos[tablesID] = len(m.dropFkeys) - 1
 						}
 						if ok2 {
-							m.addFkeys[n2] = append(m.addFastFkeys[n2], constraint)
+							m.addFkeys[n2] = append(m.addFkeys[n2], constraint)
 						} else {
 							m.addFkeys = append(m.addFkeys, []*Constraint{constraint})
+							addFkeysPos[tablesID] = len(m.addFkeys) - 1
 						}
 					}
 				}
@@ -449,6 +456,40 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 	return m
 }
 
+// rewritesColumn reports whether srcColumn has to be rewritten with ALTER
+// COLUMN to become destColumn (changing a default does not need that).
+func (m *sqlserverMigration) rewritesColumn(pkey *Constraint, srcColumn, destColumn *Column) bool {
+	srcType, srcArg1, srcArg2 := normalizeColumnType(DialectSQLServer, srcColumn.ColumnType)
+	destType, destArg1, destArg2 := normalizeColumnType(DialectSQLServer, destColumn.ColumnType)
+	if [3]string{srcType, srcArg1, srcArg2} != [3]string{destType, destArg1, destArg2} {
+		return true
+	}
+	srcCollation, destCollation := srcColumn.CollationName, destColumn.CollationName
+	if srcCollation == "" {
+		srcCollation = m.defaultCollation
+	}
+	if destCollation == "" {
+		destCollation = m.defaultCollation
+	}
+	if srcCollation != destCollation {
+		return true
+	}
+	if srcColumn.IsNotNull || !destColumn.IsNotNull {
+		return srcColumn.IsNotNull != destColumn.IsNotNull
+	}
+	if destColumn.ColumnIdentity != "" {
+		return true
+	}
+	if pkey != nil {
+		for _, columnName := range pkey.Columns {
+			if columnName == destColumn.ColumnName {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*bytes.Buffer, warnings []string) {
 	const dialect = DialectSQLServer
 	warnings = m.warnings
@@ -657,14 +698,6 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 			if [3]string{srcType, srcArg1, srcArg2} != [3]string{destType, destArg1, destArg2} {
 				alterType = true
 			}
-			srcCollation := srcColumn.CollationName
-			if srcCollation == "" {
-				srcCollation = m.defaultCollation
-			}
-			destCollation := destColumn.CollationName
-			if destCollation == "" {
-				destCollation = m.defaultCollation
-			}
 			// COLLATE
 			collation := ""
 			if destColumn.CollationName != "" && destColumn.CollationName != m.defaultCollation {
@@ -681,7 +714,7 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 					nullability = "NULL"
 				}
 			}
-			if alterType || srcCollation != destCollation || (srcColumn.IsNotNull != destColumn.IsNotNull && nullability != "") {
+			if m.rewritesColumn(alterTable.pkey, srcColumn, destColumn) {
 				if alterType {
 					warnings = append(warnings, fmt.Sprintf("%s: column %s changing type from %q to %q may be unsafe", tableName, columnName, srcColumn.ColumnType, destColumn.ColumnType))
 				}
-- 
2.43.0


From dcda6c385c2b44e2d43efae151e206a3858d1161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:40:02 +0000
Subject: [PATCH 097/152] fix: drop the default of a SQL Server column before
 the column

A column with a default constraint cannot be dropped.
---
 ddl/sqlserver_migration.go | 48 ++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index aa36e00..b2021e5 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -643,6 +643,30 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 		buf.Reset()
 		bufs = append(bufs, buf)
 
+		// DROP DEFAULT.
+		writeDropDefault := func(columnName string) {
+			if buf.Len() > 0 {
+				buf.WriteString("\n")
+			}
+			// https://stackoverflow.com/a/49393082/3030828
+			buf.WriteString(`BEGIN
+    DECLARE @name NVARCHAR(255);
+    SELECT
+        @name = default_constraints.name
+    FROM
+        sys.default_constraints
+        JOIN sys.tables ON tables.object_id = default_constraints.parent_object_id
+        JOIN sys.columns ON columns.column_id = default_constraints.parent_column_id
+    WHERE
+        SCHEMA_NAME(tables.schema_id) = '` + EscapeQuote(alterTable.tableSchema, '\'') + `'
+        AND tables.name = '` + EscapeQuote(alterTable.tableName, '\'') + `'
+        AND columns.name = '` + EscapeQuote(columnName, '\'') + `'
+    ;
+    EXEC('ALTER TABLE ` + EscapeQuote(tableName, '\'') + ` DROP CONSTRAINT ' + @name);
+END;
+`)
+		}
+
 		// DROP INDEX.
 		for _, index := range alterTable.dropIndexes {
 			if buf.Len() > 0 {
@@ -667,6 +691,9 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 
 		// DROP COLUMN.
 		for _, column := range alterTable.dropColumns {
+			if column.ColumnDefault != "" {
+				writeDropDefault(column.ColumnName)
+			}
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
@@ -735,26 +762,7 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 			// Do we need to remove DEFAULT? Or do we need to add/change it?
 			if srcDefault != destDefault {
 				if srcDefault != "" {
-					if buf.Len() > 0 {
-						buf.WriteString("\n")
-					}
-					// https://stackoverflow.com/a/49393082/3030828
-					buf.WriteString(`BEGIN
-    DECLARE @name NVARCHAR(255);
-    SELECT
-        @name = default_constraints.name
-    FROM
-        sys.default_constraints
-        JOIN sys.tables ON tables.object_id = default_constraints.parent_object_id
-        JOIN sys.columns ON columns.column_id = default_constraints.parent_column_id
-    WHERE
-        SCHEMA_NAME(tables.schema_id) = '` + EscapeQuote(alterTable.tableSchema, '\'') + `'
-        AND tables.name = '` + EscapeQuote(alterTable.tableName, '\'') + `'
-        AND columns.name = '` + EscapeQuote(destColumn.ColumnName, '\'') + `'
-    ;
-    EXEC('ALTER TABLE ` + EscapeQuote(tableName, '\'') + ` DROP CONSTRAINT ' + @name);
-END;
-`)
+					writeDropDefault(destColumn.ColumnName)
 				}
 				if destDefault != "" {
 					// ADD
-- 
2.43.0


From edc0d53d2c08b6e4a6c41ed4bd20eb2ab250d008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:41:09 +0000
Subject: [PATCH 098/152] fix: declare the variable for dropping SQL Server
 defaults once per file

A variable is scoped to the batch, so a migration file that dropped two
defaults declared it twice and was rejected.
---
 ddl/sqlserver_migration.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index b2021e5..af45761 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -643,14 +643,16 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 		buf.Reset()
 		bufs = append(bufs, buf)
 
-		// DROP DEFAULT.
+		// DROP DEFAULT. The scope of a variable is the whole batch (not the
+		// BEGIN END block), so it can only be declared once per file.
+		declaration := "DECLARE @name NVARCHAR(255)"
 		writeDropDefault := func(columnName string) {
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
 			// https://stackoverflow.com/a/49393082/3030828
 			buf.WriteString(`BEGIN
-    DECLARE @name NVARCHAR(255);
+    ` + declaration + `;
     SELECT
         @name = default_constraints.name
     FROM
@@ -665,6 +667,7 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
     EXEC('ALTER TABLE ` + EscapeQuote(tableName, '\'') + ` DROP CONSTRAINT ' + @name);
 END;
 `)
+			declaration = "SET @name = NULL"
 		}
 
 		// DROP INDEX.
-- 
2.43.0


From 47e1387ff57780e327fef68087afd7589475a960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:42:19 +0000
Subject: [PATCH 099/152] fix: add SQL Server columns before dropping columns

A table whose columns are all replaced could not be migrated, because the last
column of a table cannot be dropped.
---
 ddl/sqlserver_migration.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index af45761..fbbc37d 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -692,18 +692,6 @@ END;
 			buf.WriteString("ALTER TABLE " + tableName + " DROP CONSTRAINT " + constraintName + ";\n")
 		}
 
-		// DROP COLUMN.
-		for _, column := range alterTable.dropColumns {
-			if column.ColumnDefault != "" {
-				writeDropDefault(column.ColumnName)
-			}
-			if buf.Len() > 0 {
-				buf.WriteString("\n")
-			}
-			columnName := QuoteIdentifier(dialect, column.ColumnName)
-			buf.WriteString("ALTER TABLE " + tableName + " DROP COLUMN " + columnName + ";\n")
-		}
-
 		// ADD COLUMN.
 		for _, column := range alterTable.addColumns {
 			if buf.Len() > 0 {
@@ -717,6 +705,19 @@ END;
 			buf.WriteString(";\n")
 		}
 
+		// DROP COLUMN (after ADD COLUMN because a table cannot lose its only
+		// column).
+		for _, column := range alterTable.dropColumns {
+			if column.ColumnDefault != "" {
+				writeDropDefault(column.ColumnName)
+			}
+			if buf.Len() > 0 {
+				buf.WriteString("\n")
+			}
+			columnName := QuoteIdentifier(dialect, column.ColumnName)
+			buf.WriteString("ALTER TABLE " + tableName + " DROP COLUMN " + columnName + ";\n")
+		}
+
 		// ALTER COLUMN.
 		for _, columns := range alterTable.alterColumns {
 			srcColumn, destColumn := columns[0], columns[1]
-- 
2.43.0


From 657ecbff23d4c2bafe18d2f1b6be90b07add5619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:43:08 +0000
Subject: [PATCH 100/152] fix: recreate SQL Server indexes that include an
 altered column

A column cannot be altered while an index includes it.
---
 ddl/sqlserver_migration.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index fbbc37d..b6e8243 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -390,6 +390,9 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 				for _, column := range srcIndex.Columns {
 					columnIndexDependencies[column] = append(columnIndexDependencies[column], srcIndex)
 				}
+				for _, column := range srcIndex.IncludeColumns {
+					columnIndexDependencies[column] = append(columnIndexDependencies[column], srcIndex)
+				}
 			}
 			for k := range srcTable.Constraints {
 				srcConstraint := &srcTable.Constraints[k]
-- 
2.43.0


From 66386f895d07a33c96c2f9c1ef668142d750d275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:47:38 +0000
Subject: [PATCH 101/152] fix: keep more than 99 generated files in order

The files are numbered with two digits and applied in the order of their
names, so file 100 was applied before file 11.
---
 ddl/generate_cmd.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/ddl/generate_cmd.go b/ddl/generate_cmd.go
index 5821856..d7b2f62 100644
--- a/ddl/generate_cmd.go
+++ b/ddl/generate_cmd.go
@@ -274,6 +274,7 @@ func (cmd *GenerateCmd) Results() (files []fs.File, warnings []string, err error
 	default:
 		return nil, nil, fmt.Errorf("unsupported dialect %q", cmd.SrcCatalog.Dialect)
 	}
+	alignFilenames(prefix, filenames)
 	files = make([]fs.File, len(filenames))
 	for i, filename := range filenames {
 		buf := bufs[i]
@@ -286,6 +287,26 @@ func (cmd *GenerateCmd) Results() (files []fs.File, warnings []string, err error
 	return files, warnings, err
 }
 
+// alignFilenames pads the numbers of the filenames with zeros to the same
+// width, so that they keep their order when they are sorted by name.
+func alignFilenames(prefix string, filenames []string) {
+	if len(filenames) < 100 {
+		return
+	}
+	width := 0
+	numbers := make([]string, len(filenames))
+	for i, filename := range filenames {
+		numbers[i], _, _ = strings.Cut(strings.TrimPrefix(filename, prefix+"_"), "_")
+		if len(numbers[i]) > width {
+			width = len(numbers[i])
+		}
+	}
+	for i, number := range numbers {
+		rest := strings.TrimPrefix(filenames[i], prefix+"_")
+		filenames[i] = prefix + "_" + strings.Repeat("0", width-len(number)) + rest
+	}
+}
+
 type bufferFile struct {
 	name string
 	size int64
-- 
2.43.0


From 5c720a1c596e9c18468ec6205b942774e341a14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:01:26 +0000
Subject: [PATCH 102/152] fix: do not cut a character in half when shortening
 generated names

---
 ddl/ddl.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ddl/ddl.go b/ddl/ddl.go
index 371f554..efb2193 100644
--- a/ddl/ddl.go
+++ b/ddl/ddl.go
@@ -13,6 +13,7 @@ import (
 	"strings"
 	"sync"
 	"time"
+	"unicode/utf8"
 )
 
 // The various keyword constants used by ddl.
@@ -608,6 +609,10 @@ func GenerateName(nameType string, tableName string, columnNames []string) strin
 	if excessLength > 0 {
 		trimmedPrefix := b.String()
 		trimmedPrefix = trimmedPrefix[:len(trimmedPrefix)-excessLength]
+		// Do not cut a multibyte character in half.
+		for trimmedPrefix != "" && !utf8.ValidString(trimmedPrefix) {
+			trimmedPrefix = trimmedPrefix[:len(trimmedPrefix)-1]
+		}
 		return trimmedPrefix + suffix
 	}
 	b.WriteString(suffix)
-- 
2.43.0


From 0cff8ffa50ca1c86718ff8245dc49ab0c9d7a0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:25:02 +0000
Subject: [PATCH 103/152] fix: warn when an unlimited Postgres VARCHAR or
 NUMERIC gets a limit

Postgres has to scan the table in order to check the limit, which is what
the other warnings about decreasing limits are for.
---
 ddl/postgres_migration.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index 4783ca9..88c7e18 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -559,18 +559,18 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 				case [2]string{"VARCHAR", "VARCHAR"}:
 					srcLimit, _ := strconv.Atoi(srcArg1)
 					destLimit, _ := strconv.Atoi(destArg1)
-					if srcLimit > 0 && destLimit > 0 && destLimit < srcLimit {
+					if destLimit > 0 && (srcLimit == 0 || destLimit < srcLimit) {
 						warnings = append(warnings, fmt.Sprintf("%s: column %q decreasing limit from %q to %q is unsafe", tableName, columnName, srcColumn.ColumnType, destColumn.ColumnType))
 					}
 				case [2]string{"NUMERIC", "NUMERIC"}:
 					srcScale, _ := strconv.Atoi(srcArg2)
 					destScale, _ := strconv.Atoi(destArg2)
-					if srcScale != destScale && destScale != 0 {
+					if srcScale != destScale && destArg1 != "" {
 						warnings = append(warnings, fmt.Sprintf("%s: column %q changing scale from %q to %q is unsafe", tableName, columnName, srcColumn.ColumnType, destColumn.ColumnType))
 					}
 					srcPrecision, _ := strconv.Atoi(srcArg1)
 					destPrecision, _ := strconv.Atoi(destArg1)
-					if srcPrecision > 0 && destPrecision > 0 && destPrecision < srcPrecision {
+					if destPrecision > 0 && (srcPrecision == 0 || destPrecision < srcPrecision) {
 						warnings = append(warnings, fmt.Sprintf("%s: column %q decreasing precision from %q to %q is unsafe", tableName, columnName, srcColumn.ColumnType, destColumn.ColumnType))
 					}
 				default:
-- 
2.43.0


From 110272d10ba51e7205af1f6d71d8d0783b307ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:26:07 +0000
Subject: [PATCH 104/152] fix: name the column in the warning about adding an
 identity column

The column and its identity were swapped in the message.
---
 ddl/postgres_migration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index 88c7e18..9ae700c 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -526,7 +526,7 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 			if column.ColumnDefault != "" && m.versionNums.LowerThan(11) {
 				warnings = append(warnings, fmt.Sprintf("%s: adding column %q with DEFAULT is unsafe for large tables. Upgrade to Postgres 11+ to avoid this issue. If not, you should add a column without the default first, backfill the default values, then set the column default", tableName, columnName))
 			} else if column.ColumnIdentity != "" && m.versionNums.LowerThan(11) {
-				warnings = append(warnings, fmt.Sprintf("%s: adding column %q with %q is unsafe for large tables. Upgrade to Postgres 11+ to avoid this issue. If not, you should add a column without the identity first, backfill the identity values, then add the identity to the column and finally update the identity sequence", tableName, column.ColumnIdentity, columnName))
+				warnings = append(warnings, fmt.Sprintf("%s: adding column %q with %q is unsafe for large tables. Upgrade to Postgres 11+ to avoid this issue. If not, you should add a column without the identity first, backfill the identity values, then add the identity to the column and finally update the identity sequence", tableName, columnName, column.ColumnIdentity))
 			}
 			buf.WriteString("ALTER TABLE " + tableName + " ADD COLUMN ")
 			writeColumnDefinition(dialect, buf, m.defaultCollation, column, false)
-- 
2.43.0


From 102ee77c9a57173d3e2785f18c36c667dc7b7f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:26:17 +0000
Subject: [PATCH 105/152] fix: keep the table name in the SQL Server identity
 warning

---
 ddl/sqlserver_migration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index b6e8243..1fe4188 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -287,7 +287,7 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 				if srcColumn.ColumnIdentity == "" && destColumn.ColumnIdentity != "" {
 					tableName := QuoteIdentifier(dialect, destTable.TableName)
 					if destSchema.SchemaName != "" && destSchema.SchemaName != m.currentSchema {
-						tableName = QuoteIdentifier(dialect, destSchema.SchemaName) + "."
+						tableName = QuoteIdentifier(dialect, destSchema.SchemaName) + "." + tableName
 					}
 					columnName := QuoteIdentifier(dialect, destColumn.ColumnName)
 					m.warnings = append(m.warnings, fmt.Sprintf("%s: column %s: identity cannot be added to an existing column, skipping", tableName, columnName))
-- 
2.43.0


From d22e37b62abf5e577e8b4fc40ee0a97218003c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:26:28 +0000
Subject: [PATCH 106/152] fix: number automigrate's migrations in the order
 they must run in

With 100 or more migrations their numbers differed in length, and sorting
the filenames ran migration 100 before migration 11.
---
 ddl/automigrate_cmd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ddl/automigrate_cmd.go b/ddl/automigrate_cmd.go
index 5991c70..33b46a4 100644
--- a/ddl/automigrate_cmd.go
+++ b/ddl/automigrate_cmd.go
@@ -228,6 +228,7 @@ func (cmd *AutomigrateCmd) Run() error {
 	default:
 		return fmt.Errorf("unsupported dialect %q", srcCatalog.Dialect)
 	}
+	alignFilenames(prefix, filenames)
 	defer func() {
 		for _, buf := range bufs {
 			bufpool.Put(buf)
-- 
2.43.0


From ba994357136a50005428a93c7a4a2b230779486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:27:12 +0000
Subject: [PATCH 107/152] fix: warn about adding NOT NULL columns without a
 default

The documentation promises a warning because the server refuses such a
column if the table has rows. No warning was issued for Postgres and SQL
Server.
---
 ddl/postgres_migration.go  | 3 +++
 ddl/sqlserver_migration.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index 9ae700c..d79fd01 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -528,6 +528,9 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 			} else if column.ColumnIdentity != "" && m.versionNums.LowerThan(11) {
 				warnings = append(warnings, fmt.Sprintf("%s: adding column %q with %q is unsafe for large tables. Upgrade to Postgres 11+ to avoid this issue. If not, you should add a column without the identity first, backfill the identity values, then add the identity to the column and finally update the identity sequence", tableName, columnName, column.ColumnIdentity))
 			}
+			if column.IsNotNull && column.ColumnDefault == "" && column.ColumnIdentity == "" && !column.IsGenerated {
+				warnings = append(warnings, fmt.Sprintf("%s: adding column %q with NOT NULL and without DEFAULT fails if the table has rows", tableName, columnName))
+			}
 			buf.WriteString("ALTER TABLE " + tableName + " ADD COLUMN ")
 			writeColumnDefinition(dialect, buf, m.defaultCollation, column, false)
 			buf.WriteString(";\n")
diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 1fe4188..87c28b0 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -700,6 +700,9 @@ END;
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
+			if column.IsNotNull && column.ColumnDefault == "" && column.ColumnIdentity == "" && !column.IsGenerated {
+				warnings = append(warnings, fmt.Sprintf("%s: adding column %s with NOT NULL and without DEFAULT fails if the table has rows", tableName, QuoteIdentifier(dialect, column.ColumnName)))
+			}
 			buf.WriteString("ALTER TABLE " + tableName + " ADD ")
 			if dialect != DialectSQLServer {
 				buf.WriteString("COLUMN ")
-- 
2.43.0


From f8c72b77afcc3bff88cf016a68c371906411b2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:32:46 +0000
Subject: [PATCH 108/152] fix: treat NUMERIC(10) and NUMERIC(10,0) as the same
 type

Databases report NUMERIC(10) as NUMERIC(10,0), so generate kept altering a
column that was already declared that way.
---
 ddl/ddl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ddl/ddl.go b/ddl/ddl.go
index efb2193..7bde6d1 100644
--- a/ddl/ddl.go
+++ b/ddl/ddl.go
@@ -923,6 +923,10 @@ func normalizeColumnType(dialect string, columnType string) (normalizedType, arg
 			normalizedType = "NUMERIC"
 		}
 	}
+	if normalizedType == "NUMERIC" && arg1 != "" && arg2 == "" {
+		// The scale of NUMERIC(10) is 0.
+		arg2 = "0"
+	}
 	if isPostgresArray {
 		normalizedType = normalizedType + "[]"
 	}
-- 
2.43.0


From 5758981de3f936cb4702c6efab8dd12f71f99d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:40:54 +0000
Subject: [PATCH 109/152] fix: report errors that end a result set early

If the connection broke while rows were being read, dump and the subset
queries treated the rows read so far as the whole result and succeeded.
---
 ddl/database_introspector.go | 2 +-
 ddl/dump_cmd.go              | 4 ++++
 ddl/subsetter.go             | 4 ++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/ddl/database_introspector.go b/ddl/database_introspector.go
index 6cdb994..4b42c67 100644
--- a/ddl/database_introspector.go
+++ b/ddl/database_introspector.go
@@ -302,7 +302,7 @@ func (dbi *DatabaseIntrospector) GetVersion() (version string, err error) {
 			return "", fmt.Errorf("scanning version: %w", err)
 		}
 	}
-	return version, nil
+	return version, closeRows(rows)
 }
 
 // GetVersionNums returns the version numbers of the database.
diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 8b8b1a8..9a928b2 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -1006,6 +1006,10 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 			return err
 		}
 	}
+	err = closeRows(rows)
+	if err != nil {
+		return err
+	}
 	csvWriter.Flush()
 	err = csvWriter.Error()
 	if err != nil {
diff --git a/ddl/subsetter.go b/ddl/subsetter.go
index cec4dba..4f11161 100644
--- a/ddl/subsetter.go
+++ b/ddl/subsetter.go
@@ -304,6 +304,10 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 		}
 		result.records = append(result.records, record)
 	}
+	err = closeRows(rows)
+	if err != nil {
+		return err
+	}
 	tableID := [2]string{baseTable.TableSchema, baseTable.TableName}
 	ss.results = append(ss.results, result)
 	baseFkey := &Constraint{
-- 
2.43.0


From 77ce793345aa00759d6d78f37181aaefb72e6915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:41:10 +0000
Subject: [PATCH 110/152] fix: close files if dump or load fails

---
 ddl/dump_cmd.go | 5 +++++
 ddl/load_cmd.go | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 9a928b2..2624d09 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -535,6 +535,7 @@ func (cmd *DumpCmd) dumpDir() error {
 		if err != nil {
 			return err
 		}
+		defer file.Close()
 		encoder := json.NewEncoder(file)
 		encoder.SetIndent("", "  ")
 		err = encoder.Encode(cmd.catalog)
@@ -552,6 +553,7 @@ func (cmd *DumpCmd) dumpDir() error {
 		if err != nil {
 			return err
 		}
+		defer file.Close()
 		err = cmd.dumpSchema(file)
 		if err != nil {
 			return err
@@ -567,6 +569,7 @@ func (cmd *DumpCmd) dumpDir() error {
 		if err != nil {
 			return err
 		}
+		defer file.Close()
 		err = cmd.dumpIndexes(file)
 		if err != nil {
 			return err
@@ -582,6 +585,7 @@ func (cmd *DumpCmd) dumpDir() error {
 		if err != nil {
 			return err
 		}
+		defer file.Close()
 		err = cmd.dumpConstraints(file)
 		if err != nil {
 			return err
@@ -605,6 +609,7 @@ func (cmd *DumpCmd) dumpDir() error {
 				if err != nil {
 					return err
 				}
+				defer file.Close()
 				err = cmd.dumpCSV(ctx, file, q.table, q.query)
 				if err != nil {
 					return err
diff --git a/ddl/load_cmd.go b/ddl/load_cmd.go
index 8c1abf2..15ba2f9 100644
--- a/ddl/load_cmd.go
+++ b/ddl/load_cmd.go
@@ -226,6 +226,7 @@ func (cmd *LoadCmd) Run() error {
 			}
 			tx, err := conn.BeginTx(context.Background(), nil)
 			if err != nil {
+				contents.Close()
 				return err
 			}
 			err = cmd.loadCSV(cmd.Ctx, tx, filename, contents)
@@ -256,10 +257,10 @@ func (cmd *LoadCmd) Run() error {
 			return err
 		}
 		fileinfo, err := file.Stat()
+		file.Close()
 		if err != nil {
 			return err
 		}
-		file.Close()
 		if fileinfo.IsDir() {
 			err = cmd.loadDir(conn, filename)
 			if err != nil {
@@ -661,6 +662,7 @@ func (cmd *LoadCmd) loadZip(conn *sql.Conn, zipName string) error {
 				}
 				tx, err := cmd.DB.BeginTx(context.Background(), nil)
 				if err != nil {
+					contents.Close()
 					return err
 				}
 				filename := filepath.ToSlash(filepath.Join(zipName, f.Name))
@@ -677,6 +679,7 @@ func (cmd *LoadCmd) loadZip(conn *sql.Conn, zipName string) error {
 			}
 			tx, err := conn.BeginTx(context.Background(), nil)
 			if err != nil {
+				contents.Close()
 				return err
 			}
 			filename := filepath.ToSlash(filepath.Join(zipName, f.Name))
@@ -943,6 +946,7 @@ func (cmd *LoadCmd) loadDir(conn *sql.Conn, dirname string) error {
 				}
 				tx, err := cmd.DB.BeginTx(context.Background(), nil)
 				if err != nil {
+					contents.Close()
 					return err
 				}
 				err = cmd.loadCSV(ctx, tx, filename, contents)
@@ -958,6 +962,7 @@ func (cmd *LoadCmd) loadDir(conn *sql.Conn, dirname string) error {
 			}
 			tx, err := conn.BeginTx(context.Background(), nil)
 			if err != nil {
+				contents.Close()
 				return err
 			}
 			err = cmd.loadCSV(cmd.Ctx, tx, filename, contents)
-- 
2.43.0


From 4fd52becacd52a5d4156586c7658174b488ae7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:41:20 +0000
Subject: [PATCH 111/152] fix: close the database that generate reads the
 schema from

---
 ddl/generate_cmd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ddl/generate_cmd.go b/ddl/generate_cmd.go
index d7b2f62..6840ff7 100644
--- a/ddl/generate_cmd.go
+++ b/ddl/generate_cmd.go
@@ -397,6 +397,7 @@ func writeCatalog(catalog *Catalog, fsys fs.FS, historyTable, s string) error {
 	if err != nil {
 		return err
 	}
+	defer db.Close()
 	dbi := NewDatabaseIntrospector(dialect, db)
 	dbi.ObjectTypes = []string{"TABLES"}
 	dbi.ExcludeTables = []string{historyTable}
-- 
2.43.0


From 8ceaa2fe5502b075472d8d94a3545fa4b7248cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:58:03 +0000
Subject: [PATCH 112/152] fix: only strip -dir from filenames inside that
 directory

---
 ddl/touch_cmd.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ddl/touch_cmd.go b/ddl/touch_cmd.go
index 3c0b423..a8461cb 100644
--- a/ddl/touch_cmd.go
+++ b/ddl/touch_cmd.go
@@ -313,13 +313,9 @@ func normalizeFilename(filename, dir string) string {
 	if dir == "" {
 		return filename
 	}
-	if strings.HasPrefix(filename, ".") {
-		filename = strings.TrimPrefix(strings.TrimPrefix(filename, "."), "/")
-	}
-	if strings.HasPrefix(dir, ".") {
-		dir = strings.TrimPrefix(strings.TrimPrefix(dir, "."), "/")
-	}
-	return strings.TrimPrefix(strings.TrimPrefix(filename, dir), "/")
+	filename = strings.TrimPrefix(filename, "./")
+	dir = strings.TrimPrefix(dir, "./")
+	return strings.TrimPrefix(filename, strings.TrimSuffix(dir, "/")+"/")
 }
 
 // removeDuplicates removes repeated filenames, keeping the first of each.
-- 
2.43.0


From 4ba3ad05bcc7271305daa98ae26f1b1345c2fa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:58:10 +0000
Subject: [PATCH 113/152] fix: exit with status 1 on an unrecognized subcommand

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index ca15e53..80d745b 100644
--- a/main.go
+++ b/main.go
@@ -192,6 +192,6 @@ func main() {
 		}
 	default:
 		fmt.Fprintf(os.Stderr, "unrecognized subcommand %q\n", subcmd)
-		return
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From b8753f99c7c1a02ce0c9685482dc86fce0e0aba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:58:37 +0000
Subject: [PATCH 114/152] fix: recognize new and empty SQLite files and short
 URLs behind file:

---
 ddl/ddl.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ddl/ddl.go b/ddl/ddl.go
index 7bde6d1..5b3055e 100644
--- a/ddl/ddl.go
+++ b/ddl/ddl.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"flag"
 	"fmt"
+	"io"
 	"io/fs"
 	"os"
 	"path/filepath"
@@ -1086,12 +1087,13 @@ func getDriver(dialect string) (driver Driver, ok bool) {
 func NormalizeDSN(dsn string) (dialect, driverName, normalizedDSN string) {
 	if strings.HasPrefix(dsn, "file:") {
 		filename, _, _ := strings.Cut(strings.TrimPrefix(strings.TrimPrefix(dsn, "file:"), "//"), "?")
-		file, err := os.Open(filename)
-		if errors.Is(err, os.ErrNotExist) && (strings.HasSuffix(filename, ".sqlite") ||
+		hasSQLiteSuffix := strings.HasSuffix(filename, ".sqlite") ||
 			strings.HasSuffix(filename, ".sqlite3") ||
 			strings.HasSuffix(filename, ".db") ||
-			strings.HasSuffix(filename, ".db3")) {
-			return DialectSQLite, "sqlite3", dsn
+			strings.HasSuffix(filename, ".db3")
+		file, err := os.Open(filename)
+		if errors.Is(err, os.ErrNotExist) && hasSQLiteSuffix {
+			return NormalizeDSN("sqlite:" + dsn)
 		}
 		if err != nil {
 			return "", "", ""
@@ -1103,10 +1105,11 @@ func NormalizeDSN(dsn string) (dialect, driverName, normalizedDSN string) {
 		// SQLite database i.e. the first 16 bytes isn't the SQLite file
 		// header. https://www.sqlite.org/fileformat.html#the_database_header
 		header, err := r.Peek(16)
-		if err != nil {
+		if err != nil && err != io.EOF {
 			return "", "", ""
 		}
-		if string(header) == "SQLite format 3\x00" {
+		// An empty file is an SQLite database that nothing was written into yet.
+		if string(header) == "SQLite format 3\x00" || (len(header) == 0 && hasSQLiteSuffix) {
 			dsn = "sqlite:" + dsn
 		} else {
 			var b strings.Builder
-- 
2.43.0


From 0038366dc4c91ea780df2141e0de42779ac92af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:58:44 +0000
Subject: [PATCH 115/152] fix: strip the sqlite3: prefix from SQLite URLs

---
 drivers/ddlsqlite3/ddlsqlite3.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/drivers/ddlsqlite3/ddlsqlite3.go b/drivers/ddlsqlite3/ddlsqlite3.go
index 9ecb794..9c0ead2 100644
--- a/drivers/ddlsqlite3/ddlsqlite3.go
+++ b/drivers/ddlsqlite3/ddlsqlite3.go
@@ -15,7 +15,8 @@ func Register() {
 		Dialect:    ddl.DialectSQLite,
 		DriverName: "sqlite3",
 		PreprocessDSN: func(dsn string) string {
-			dsn = strings.TrimPrefix(strings.TrimPrefix(dsn, "sqlite:"), "//")
+			dsn = strings.TrimPrefix(strings.TrimPrefix(dsn, "sqlite3:"), "sqlite:")
+			dsn = strings.TrimPrefix(dsn, "//")
 			before, after, _ := strings.Cut(dsn, "?")
 			q, err := url.ParseQuery(after)
 			if err != nil {
-- 
2.43.0


From f2ab2bde3fe81235efa6acb4bd3fd30c38b1f7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:00:23 +0000
Subject: [PATCH 116/152] fix: annotate Postgres errors at the end of a query
 and ones with percent signs

---
 drivers/ddlpostgres/ddlpostgres.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/drivers/ddlpostgres/ddlpostgres.go b/drivers/ddlpostgres/ddlpostgres.go
index 4f77745..d083a70 100644
--- a/drivers/ddlpostgres/ddlpostgres.go
+++ b/drivers/ddlpostgres/ddlpostgres.go
@@ -43,23 +43,30 @@ func Register() {
 			line := 1
 			pos, posErr := strconv.Atoi(pqerr.Position)
 			if posErr == nil {
-				line = strings.Count(query[:pos], "\n") + 1
+				// The position counts characters (not bytes) starting from 1
+				// and may be one past the end of the query.
+				chars := []rune(query)
+				if pos > len(chars)+1 {
+					pos = len(chars) + 1
+				}
+				if pos > 0 {
+					line = strings.Count(string(chars[:pos-1]), "\n") + 1
+				}
 			}
 			if posErr != nil && pqerr.Detail == "" && pqerr.Hint == "" {
 				return originalErr
 			}
-			var b strings.Builder
+			var prefix, suffix string
 			if posErr == nil {
-				b.WriteString("line " + strconv.Itoa(line) + ": ")
+				prefix = "line " + strconv.Itoa(line) + ": "
 			}
-			b.WriteString("%w")
 			if pqerr.Detail != "" {
-				b.WriteString("\ndetail: " + pqerr.Detail)
+				suffix += "\ndetail: " + pqerr.Detail
 			}
 			if pqerr.Hint != "" {
-				b.WriteString("\nhint: " + pqerr.Hint)
+				suffix += "\nhint: " + pqerr.Hint
 			}
-			return fmt.Errorf(b.String(), originalErr)
+			return fmt.Errorf("%s%w%s", prefix, originalErr, suffix)
 		},
 	})
 }
-- 
2.43.0


From 11f695b4a7a7178df8cb91007026fa93ec2742d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:00:29 +0000
Subject: [PATCH 117/152] fix: keep percent signs in SQL Server errors and
 database names

---
 drivers/ddlsqlserver/ddlsqlserver.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/drivers/ddlsqlserver/ddlsqlserver.go b/drivers/ddlsqlserver/ddlsqlserver.go
index 1d991c2..bea01bf 100644
--- a/drivers/ddlsqlserver/ddlsqlserver.go
+++ b/drivers/ddlsqlserver/ddlsqlserver.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"net/url"
-	"strconv"
 	"strings"
 
 	"github.com/bokwoon95/sqddl/ddl"
@@ -36,7 +35,8 @@ func Register() {
 					return dsn
 				}
 				q.Set("database", u.Path[1:])
-				dsn = strings.TrimSuffix(before, u.Path) + "?" + q.Encode()
+				before = strings.TrimSuffix(strings.TrimSuffix(before, u.Path), u.EscapedPath())
+				dsn = before + "?" + q.Encode()
 			}
 			return dsn
 		},
@@ -46,13 +46,12 @@ func Register() {
 				return originalErr
 			}
 			var b strings.Builder
-			b.WriteString("line " + strconv.Itoa(int(mssqlErr.LineNo)) + ": %w")
 			if len(mssqlErr.All) > 1 {
 				for _, err := range mssqlErr.All {
 					b.WriteString("\n" + err.Message)
 				}
 			}
-			return fmt.Errorf(b.String(), originalErr)
+			return fmt.Errorf("line %d: %w%s", mssqlErr.LineNo, originalErr, b.String())
 		},
 	})
 }
-- 
2.43.0


From 2314b5e1f4c8f3325d88875e5738424522bc8615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:00:52 +0000
Subject: [PATCH 118/152] fix: keep MySQL passwords with a question mark and
 hosts without a port

---
 drivers/ddlmysql/ddlmysql.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/drivers/ddlmysql/ddlmysql.go b/drivers/ddlmysql/ddlmysql.go
index 56c0094..cd53b1c 100644
--- a/drivers/ddlmysql/ddlmysql.go
+++ b/drivers/ddlmysql/ddlmysql.go
@@ -42,7 +42,11 @@ func Register() {
 						if b.Len() > 0 {
 							b.WriteString("@")
 						}
-						b.WriteString("tcp(" + u.Host + ")")
+						if strings.HasSuffix(u.Host, ")") {
+							b.WriteString(u.Host) // already tcp(<host>)
+						} else {
+							b.WriteString("tcp(" + u.Host + ")")
+						}
 					}
 					b.WriteString("/" + strings.TrimPrefix(u.Path, "/"))
 					if u.RawQuery != "" {
@@ -51,7 +55,17 @@ func Register() {
 					dsn = b.String()
 				}
 			}
-			before, after, _ := strings.Cut(dsn, "?")
+			// The password may contain a question mark, the parameters come
+			// after the address.
+			i := strings.Index(dsn, "@tcp(")
+			if i < 0 {
+				i = strings.Index(dsn, "@unix(")
+			}
+			if i < 0 {
+				i = 0
+			}
+			before, after, _ := strings.Cut(dsn[i:], "?")
+			before = dsn[:i] + before
 			q, err := url.ParseQuery(after)
 			if err != nil {
 				return dsn
-- 
2.43.0


From ffe0d42e6ce3e6c8e3383d19c9b7afb5bd6f57c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:37 +0000
Subject: [PATCH 119/152] fix: keep the catalog cache up to date when objects
 are replaced

---
 ddl/catalog_cache.go | 102 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 102 insertions(+)

diff --git a/ddl/catalog_cache.go b/ddl/catalog_cache.go
index 8f947c2..92b5ed4 100644
--- a/ddl/catalog_cache.go
+++ b/ddl/catalog_cache.go
@@ -139,6 +139,9 @@ func (c *CatalogCache) GetOrCreateSchema(catalog *Catalog, schemaName string) *S
 	if ok && !catalog.Schemas[i].Ignore {
 		return &catalog.Schemas[i]
 	}
+	if ok {
+		c.replaceSchema(catalog.Schemas[i], Schema{SchemaName: schemaName})
+	}
 	catalog.Schemas = append(catalog.Schemas, Schema{
 		SchemaName: schemaName,
 	})
@@ -151,6 +154,11 @@ func (c *CatalogCache) GetOrCreateSchema(catalog *Catalog, schemaName string) *S
 // it already exists.
 func (c *CatalogCache) AddOrUpdateSchema(catalog *Catalog, schema Schema) {
 	i, ok := c.schemas[schema.SchemaName]
+	if ok {
+		c.replaceSchema(catalog.Schemas[i], schema)
+	} else {
+		c.replaceSchema(Schema{}, schema)
+	}
 	if ok && !catalog.Schemas[i].Ignore {
 		catalog.Schemas[i] = schema
 		return
@@ -353,6 +361,9 @@ func (c *CatalogCache) GetOrCreateView(schema *Schema, viewName string) *View {
 	if ok && !schema.Views[i].Ignore {
 		return &schema.Views[i]
 	}
+	if ok {
+		c.replaceView(schema.Views[i], View{})
+	}
 	schema.Views = append(schema.Views, View{
 		ViewSchema: schema.SchemaName,
 		ViewName:   viewName,
@@ -367,6 +378,11 @@ func (c *CatalogCache) GetOrCreateView(schema *Schema, viewName string) *View {
 func (c *CatalogCache) AddOrUpdateView(schema *Schema, view View) {
 	view.ViewSchema = schema.SchemaName
 	i, ok := c.views[[2]string{schema.SchemaName, view.ViewName}]
+	if ok {
+		c.replaceView(schema.Views[i], view)
+	} else {
+		c.replaceView(View{}, view)
+	}
 	if ok && !schema.Views[i].Ignore {
 		schema.Views[i] = view
 		return
@@ -404,6 +420,9 @@ func (c *CatalogCache) GetOrCreateTable(schema *Schema, tableName string) *Table
 	if ok && !schema.Tables[i].Ignore {
 		return &schema.Tables[i]
 	}
+	if ok {
+		c.replaceTable(schema.Tables[i], Table{})
+	}
 	schema.Tables = append(schema.Tables, Table{
 		TableSchema: schema.SchemaName,
 		TableName:   tableName,
@@ -418,6 +437,11 @@ func (c *CatalogCache) GetOrCreateTable(schema *Schema, tableName string) *Table
 func (c *CatalogCache) AddOrUpdateTable(schema *Schema, table Table) {
 	table.TableSchema = schema.SchemaName
 	i, ok := c.tables[[2]string{schema.SchemaName, table.TableName}]
+	if ok {
+		c.replaceTable(schema.Tables[i], table)
+	} else {
+		c.replaceTable(Table{}, table)
+	}
 	if ok && !schema.Tables[i].Ignore {
 		schema.Tables[i] = table
 		return
@@ -536,6 +560,9 @@ func (c *CatalogCache) AddOrUpdateConstraint(table *Table, constraint Constraint
 	constraint.TableName = table.TableName
 	i, ok := c.constraints[[3]string{table.TableSchema, table.TableName, constraint.ConstraintName}]
 	if ok && !table.Constraints[i].Ignore {
+		if constraint.ConstraintType != table.Constraints[i].ConstraintType {
+			c.updateConstraintType(table, i, constraint.ConstraintType)
+		}
 		table.Constraints[i] = constraint
 		return
 	}
@@ -801,6 +828,81 @@ func (c *CatalogCache) GetForeignKeys(table *Table) []*Constraint {
 	return fkeys
 }
 
+// replaceSchema replaces the entries for everything inside the old schema with
+// those for everything inside the new one.
+func (c *CatalogCache) replaceSchema(oldSchema, newSchema Schema) {
+	old := NewCatalogCache(&Catalog{Dialect: c.dialect, Schemas: []Schema{oldSchema}})
+	new := NewCatalogCache(&Catalog{Dialect: c.dialect, Schemas: []Schema{newSchema}})
+	replaceEntries(c.enums, old.enums, new.enums)
+	replaceEntries(c.domains, old.domains, new.domains)
+	replaceEntries(c.routines, old.routines, new.routines)
+	replaceEntries(c.views, old.views, new.views)
+	replaceEntries(c.tables, old.tables, new.tables)
+	c.replaceNested(old, new)
+}
+
+// replaceView replaces the entries for everything inside the old view with
+// those for everything inside the new one.
+func (c *CatalogCache) replaceView(oldView, newView View) {
+	c.replaceNested(
+		NewCatalogCache(&Catalog{Dialect: c.dialect, Schemas: []Schema{{SchemaName: oldView.ViewSchema, Views: []View{oldView}}}}),
+		NewCatalogCache(&Catalog{Dialect: c.dialect, Schemas: []Schema{{SchemaName: newView.ViewSchema, Views: []View{newView}}}}),
+	)
+}
+
+// replaceTable replaces the entries for everything inside the old table with
+// those for everything inside the new one.
+func (c *CatalogCache) replaceTable(oldTable, newTable Table) {
+	c.replaceNested(
+		NewCatalogCache(&Catalog{Dialect: c.dialect, Schemas: []Schema{{SchemaName: oldTable.TableSchema, Tables: []Table{oldTable}}}}),
+		NewCatalogCache(&Catalog{Dialect: c.dialect, Schemas: []Schema{{SchemaName: newTable.TableSchema, Tables: []Table{newTable}}}}),
+	)
+}
+
+func (c *CatalogCache) replaceNested(old, new *CatalogCache) {
+	replaceEntries(c.columns, old.columns, new.columns)
+	replaceEntries(c.constraints, old.constraints, new.constraints)
+	replaceEntries(c.indexes, old.indexes, new.indexes)
+	replaceEntries(c.triggers, old.triggers, new.triggers)
+	replaceEntries(c.pkeys, old.pkeys, new.pkeys)
+	replaceEntries(c.fkeys, old.fkeys, new.fkeys)
+}
+
+func replaceEntries[K comparable, V any](entries, old, new map[K]V) {
+	for k := range old {
+		delete(entries, k)
+	}
+	for k, v := range new {
+		entries[k] = v
+	}
+}
+
+// updateConstraintType updates the primary key and foreign keys of the table
+// when the type of its i-th constraint changes.
+func (c *CatalogCache) updateConstraintType(table *Table, i int, constraintType string) {
+	tableID := [2]string{table.TableSchema, table.TableName}
+	switch table.Constraints[i].ConstraintType {
+	case PRIMARY_KEY:
+		if c.pkeys[tableID] == i {
+			delete(c.pkeys, tableID)
+		}
+	case FOREIGN_KEY:
+		var nums []int
+		for _, num := range c.fkeys[tableID] {
+			if num != i {
+				nums = append(nums, num)
+			}
+		}
+		c.fkeys[tableID] = nums
+	}
+	switch constraintType {
+	case PRIMARY_KEY:
+		c.pkeys[tableID] = i
+	case FOREIGN_KEY:
+		c.fkeys[tableID] = append(c.fkeys[tableID], i)
+	}
+}
+
 // WriteCatalog populates the dest Catalog from the src Catalog, doing a deep
 // copy in the process (nothing is shared between the src and dest Catalogs).
 func (src *Catalog) WriteCatalog(dest *Catalog) error {
-- 
2.43.0


From d5294f12c3e5e368850eacb75db0dc11153cdc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:20:20 +0000
Subject: [PATCH 120/152] fix: find the triggers of materialized views in the
 catalog cache

---
 ddl/catalog_cache.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/ddl/catalog_cache.go b/ddl/catalog_cache.go
index 92b5ed4..b1db28d 100644
--- a/ddl/catalog_cache.go
+++ b/ddl/catalog_cache.go
@@ -65,16 +65,13 @@ func NewCatalogCache(catalog *Catalog) *CatalogCache {
 		for j, view := range schema.Views {
 			viewID := [2]string{schema.SchemaName, view.ViewName}
 			cache.views[viewID] = j
-			if view.IsMaterialized {
-				for k, index := range view.Indexes {
-					indexID := [3]string{schema.SchemaName, view.ViewName, index.IndexName}
-					cache.indexes[indexID] = k
-				}
-			} else {
-				for k, trigger := range view.Triggers {
-					triggerID := [3]string{schema.SchemaName, view.ViewName, trigger.TriggerName}
-					cache.triggers[triggerID] = k
-				}
+			for k, index := range view.Indexes {
+				indexID := [3]string{schema.SchemaName, view.ViewName, index.IndexName}
+				cache.indexes[indexID] = k
+			}
+			for k, trigger := range view.Triggers {
+				triggerID := [3]string{schema.SchemaName, view.ViewName, trigger.TriggerName}
+				cache.triggers[triggerID] = k
 			}
 		}
 		for j, table := range schema.Tables {
-- 
2.43.0


From 68b7cda76c2aa641ef681a438084464e0309009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:20:29 +0000
Subject: [PATCH 121/152] fix: copy catalogs completely

---
 ddl/catalog_cache.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/ddl/catalog_cache.go b/ddl/catalog_cache.go
index b1db28d..35cc0e2 100644
--- a/ddl/catalog_cache.go
+++ b/ddl/catalog_cache.go
@@ -1,5 +1,7 @@
 package ddl
 
+import "reflect"
+
 // CatalogCache is used for querying and modifying a Catalog's nested
 // objects without the need to loop over all the tables, columns,
 // constraints etc just to find what you need. It does so by maintaining an
@@ -546,7 +548,9 @@ func (c *CatalogCache) GetOrCreateConstraint(table *Table, constraintName, const
 	case FOREIGN_KEY:
 		c.fkeys[tableID] = append(c.fkeys[tableID], i)
 	}
-	c.constraints[[3]string{table.TableSchema, table.TableName, constraintName}] = i
+	if constraintName != "" { // SQLite constraints will have no name, skip
+		c.constraints[[3]string{table.TableSchema, table.TableName, constraintName}] = i
+	}
 	return &table.Constraints[i]
 }
 
@@ -903,8 +907,8 @@ func (c *CatalogCache) updateConstraintType(table *Table, i int, constraintType
 // WriteCatalog populates the dest Catalog from the src Catalog, doing a deep
 // copy in the process (nothing is shared between the src and dest Catalogs).
 func (src *Catalog) WriteCatalog(dest *Catalog) error {
-	cache := NewCatalogCache(dest)
 	dest.Dialect = src.Dialect
+	cache := NewCatalogCache(dest)
 	dest.VersionNums = cloneSlice(src.VersionNums)
 	dest.CatalogName = src.CatalogName
 	dest.CurrentSchema = src.CurrentSchema
@@ -973,6 +977,8 @@ func (src *Catalog) WriteCatalog(dest *Catalog) error {
 				destIndex := cache.GetOrCreateViewIndex(destView, srcIndex.IndexName, srcIndex.Columns)
 				*destIndex = srcIndex
 				destIndex.Columns = cloneSlice(srcIndex.Columns)
+				destIndex.Descending = cloneSlice(srcIndex.Descending)
+				destIndex.Opclasses = cloneSlice(srcIndex.Opclasses)
 				destIndex.IncludeColumns = cloneSlice(srcIndex.IncludeColumns)
 			}
 			for _, srcTrigger := range srcView.Triggers {
@@ -987,13 +993,18 @@ func (src *Catalog) WriteCatalog(dest *Catalog) error {
 			destTable.TableSchema = srcTable.TableSchema
 			destTable.TableName = srcTable.TableName
 			destTable.SQL = srcTable.SQL
+			destTable.IsVirtual = srcTable.IsVirtual
 			destTable.Comment = srcTable.Comment
 			destTable.Ignore = srcTable.Ignore
 			for _, srcColumn := range srcTable.Columns {
 				destColumn := cache.GetOrCreateColumn(destTable, srcColumn.ColumnName, srcColumn.ColumnType)
 				*destColumn = srcColumn
 			}
+			existing := destTable.Constraints
 			for _, srcConstraint := range srcTable.Constraints {
+				if srcConstraint.ConstraintName == "" && hasConstraint(existing, srcConstraint) {
+					continue
+				}
 				destConstraint := cache.GetOrCreateConstraint(destTable, srcConstraint.ConstraintName, srcConstraint.ConstraintType, srcConstraint.Columns)
 				*destConstraint = srcConstraint
 				destConstraint.Columns = cloneSlice(srcConstraint.Columns)
@@ -1018,6 +1029,16 @@ func (src *Catalog) WriteCatalog(dest *Catalog) error {
 	return nil
 }
 
+// hasConstraint checks if an identical constraint is among the constraints.
+func hasConstraint(constraints []Constraint, constraint Constraint) bool {
+	for i := range constraints {
+		if reflect.DeepEqual(constraints[i], constraint) {
+			return true
+		}
+	}
+	return false
+}
+
 func cloneSlice[T any](src []T) []T {
 	if src == nil {
 		return nil
-- 
2.43.0


From d0cf58e8edc8da06a10dec0c97b6096b32f61214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:21:10 +0000
Subject: [PATCH 122/152] fix: merge the contents of several schema.json files

---
 ddl/generate_cmd.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ddl/generate_cmd.go b/ddl/generate_cmd.go
index 6840ff7..e239886 100644
--- a/ddl/generate_cmd.go
+++ b/ddl/generate_cmd.go
@@ -348,7 +348,7 @@ func writeCatalog(catalog *Catalog, fsys fs.FS, historyTable, s string) error {
 			return err
 		}
 		defer file.Close()
-		err = json.NewDecoder(file).Decode(catalog)
+		err = decodeCatalog(catalog, file)
 		if err != nil {
 			return err
 		}
@@ -383,7 +383,7 @@ func writeCatalog(catalog *Catalog, fsys fs.FS, historyTable, s string) error {
 			return err
 		}
 		defer file.Close()
-		err = json.NewDecoder(file).Decode(catalog)
+		err = decodeCatalog(catalog, file)
 		if err != nil {
 			return err
 		}
@@ -409,6 +409,17 @@ func writeCatalog(catalog *Catalog, fsys fs.FS, historyTable, s string) error {
 	return nil
 }
 
+// decodeCatalog adds the contents of a schema.json file to the catalog.
+func decodeCatalog(catalog *Catalog, r io.Reader) error {
+	src := *catalog
+	src.Schemas = nil
+	err := json.NewDecoder(r).Decode(&src)
+	if err != nil {
+		return err
+	}
+	return src.WriteCatalog(catalog)
+}
+
 func writeCatalogFromZip(catalog *Catalog, fsys fs.FS, s string) error {
 	file, err := fsys.Open(s)
 	if err != nil {
@@ -440,7 +451,7 @@ func writeCatalogFromZip(catalog *Catalog, fsys fs.FS, s string) error {
 			return err
 		}
 		defer schemaFile.Close()
-		err = json.NewDecoder(schemaFile).Decode(catalog)
+		err = decodeCatalog(catalog, schemaFile)
 		if err != nil {
 			return err
 		}
@@ -471,7 +482,7 @@ func writeCatalogFromTgz(catalog *Catalog, fsys fs.FS, s string) error {
 		if filepath.Base(hdr.Name) != "schema.json" {
 			continue
 		}
-		err = json.NewDecoder(tarReader).Decode(catalog)
+		err = decodeCatalog(catalog, tarReader)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From a976075c4bed5b03377339640b0fe82c8d2e9437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:21:38 +0000
Subject: [PATCH 123/152] fix: compare versions with more numbers than the
 database reports

---
 ddl/ddl.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ddl/ddl.go b/ddl/ddl.go
index 5b3055e..e8202ec 100644
--- a/ddl/ddl.go
+++ b/ddl/ddl.go
@@ -1208,6 +1208,15 @@ func (v VersionNums) LowerThan(nums ...int) bool {
 			return true
 		}
 	}
+	if len(v) == 0 {
+		return false
+	}
+	// The version numbers that are missing are zero.
+	for i := len(v); i < len(nums); i++ {
+		if nums[i] > 0 {
+			return true
+		}
+	}
 	return false
 }
 
-- 
2.43.0


From dd63da1032d7ae685fb766967c04d39122f55b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:21:48 +0000
Subject: [PATCH 124/152] fix: interpolate parameters before a quote and report
 missing args

---
 ddl/sq.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ddl/sq.go b/ddl/sq.go
index 008ec0b..caf4558 100644
--- a/ddl/sq.go
+++ b/ddl/sq.go
@@ -414,6 +414,19 @@ func Sprintf(dialect string, query string, args []any) (string, error) {
 			}
 			continue
 		}
+		// does the current char end a parameter name and start a new string or
+		// identifier?
+		if len(paramName) > 0 && (char == '\'' || char == '"' || (char == '[' && dialect == DialectSQLServer)) {
+			paramValue, err := lookupParam(dialect, args, paramName, namedIndices, runningArgsIndex)
+			if err != nil {
+				return buf.String(), err
+			}
+			buf.WriteString(paramValue)
+			if len(paramName) == 1 && paramName[0] == '?' {
+				runningArgsIndex++
+			}
+			paramName = paramName[:0]
+		}
 		// does the current char mark the start of a new string or identifier?
 		if char == '\'' || char == '"' || (char == '`' && dialect == DialectMySQL) || (char == '[' && dialect == DialectSQLServer) {
 			insideStringOrIdentifier = true
@@ -687,6 +700,9 @@ func lookupParam(dialect string, args []any, paramName []rune, namedIndices map[
 		if paramName[0] != '?' {
 			return "", fmt.Errorf("parameter name missing")
 		}
+		if runningArgsIndex >= len(args) {
+			return "", fmt.Errorf("too few args provided, expected more than %d", runningArgsIndex)
+		}
 		paramValue, err = Sprint(dialect, args[runningArgsIndex])
 		if err != nil {
 			return "", err
-- 
2.43.0


From dc91a6e57ac4768d5ccc92e042c913e8f6c01860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:22:14 +0000
Subject: [PATCH 125/152] fix: write values that have no plain SQL
 representation correctly

---
 ddl/sq.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/ddl/sq.go b/ddl/sq.go
index caf4558..1483e00 100644
--- a/ddl/sq.go
+++ b/ddl/sq.go
@@ -7,6 +7,7 @@ import (
 	"database/sql/driver"
 	"encoding/hex"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -534,6 +535,13 @@ func Sprint(dialect string, v any) (string, error) {
 		}
 	case string:
 		str := v
+		if dialect == DialectMySQL {
+			str = strings.ReplaceAll(str, `\`, `\\`)
+		}
+		if dialect == DialectSQLServer && (str == "\r" || str == "\n") {
+			// CONCAT needs at least two arguments.
+			return fmt.Sprintf("CHAR(%d)", str[0]), nil
+		}
 		i := strings.IndexAny(str, "\r\n")
 		if i < 0 {
 			return `'` + strings.ReplaceAll(str, `'`, `''`) + `'`, nil
@@ -608,8 +616,14 @@ func Sprint(dialect string, v any) (string, error) {
 	case uint64:
 		return strconv.FormatUint(v, 10), nil
 	case float32:
+		if math.IsInf(float64(v), 0) || math.IsNaN(float64(v)) {
+			return "", fmt.Errorf("%v has no SQL representation", v)
+		}
 		return strconv.FormatFloat(float64(v), 'g', -1, 64), nil
 	case float64:
+		if math.IsInf(v, 0) || math.IsNaN(v) {
+			return "", fmt.Errorf("%v has no SQL representation", v)
+		}
 		return strconv.FormatFloat(v, 'g', -1, 64), nil
 	case sql.NamedArg:
 		return Sprint(dialect, v.Value)
@@ -631,7 +645,7 @@ func Sprint(dialect string, v any) (string, error) {
 		if !v.Valid {
 			return "NULL", nil
 		}
-		return strconv.FormatFloat(v.Float64, 'g', -1, 64), nil
+		return Sprint(dialect, v.Float64)
 	case sql.NullInt64:
 		if !v.Valid {
 			return "NULL", nil
@@ -656,6 +670,9 @@ func Sprint(dialect string, v any) (string, error) {
 		}
 		return `'` + v.Time.UTC().Format(timestamp) + `'`, nil
 	case driver.Valuer:
+		if rv := reflect.ValueOf(v); rv.Kind() == reflect.Pointer && rv.IsNil() {
+			return "NULL", nil
+		}
 		vv, err := v.Value()
 		if err != nil {
 			return "", fmt.Errorf("error when calling Value(): %w", err)
-- 
2.43.0


From 38484c117fb4a4ff8857cb6b1ef8eb94dce03d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:39:07 +0000
Subject: [PATCH 126/152] fix: let files that are dumped or loaded in parallel
 take turns at Stderr

---
 ddl/ddl.go      | 12 ++++++++++++
 ddl/dump_cmd.go |  4 ++++
 ddl/load_cmd.go |  4 ++++
 3 files changed, 20 insertions(+)

diff --git a/ddl/ddl.go b/ddl/ddl.go
index e8202ec..03f3f70 100644
--- a/ddl/ddl.go
+++ b/ddl/ddl.go
@@ -1173,6 +1173,18 @@ func timestamp() string {
 	return time.Now().UTC().Format("2006-01-02 15:04:05 ")
 }
 
+// syncWriter is an io.Writer that may be used by several goroutines.
+type syncWriter struct {
+	mu sync.Mutex
+	w  io.Writer
+}
+
+func (sw *syncWriter) Write(p []byte) (int, error) {
+	sw.mu.Lock()
+	defer sw.mu.Unlock()
+	return sw.w.Write(p)
+}
+
 type strslice []string
 
 var _ flag.Value = (*strslice)(nil)
diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 2624d09..cd7271f 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -187,6 +187,10 @@ func (cmd *DumpCmd) Run() error {
 	if cmd.Stderr == nil {
 		cmd.Stderr = os.Stderr
 	}
+	// Files are dumped in parallel, make sure they take turns writing to Stderr.
+	stderr := cmd.Stderr
+	cmd.Stderr = &syncWriter{w: stderr}
+	defer func() { cmd.Stderr = stderr }()
 	if cmd.HistoryTable == "" {
 		cmd.HistoryTable = "sqddl_history"
 	}
diff --git a/ddl/load_cmd.go b/ddl/load_cmd.go
index 15ba2f9..7e361f8 100644
--- a/ddl/load_cmd.go
+++ b/ddl/load_cmd.go
@@ -160,6 +160,10 @@ func (cmd *LoadCmd) Run() error {
 	if cmd.Stderr == nil {
 		cmd.Stderr = os.Stderr
 	}
+	// Files are loaded in parallel, make sure they take turns writing to Stderr.
+	stderr := cmd.Stderr
+	cmd.Stderr = &syncWriter{w: stderr}
+	defer func() { cmd.Stderr = stderr }()
 	if cmd.Batchsize == 0 {
 		cmd.Batchsize = 1000
 	}
-- 
2.43.0


From b3026ba6c86e720f358b3fee1ba3ed7089b3350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:42:20 +0000
Subject: [PATCH 127/152] fix: keep MySQL column defaults that are empty
 strings

---
 ddl/introspection_scripts/mysql_columns.sql | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ddl/introspection_scripts/mysql_columns.sql b/ddl/introspection_scripts/mysql_columns.sql
index 0441b56..4a60651 100644
--- a/ddl/introspection_scripts/mysql_columns.sql
+++ b/ddl/introspection_scripts/mysql_columns.sql
@@ -17,6 +17,7 @@ SELECT
     END AS collation_name
     ,CASE
         WHEN c.extra LIKE '%DEFAULT_GENERATED%' AND c.column_default <> 'CURRENT_TIMESTAMP' AND c.column_default NOT LIKE '(%)' THEN CONCAT('(', c.column_default, ')')
+        WHEN c.column_default IS NOT NULL AND LENGTH(c.column_default) = 0 THEN ''''''
         ELSE COALESCE(c.column_default, '')
     END AS column_default
     ,c.column_comment
-- 
2.43.0


From 1eb7a547485998bbf47df1ac632f4ab1cd7bc07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:42:20 +0000
Subject: [PATCH 128/152] fix: dump the keys of every schema before any foreign
 key

---
 ddl/dump_cmd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index cd7271f..cd22dd4 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -814,6 +814,9 @@ func (cmd *DumpCmd) dumpConstraints(w io.Writer) error {
 				buf.WriteString(";\n")
 			}
 		}
+	}
+	for i := range cmd.catalog.Schemas {
+		schema := &cmd.catalog.Schemas[i]
 		// FOREIGN KEY
 		// Foreign keys are added at the very end in order to avoid problems
 		// with circular references.
-- 
2.43.0


From f3af39c43ad83b52082081b77de65cf3f4a02da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:42:20 +0000
Subject: [PATCH 129/152] fix: keep the case of quoted Postgres type names

---
 ddl/database_introspector.go | 10 +++++-----
 ddl/ddl.go                   | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/ddl/database_introspector.go b/ddl/database_introspector.go
index 4b42c67..5f6ff9d 100644
--- a/ddl/database_introspector.go
+++ b/ddl/database_introspector.go
@@ -545,20 +545,20 @@ func (dbi *DatabaseIntrospector) GetColumns() ([]Column, error) {
 				column.CharacterLength, column.NumericPrecision, column.NumericScale = "", "", ""
 			}
 			if column.IsEnum {
-				column.ColumnType = strings.ToLower(column.ColumnType)
+				// The name of an enum is already in the right case.
 			} else if arg1 != "" && strings.HasSuffix(normalizedType, "[]") {
 				// The arguments come before the array brackets.
 				args := arg1
 				if arg2 != "" {
 					args += "," + arg2
 				}
-				column.ColumnType = strings.ToLower(strings.TrimSuffix(normalizedType, "[]")) + "(" + args + ")[]"
+				column.ColumnType = toLowerUnquoted(strings.TrimSuffix(normalizedType, "[]")) + "(" + args + ")[]"
 			} else if arg1 != "" && arg2 != "" {
-				column.ColumnType = strings.ToLower(normalizedType) + "(" + arg1 + "," + arg2 + ")"
+				column.ColumnType = toLowerUnquoted(normalizedType) + "(" + arg1 + "," + arg2 + ")"
 			} else if arg1 != "" {
-				column.ColumnType = strings.ToLower(normalizedType) + "(" + arg1 + ")"
+				column.ColumnType = toLowerUnquoted(normalizedType) + "(" + arg1 + ")"
 			} else {
-				column.ColumnType = strings.ToLower(normalizedType)
+				column.ColumnType = toLowerUnquoted(normalizedType)
 			}
 		case DialectMySQL:
 			err = rows.Scan(
diff --git a/ddl/ddl.go b/ddl/ddl.go
index 03f3f70..216e870 100644
--- a/ddl/ddl.go
+++ b/ddl/ddl.go
@@ -954,6 +954,25 @@ func toUpperUnquoted(s string) string {
 	return string(b)
 }
 
+// toLowerUnquoted is toUpperUnquoted for lowercase.
+func toLowerUnquoted(s string) string {
+	b := []byte(s)
+	var quote byte
+	for i, c := range b {
+		switch {
+		case quote != 0:
+			if c == quote {
+				quote = 0
+			}
+		case c == '\'' || c == '"':
+			quote = c
+		case 'A' <= c && c <= 'Z':
+			b[i] = c - 'A' + 'a'
+		}
+	}
+	return string(b)
+}
+
 // normalizeColumnType will normalize column defaults so that they can be
 // meaningfully compared.
 func normalizeColumnDefault(dialect string, columnDefault string) (normalizedDefault string) {
-- 
2.43.0


From 9143e083db28678a58726fcfbcceef4bfd0d12ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:42:20 +0000
Subject: [PATCH 130/152] fix: quote and qualify the names of Postgres domains
 in column types

---
 ddl/introspection_scripts/postgres_columns.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/introspection_scripts/postgres_columns.sql b/ddl/introspection_scripts/postgres_columns.sql
index 4a32639..0910eee 100644
--- a/ddl/introspection_scripts/postgres_columns.sql
+++ b/ddl/introspection_scripts/postgres_columns.sql
@@ -7,7 +7,7 @@ SELECT
         ELSE format_type(columns.atttypid, columns.atttypmod)
     END AS column_type
     ,enum.oid IS NOT NULL AS is_enum
-    ,COALESCE(domain_type.typname, '') AS domain_name
+    ,CASE WHEN domain_type.oid IS NOT NULL THEN format_type(columns.atttypid, NULL) ELSE '' END AS domain_name
     -- https://stackoverflow.com/a/3351120 precision and scale calculation
     ,CASE columns.atttypid
         WHEN 1700 /* numeric */ THEN
-- 
2.43.0


From 09d36a7b9751a27e98153924742de514d7cd08e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:42:20 +0000
Subject: [PATCH 131/152] fix: tell empty bytes from NULL in dumped CSV files

---
 ddl/dump_cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index cd22dd4..c139688 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -935,7 +935,7 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 		for i, value := range scanDest {
 			switch value := value.(type) {
 			case *[]byte:
-				if len(*value) == 0 {
+				if *value == nil {
 					record[i] = cmd.Nullstring
 					continue
 				}
-- 
2.43.0


From 605f3178ea0d0666da60fd9d45df84222be4c2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:42:20 +0000
Subject: [PATCH 132/152] fix: dump all digits of exact numbers

---
 ddl/dump_cmd.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index c139688..9c952ba 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -904,7 +904,10 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 			scanDest = append(scanDest, &[]byte{})
 		case "BOOLEAN", "BIT":
 			scanDest = append(scanDest, &sql.NullBool{})
-		case "NUMERIC", "FLOAT", "REAL", "DOUBLE PRECISION":
+		case "NUMERIC":
+			// The text of the number, a float64 does not hold all its digits.
+			scanDest = append(scanDest, &sql.NullString{})
+		case "FLOAT", "REAL", "DOUBLE PRECISION":
 			scanDest = append(scanDest, &sql.NullFloat64{})
 		case "TINYINT", "SMALLINT", "MEDIUMINT", "INT", "INTEGER", "BIGINT":
 			scanDest = append(scanDest, &sql.NullInt64{})
-- 
2.43.0


From 042e1d3d04bf6d945b0e3090a627189127fdb93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:42:20 +0000
Subject: [PATCH 133/152] fix: dump unsigned numbers larger than an int64

---
 ddl/dump_cmd.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 9c952ba..7a1cd8b 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -865,6 +865,12 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 		if cmd.Dialect == DialectMySQL {
 			if strings.HasSuffix(columnType, " UNSIGNED") {
 				columnType = strings.TrimSuffix(columnType, " UNSIGNED")
+				if columnType == "BIGINT" {
+					// The number may not fit into an int64.
+					columnTypes = append(columnTypes, columnType)
+					scanDest = append(scanDest, &sql.NullString{})
+					continue
+				}
 			} else {
 				columnType = strings.TrimSuffix(columnType, " SIGNED")
 			}
-- 
2.43.0


From 27ccbfa5170ecd5a72d93e96e5a1905762b37ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:42:20 +0000
Subject: [PATCH 134/152] fix: dump times of day as such

---
 ddl/dump_cmd.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 7a1cd8b..52712b7 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -852,6 +852,21 @@ func (cmd *DumpCmd) dumpConstraints(w io.Writer) error {
 	return nil
 }
 
+// timeOfDay scans a time of day, which is a time.Time in some drivers and text
+// in the others.
+type timeOfDay struct {
+	sql.NullString
+	layout string
+}
+
+func (t *timeOfDay) Scan(value any) error {
+	if value, ok := value.(time.Time); ok {
+		t.String, t.Valid = value.Format(t.layout), true
+		return nil
+	}
+	return t.NullString.Scan(value)
+}
+
 func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, query string) error {
 	headers := make([]string, 0, len(table.Columns))
 	columnTypes := make([]string, 0, len(table.Columns))
@@ -919,7 +934,11 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 			scanDest = append(scanDest, &sql.NullInt64{})
 		case "TINYTEXT", "TEXT", "MEDIUMTEXT", "LONGTEXT", "CHAR", "VARCHAR", "NVARCHAR", "UUID", "UNIQUEIDENTIFIER", "JSON", "JSONB":
 			scanDest = append(scanDest, &sql.NullString{})
-		case "DATE", "TIME", "TIMETZ", "DATETIME", "DATETIME2", "SMALLDATETIME", "DATETIMEOFFSET", "TIMESTAMP", "TIMESTAMPTZ":
+		case "TIME":
+			scanDest = append(scanDest, &timeOfDay{layout: "15:04:05.999999999"})
+		case "TIMETZ":
+			scanDest = append(scanDest, &timeOfDay{layout: "15:04:05.999999999Z07:00"})
+		case "DATE", "DATETIME", "DATETIME2", "SMALLDATETIME", "DATETIMEOFFSET", "TIMESTAMP", "TIMESTAMPTZ":
 			scanDest = append(scanDest, &sql.NullTime{})
 		default:
 			scanDest = append(scanDest, &sql.NullString{})
@@ -1002,6 +1021,12 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 					continue
 				}
 				record[i] = value.Time.UTC().Format("2006-01-02 15:04:05.999999999")
+			case *timeOfDay:
+				if !value.Valid {
+					record[i] = cmd.Nullstring
+					continue
+				}
+				record[i] = value.String
 			case *pqarray.BoolArray, *pqarray.Int64Array, *pqarray.Float64Array, *pqarray.StringArray:
 				// If we reach here it means cmd.ArrayAsJSON is true. If
 				// cmd.ArrayAsJSON is false, then the value would have been
-- 
2.43.0


From 8cfc7fb168e77b31469fd7f5ce5df44d2df03af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:42:20 +0000
Subject: [PATCH 135/152] fix: dump SQL Server identifiers as text

---
 ddl/dump_cmd.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 52712b7..63b5a33 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -1009,6 +1009,13 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 						record[i] = cmd.Binaryprefix + strings.ReplaceAll(value.String, "-", "")
 						continue
 					}
+				case "UNIQUEIDENTIFIER":
+					if b := []byte(value.String); cmd.Dialect == DialectSQLServer && len(b) == 16 {
+						// The driver gives the bytes the way SQL Server
+						// stores them, the first three groups little endian.
+						record[i] = fmt.Sprintf("%02x%02x%02x%02x-%02x%02x-%02x%02x-%x-%x", b[3], b[2], b[1], b[0], b[5], b[4], b[7], b[6], b[8:10], b[10:])
+						continue
+					}
 				}
 				record[i] = value.String
 			case *sql.NullTime:
-- 
2.43.0


From 9abcf3d59cb3cbf9c10b83ce5c64a5f277009697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:42:20 +0000
Subject: [PATCH 136/152] fix: dump and load MySQL bits

---
 ddl/dump_cmd.go | 5 +++++
 ddl/load_cmd.go | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 63b5a33..f4b7cae 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -920,6 +920,11 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 				continue
 			}
 		}
+		if cmd.Dialect == DialectMySQL && columnType == "BIT" {
+			// MySQL bits are bytes.
+			scanDest = append(scanDest, &[]byte{})
+			continue
+		}
 		switch columnType {
 		case "BYTEA", "BINARY", "VARBINARY", "TINYBLOB", "BLOB", "MEDIUMBLOB", "LONGBLOB", "VARBIT":
 			scanDest = append(scanDest, &[]byte{})
diff --git a/ddl/load_cmd.go b/ddl/load_cmd.go
index 7e361f8..c26ba87 100644
--- a/ddl/load_cmd.go
+++ b/ddl/load_cmd.go
@@ -448,6 +448,8 @@ func (cmd *LoadCmd) loadCSV(ctx context.Context, tx *sql.Tx, filename string, r
 			switch columnType {
 			case "BYTEA", "BINARY", "VARBINARY", "TINYBLOB", "BLOB", "MEDIUMBLOB", "LONGBLOB", "VARBIT", "UUID":
 				binaryCompatible = true
+			case "BIT":
+				binaryCompatible = cmd.Dialect == DialectMySQL
 			}
 			if binaryCompatible && !cmd.NoBinaryprefix && cmd.Binaryprefix != "" && strings.HasPrefix(field, cmd.Binaryprefix) {
 				b, err := hex.DecodeString(strings.TrimPrefix(field, cmd.Binaryprefix))
-- 
2.43.0


From 4885a1f7d2f80f0c1d23826263612d309f76e669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:42:49 +0000
Subject: [PATCH 137/152] fix: dump NULL arrays, NULL elements and all digits
 of Postgres arrays as JSON

---
 ddl/dump_cmd.go | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index f4b7cae..10051be 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -903,20 +903,10 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 			continue
 		}
 		if cmd.Dialect == DialectPostgres && cmd.ArrayAsJSON {
-			matched := true
 			switch columnType {
-			case "BOOLEAN[]":
-				scanDest = append(scanDest, &pqarray.BoolArray{})
-			case "SMALLINT[]", "INT[]", "INTEGER[]", "BIGINT[]":
-				scanDest = append(scanDest, &pqarray.Int64Array{})
-			case "NUMERIC[]", "REAL[]", "DOUBLE PRECISION[]":
-				scanDest = append(scanDest, &pqarray.Float64Array{})
-			case "VARCHAR[]", "CHAR[]", "TEXT[]":
-				scanDest = append(scanDest, &pqarray.StringArray{})
-			default:
-				matched = false
-			}
-			if matched {
+			case "BOOLEAN[]", "SMALLINT[]", "INT[]", "INTEGER[]", "BIGINT[]", "NUMERIC[]", "REAL[]", "DOUBLE PRECISION[]", "VARCHAR[]", "CHAR[]", "TEXT[]":
+				// Both the array and its elements may be NULL.
+				scanDest = append(scanDest, pqarray.GenericArray{A: &[]sql.NullString{}})
 				continue
 			}
 		}
@@ -1039,11 +1029,30 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 					continue
 				}
 				record[i] = value.String
-			case *pqarray.BoolArray, *pqarray.Int64Array, *pqarray.Float64Array, *pqarray.StringArray:
+			case pqarray.GenericArray:
 				// If we reach here it means cmd.ArrayAsJSON is true. If
 				// cmd.ArrayAsJSON is false, then the value would have been
 				// scanned as an *sql.NullString instead.
-				b, err := json.Marshal(value)
+				array := *value.A.(*[]sql.NullString)
+				if array == nil {
+					record[i] = cmd.Nullstring
+					continue
+				}
+				elements := make([]any, len(array))
+				for j, element := range array {
+					if !element.Valid {
+						continue
+					}
+					switch columnTypes[i] {
+					case "BOOLEAN[]":
+						elements[j] = element.String == "t" || element.String == "true"
+					case "VARCHAR[]", "CHAR[]", "TEXT[]":
+						elements[j] = element.String
+					default:
+						elements[j] = json.Number(element.String)
+					}
+				}
+				b, err := json.Marshal(elements)
 				if err != nil {
 					return err
 				}
-- 
2.43.0


From de205bfc2fa0bc1cd87c48095c09ca9bca53c7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:42:49 +0000
Subject: [PATCH 138/152] fix: load JSON arrays with escapes and NULL elements
 into Postgres arrays

---
 ddl/load_cmd.go | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/ddl/load_cmd.go b/ddl/load_cmd.go
index c26ba87..49285e9 100644
--- a/ddl/load_cmd.go
+++ b/ddl/load_cmd.go
@@ -10,6 +10,7 @@ import (
 	"embed"
 	"encoding/csv"
 	"encoding/hex"
+	"encoding/json"
 	"errors"
 	"flag"
 	"fmt"
@@ -481,7 +482,7 @@ func (cmd *LoadCmd) loadCSV(ctx context.Context, tx *sql.Tx, filename string, r
 			if cmd.Dialect == DialectPostgres && strings.HasSuffix(columnType, "[]") && len(field) >= 2 && field[0] == '[' && field[len(field)-1] == ']' {
 				// (Postgres only) Convert JSON arrays into Postgres arrays if
 				// the column is an array type (e.g. TEXT[], INT[]).
-				rowvalue[i] = "{" + field[1:len(field)-1] + "}"
+				rowvalue[i] = jsonToPostgresArray(field)
 				continue
 			}
 			if cmd.Dialect == DialectSQLite && cmd.TimestampAsInteger && (columnType == "TIMESTAMP" || columnType == "DATETIME" || columnType == "DATE") {
@@ -1135,3 +1136,40 @@ func setSessionValue(ctx context.Context, db DB, getter, setter, value string) (
 		return err
 	}, nil
 }
+
+// jsonToPostgresArray converts a JSON array into a Postgres array.
+func jsonToPostgresArray(s string) string {
+	var array []any
+	decoder := json.NewDecoder(strings.NewReader(s))
+	decoder.UseNumber()
+	err := decoder.Decode(&array)
+	if err != nil {
+		return "{" + s[1:len(s)-1] + "}"
+	}
+	var b strings.Builder
+	writePostgresArray(&b, array)
+	return b.String()
+}
+
+func writePostgresArray(b *strings.Builder, array []any) {
+	b.WriteString("{")
+	for i, element := range array {
+		if i > 0 {
+			b.WriteString(",")
+		}
+		switch element := element.(type) {
+		case nil:
+			b.WriteString("NULL")
+		case string:
+			b.WriteString(`"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(element) + `"`)
+		case []any:
+			writePostgresArray(b, element)
+		case map[string]any:
+			value, _ := json.Marshal(element)
+			b.WriteString(`"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(string(value)) + `"`)
+		default:
+			b.WriteString(fmt.Sprint(element))
+		}
+	}
+	b.WriteString("}")
+}
-- 
2.43.0


From b4c6e4f74526f673dce86775a57064847bcdb8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:42:49 +0000
Subject: [PATCH 139/152] fix: stop dumping tables when the context is
 cancelled

---
 ddl/dump_cmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 10051be..7d75411 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -939,9 +939,9 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 			scanDest = append(scanDest, &sql.NullString{})
 		}
 	}
-	rows, err := cmd.DB.Query(query)
+	rows, err := cmd.DB.QueryContext(ctx, query)
 	if err != nil {
-		return fmt.Errorf("%w\n"+query, err)
+		return fmt.Errorf("%w\n%s", err, query)
 	}
 	defer rows.Close()
 	csvWriter := csv.NewWriter(w)
-- 
2.43.0


From b3d0a191bcb84f8a3ca6c812d712796999d4ab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:51:43 +0000
Subject: [PATCH 140/152] fix: introspect MySQL indexes on columns with quotes
 in their names

---
 ddl/database_introspector.go                | 7 ++++++-
 ddl/introspection_scripts/mysql_indexes.sql | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ddl/database_introspector.go b/ddl/database_introspector.go
index 5f6ff9d..300bcda 100644
--- a/ddl/database_introspector.go
+++ b/ddl/database_introspector.go
@@ -1067,7 +1067,12 @@ func (dbi *DatabaseIntrospector) GetIndexes() ([]Index, error) {
 			if err != nil {
 				return nil, fmt.Errorf("scanning Index: %w", err)
 			}
-			index.Columns = splitArgs(strings.TrimSpace(strings.ReplaceAll(columns, `\'`, `'`)))
+			index.Columns = strings.Split(columns, "\n")
+			for i, column := range index.Columns {
+				if wrappedInBrackets(column) {
+					index.Columns[i] = strings.ReplaceAll(column, `\'`, `'`)
+				}
+			}
 			index.Descending = make([]bool, 0, len(index.Columns))
 			if descending != "" {
 				for _, str := range strings.Split(descending, ",") {
diff --git a/ddl/introspection_scripts/mysql_indexes.sql b/ddl/introspection_scripts/mysql_indexes.sql
index 0f19bb0..814a97f 100644
--- a/ddl/introspection_scripts/mysql_indexes.sql
+++ b/ddl/introspection_scripts/mysql_indexes.sql
@@ -4,7 +4,7 @@ SELECT
     ,index_name
     ,index_type
     ,is_unique
-    ,group_concat(column_name ORDER BY seq_in_index) AS columns
+    ,group_concat(column_name ORDER BY seq_in_index SEPARATOR '\n') AS columns
     ,group_concat(is_descending ORDER BY seq_in_index) AS descending
 FROM (
     SELECT
-- 
2.43.0


From 6b079b2b9542b65af5e797424a84ec0da05f0c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:57:13 +0000
Subject: [PATCH 141/152] fix: find the subset rows whose timestamp keys have
 fractional seconds

---
 ddl/subsetter.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ddl/subsetter.go b/ddl/subsetter.go
index 4f11161..050e025 100644
--- a/ddl/subsetter.go
+++ b/ddl/subsetter.go
@@ -293,11 +293,7 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 					record[i] = "NULL"
 					continue
 				}
-				if value.Time.Sub(value.Time.Round(time.Millisecond)) != 0 {
-					record[i] = "'" + value.Time.UTC().Format("2006-01-02 15:04:05.000") + "'"
-				} else {
-					record[i] = "'" + value.Time.UTC().Format("2006-01-02 15:04:05") + "'"
-				}
+				record[i] = "'" + value.Time.UTC().Format("2006-01-02 15:04:05.999999999") + "'"
 			default:
 				panic("unreachable")
 			}
-- 
2.43.0


From 3aae28a053455501f39880e954ff98e3e42f9145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:57:25 +0000
Subject: [PATCH 142/152] fix: find the subset rows whose numeric keys do not
 fit into a float64 or an int64

---
 ddl/subsetter.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ddl/subsetter.go b/ddl/subsetter.go
index 050e025..ac6750d 100644
--- a/ddl/subsetter.go
+++ b/ddl/subsetter.go
@@ -181,6 +181,10 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 		if ss.dialect == DialectMySQL {
 			if strings.HasSuffix(columnType, " UNSIGNED") {
 				columnType = strings.TrimSuffix(columnType, " UNSIGNED")
+				if columnType == "BIGINT" {
+					// The number may not fit into an int64.
+					columnType = "NUMERIC"
+				}
 			} else {
 				columnType = strings.TrimSuffix(columnType, " SIGNED")
 			}
@@ -195,7 +199,10 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 			scanDest = append(scanDest, &[]byte{})
 		case "BOOLEAN", "BIT":
 			scanDest = append(scanDest, &sql.NullBool{})
-		case "NUMERIC", "FLOAT", "REAL", "DOUBLE PRECISION":
+		case "NUMERIC":
+			// The text of the number, a float64 does not hold all its digits.
+			scanDest = append(scanDest, &sql.NullString{})
+		case "FLOAT", "REAL", "DOUBLE PRECISION":
 			scanDest = append(scanDest, &sql.NullFloat64{})
 		case "TINYINT", "SMALLINT", "MEDIUMINT", "INT", "INTEGER", "BIGINT":
 			scanDest = append(scanDest, &sql.NullInt64{})
@@ -287,6 +294,10 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 					record[i] = "NULL"
 					continue
 				}
+				if result.columnTypes[i] == "NUMERIC" {
+					record[i] = value.String
+					continue
+				}
 				record[i] = "'" + EscapeQuote(value.String, '\'') + "'"
 			case *Timestamp:
 				if !value.Valid {
-- 
2.43.0


From 72d1d4d3b0845f48377dfe3c5a873726e47f4985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:57:36 +0000
Subject: [PATCH 143/152] fix: find the subset rows whose MySQL keys have
 backslashes

---
 ddl/subsetter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/subsetter.go b/ddl/subsetter.go
index ac6750d..341f222 100644
--- a/ddl/subsetter.go
+++ b/ddl/subsetter.go
@@ -298,6 +298,9 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 					record[i] = value.String
 					continue
 				}
+				if ss.dialect == DialectMySQL {
+					value.String = strings.ReplaceAll(value.String, `\`, `\\`)
+				}
 				record[i] = "'" + EscapeQuote(value.String, '\'') + "'"
 			case *Timestamp:
 				if !value.Valid {
-- 
2.43.0


From 5ede6767b735ddd3cb0ea772df21535e9c713db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:57:48 +0000
Subject: [PATCH 144/152] fix: find the subset rows whose SQL Server keys are
 identifiers or not in the code page

---
 ddl/dump_cmd.go  | 11 ++++++++---
 ddl/subsetter.go |  7 +++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 7d75411..bfc7608 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -852,6 +852,13 @@ func (cmd *DumpCmd) dumpConstraints(w io.Writer) error {
 	return nil
 }
 
+// uniqueidentifierString returns the text of the 16 bytes that the driver gives
+// for a UNIQUEIDENTIFIER. They are the way SQL Server stores them, the first
+// three groups are little endian.
+func uniqueidentifierString(b []byte) string {
+	return fmt.Sprintf("%02x%02x%02x%02x-%02x%02x-%02x%02x-%x-%x", b[3], b[2], b[1], b[0], b[5], b[4], b[7], b[6], b[8:10], b[10:])
+}
+
 // timeOfDay scans a time of day, which is a time.Time in some drivers and text
 // in the others.
 type timeOfDay struct {
@@ -1006,9 +1013,7 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 					}
 				case "UNIQUEIDENTIFIER":
 					if b := []byte(value.String); cmd.Dialect == DialectSQLServer && len(b) == 16 {
-						// The driver gives the bytes the way SQL Server
-						// stores them, the first three groups little endian.
-						record[i] = fmt.Sprintf("%02x%02x%02x%02x-%02x%02x-%02x%02x-%x-%x", b[3], b[2], b[1], b[0], b[5], b[4], b[7], b[6], b[8:10], b[10:])
+						record[i] = uniqueidentifierString(b)
 						continue
 					}
 				}
diff --git a/ddl/subsetter.go b/ddl/subsetter.go
index 341f222..128b3d1 100644
--- a/ddl/subsetter.go
+++ b/ddl/subsetter.go
@@ -298,6 +298,13 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 					record[i] = value.String
 					continue
 				}
+				if ss.dialect == DialectSQLServer {
+					if b := []byte(value.String); result.columnTypes[i] == "UNIQUEIDENTIFIER" && len(b) == 16 {
+						value.String = uniqueidentifierString(b)
+					}
+					record[i] = "N'" + EscapeQuote(value.String, '\'') + "'"
+					continue
+				}
 				if ss.dialect == DialectMySQL {
 					value.String = strings.ReplaceAll(value.String, `\`, `\\`)
 				}
-- 
2.43.0


From 83be928b6213a29e4367df020909431bdbe7f92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:57:59 +0000
Subject: [PATCH 145/152] fix: cast the subset keys that Postgres does not
 compare to text

---
 ddl/subsetter.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ddl/subsetter.go b/ddl/subsetter.go
index 128b3d1..9e29bb4 100644
--- a/ddl/subsetter.go
+++ b/ddl/subsetter.go
@@ -319,6 +319,14 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 				panic("unreachable")
 			}
 		}
+		if ss.dialect == DialectPostgres {
+			// The literals are text, which is not comparable to other types.
+			for i, columnType := range result.columnTypes {
+				if strings.HasPrefix(record[i], "'") && columnType != "TEXT" && columnType != "VARCHAR" && columnType != "CHAR" {
+					record[i] += "::" + columnType
+				}
+			}
+		}
 		result.records = append(result.records, record)
 	}
 	err = closeRows(rows)
-- 
2.43.0


From 6b1bfe1ff6631023942923e82f660b593d479a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:34:02 +0000
Subject: [PATCH 146/152] fix: do not create or copy objects that are marked as
 ignored

---
 ddl/mysql_migration.go     |  3 +++
 ddl/postgres_migration.go  |  3 +++
 ddl/sqlite_migration.go    | 23 +++++++++++++++++------
 ddl/sqlserver_migration.go |  3 +++
 4 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/ddl/mysql_migration.go b/ddl/mysql_migration.go
index 3fdaf4b..62fd87f 100644
--- a/ddl/mysql_migration.go
+++ b/ddl/mysql_migration.go
@@ -356,6 +356,9 @@ func (m *mysqlMigration) sql(prefix string) (filenames []string, bufs []*bytes.B
 				}
 				writeCreateTable(dialect, buf, m.currentSchema, m.defaultCollation, table, true)
 				for _, index := range table.Indexes {
+					if index.Ignore {
+						continue
+					}
 					if buf.Len() > 0 {
 						buf.WriteString("\n")
 					}
diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index d79fd01..e5e3b19 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -468,6 +468,9 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 			}
 			writeCreateTable(dialect, buf, m.currentSchema, m.defaultCollation, table, true)
 			for _, index := range table.Indexes {
+				if index.Ignore {
+					continue
+				}
 				if buf.Len() > 0 {
 					buf.WriteString("\n")
 				}
diff --git a/ddl/sqlite_migration.go b/ddl/sqlite_migration.go
index f691d32..e06adb6 100644
--- a/ddl/sqlite_migration.go
+++ b/ddl/sqlite_migration.go
@@ -28,14 +28,16 @@ type sqliteAlterTable struct {
 func newSQLiteMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) sqliteMigration {
 	const dialect = DialectSQLite
 	m := sqliteMigration{}
-	if len(srcCatalog.Schemas) == 0 && len(destCatalog.Schemas) == 0 {
+	srcExists := len(srcCatalog.Schemas) > 0 && !srcCatalog.Schemas[0].Ignore
+	destExists := len(destCatalog.Schemas) > 0 && !destCatalog.Schemas[0].Ignore
+	if !srcExists && !destExists {
 		return m
 	}
-	if len(destCatalog.Schemas) == 0 {
+	if !destExists {
 		if dropObjects {
 			for i := range srcCatalog.Schemas[0].Tables {
 				srcTable := &srcCatalog.Schemas[0].Tables[i]
-				if isVirtualTable(srcTable) {
+				if srcTable.Ignore || isVirtualTable(srcTable) {
 					continue
 				}
 				m.dropTables = append(m.dropTables, srcTable)
@@ -43,7 +45,7 @@ func newSQLiteMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) sqli
 		}
 		return m
 	}
-	if len(srcCatalog.Schemas) == 0 {
+	if !srcExists {
 		for i := range destCatalog.Schemas[0].Tables {
 			destTable := &destCatalog.Schemas[0].Tables[i]
 			if isVirtualTable(destTable) {
@@ -313,6 +315,9 @@ func (m *sqliteMigration) sql(prefix string) (filenames []string, bufs []*bytes.
 		}
 		writeCreateTable(dialect, buf, currentSchema, defaultCollation, table, true)
 		for _, index := range table.Indexes {
+			if index.Ignore {
+				continue
+			}
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
@@ -433,14 +438,14 @@ func (alterTable *sqliteAlterTable) copyTable(buf *bytes.Buffer) {
 	// INSERT INTO "${TableName}_new" SELECT ... FROM "$TableName".
 	isDestColumn := make(map[string]bool)
 	for _, destColumn := range alterTable.destTable.Columns {
-		if destColumn.IsGenerated || destColumn.GeneratedExpr != "" {
+		if destColumn.Ignore || destColumn.IsGenerated || destColumn.GeneratedExpr != "" {
 			continue
 		}
 		isDestColumn[destColumn.ColumnName] = true
 	}
 	insertColumns := make([]string, 0, len(alterTable.srcTable.Columns))
 	for _, srcColumn := range alterTable.srcTable.Columns {
-		if !isDestColumn[srcColumn.ColumnName] {
+		if srcColumn.Ignore || !isDestColumn[srcColumn.ColumnName] {
 			continue
 		}
 		insertColumns = append(insertColumns, srcColumn.ColumnName)
@@ -472,6 +477,9 @@ func (alterTable *sqliteAlterTable) copyTable(buf *bytes.Buffer) {
 	// CREATE INDEX.
 	for i := range alterTable.destTable.Indexes {
 		destIndex := &alterTable.destTable.Indexes[i]
+		if destIndex.Ignore {
+			continue
+		}
 		if buf.Len() > 0 {
 			buf.WriteString("\n")
 		}
@@ -488,6 +496,9 @@ func (alterTable *sqliteAlterTable) copyTable(buf *bytes.Buffer) {
 		triggers = alterTable.srcTable.Triggers
 	}
 	for _, trigger := range triggers {
+		if trigger.Ignore {
+			continue
+		}
 		if buf.Len() > 0 {
 			buf.WriteString("\n")
 		}
diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 87c28b0..6c4cd0e 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -617,6 +617,9 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 			}
 			writeCreateTable(dialect, buf, m.currentSchema, m.defaultCollation, table, true)
 			for _, index := range table.Indexes {
+				if index.Ignore {
+					continue
+				}
 				if buf.Len() > 0 {
 					buf.WriteString("\n")
 				}
-- 
2.43.0


From 250aa14cd40e3952b1b5be865ff96a9e6f5b6039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:34:14 +0000
Subject: [PATCH 147/152] fix: do not drop ignored objects of a dropped SQL
 Server schema

---
 ddl/sqlserver_migration.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 6c4cd0e..23ecff1 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -547,6 +547,9 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 		}
 		// DROP VIEW.
 		for _, view := range schema.Views {
+			if view.Ignore {
+				continue
+			}
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
@@ -554,6 +557,9 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 		}
 		// DROP TABLE.
 		for _, table := range schema.Tables {
+			if table.Ignore {
+				continue
+			}
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
@@ -561,6 +567,9 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 		}
 		// DROP PROCEDURE and DROP FUNCTION.
 		for _, routine := range schema.Routines {
+			if routine.Ignore {
+				continue
+			}
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
-- 
2.43.0


From b1b283ab703a75b3003084372a38d800bcd1001f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:34:28 +0000
Subject: [PATCH 148/152] fix: do not create the current MySQL schema, whose
 undo would drop it

---
 ddl/mysql_migration.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ddl/mysql_migration.go b/ddl/mysql_migration.go
index 62fd87f..efa70c5 100644
--- a/ddl/mysql_migration.go
+++ b/ddl/mysql_migration.go
@@ -72,8 +72,9 @@ func newMySQLMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) mysql
 		}
 		srcSchema := srcCache.GetSchema(srcCatalog, destSchema.SchemaName)
 		if srcSchema == nil {
-			// CREATE SCHEMA.
-			if destSchema.SchemaName != "" {
+			// CREATE SCHEMA. The current schema always exists, even if there are
+			// no tables in it (it must not be dropped by the undo file).
+			if destSchema.SchemaName != "" && destSchema.SchemaName != srcCatalog.CurrentSchema {
 				m.createSchemas = append(m.createSchemas, destSchema.SchemaName)
 			}
 			for j := range destSchema.Tables {
-- 
2.43.0


From 56b85cc78096556cc88698441760c53ab9abeddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:34:41 +0000
Subject: [PATCH 149/152] fix: do not generate structs for ignored tables and
 views

---
 ddl/table_structs.go | 6 ++++++
 ddl/view_structs.go  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/ddl/table_structs.go b/ddl/table_structs.go
index 65a9331..90554b1 100644
--- a/ddl/table_structs.go
+++ b/ddl/table_structs.go
@@ -73,7 +73,13 @@ func (s *TableStructs) ReadCatalog(catalog *Catalog) error {
 	defer bufpool.Put(buf)
 	structNames := make(map[string]bool)
 	for _, schema := range catalog.Schemas {
+		if schema.Ignore {
+			continue
+		}
 		for _, table := range schema.Tables {
+			if table.Ignore {
+				continue
+			}
 			tableStruct := TableStruct{
 				Name:   goIdentifier(table.TableName, structNames),
 				Fields: make([]StructField, 0, len(table.Columns)+1),
diff --git a/ddl/view_structs.go b/ddl/view_structs.go
index d1bbabd..beacd81 100644
--- a/ddl/view_structs.go
+++ b/ddl/view_structs.go
@@ -43,7 +43,13 @@ func NewViewStructs(dialect string, db *sql.DB, filter Filter) (ViewStructs, err
 func (s *ViewStructs) ReadCatalog(catalog *Catalog) error {
 	structNames := make(map[string]bool)
 	for _, schema := range catalog.Schemas {
+		if schema.Ignore {
+			continue
+		}
 		for _, view := range schema.Views {
+			if view.Ignore {
+				continue
+			}
 			viewStruct := ViewStruct{
 				Name:   goIdentifier(view.ViewName, structNames),
 				Fields: make([]StructField, 0, len(view.Columns)+1),
-- 
2.43.0


From 524860728229d0ffae434634ca944af40cfe55e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:02:26 +0000
Subject: [PATCH 150/152] fix: do not use the text of a failed batch insert as
 a format string

---
 ddl/batch_insert.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ddl/batch_insert.go b/ddl/batch_insert.go
index 2dd117e..38bcecc 100644
--- a/ddl/batch_insert.go
+++ b/ddl/batch_insert.go
@@ -348,14 +348,14 @@ func (bi *BatchInsert) ExecContext(ctx context.Context, db DB, next func([]any)
 				if updateErr != nil {
 					query, err := Sprintf(bi.Dialect, updateStart+middle+updateEnd, args)
 					if err == nil {
-						return rowsAffected, fmt.Errorf("%w\n"+query, updateErr)
+						return rowsAffected, fmt.Errorf("%w\n%s", updateErr, query)
 					}
 					return rowsAffected, updateErr
 				}
 				n, updateErr := result.RowsAffected()
 				if updateErr != nil {
 					if query, err2 := Sprintf(bi.Dialect, updateStart+middle+updateEnd, args); err2 != nil {
-						return rowsAffected, fmt.Errorf("%w\n"+query, updateErr)
+						return rowsAffected, fmt.Errorf("%w\n%s", updateErr, query)
 					}
 					return rowsAffected, updateErr
 				}
@@ -365,7 +365,7 @@ func (bi *BatchInsert) ExecContext(ctx context.Context, db DB, next func([]any)
 			if insertErr != nil {
 				query, err := Sprintf(bi.Dialect, insertStart+middle+insertEnd, args)
 				if err == nil {
-					return rowsAffected, fmt.Errorf("%w\n"+query, insertErr)
+					return rowsAffected, fmt.Errorf("%w\n%s", insertErr, query)
 				}
 				return rowsAffected, insertErr
 			}
@@ -389,7 +389,7 @@ func (bi *BatchInsert) ExecContext(ctx context.Context, db DB, next func([]any)
 			if updateErr != nil {
 				query, err := Sprintf(bi.Dialect, updateStart+middle+updateEnd, args)
 				if err == nil {
-					return rowsAffected, fmt.Errorf("%w\n"+query, updateErr)
+					return rowsAffected, fmt.Errorf("%w\n%s", updateErr, query)
 				}
 				return rowsAffected, updateErr
 			}
@@ -403,7 +403,7 @@ func (bi *BatchInsert) ExecContext(ctx context.Context, db DB, next func([]any)
 		if insertErr != nil {
 			query, err := Sprintf(bi.Dialect, insertStart+middle+insertEnd, args)
 			if err == nil {
-				return rowsAffected, fmt.Errorf("%w\n"+query, insertErr)
+				return rowsAffected, fmt.Errorf("%w\n%s", insertErr, query)
 			}
 			return rowsAffected, insertErr
 		}
-- 
2.43.0


From 9e67d3ec0afaaf247ee3d811ae0afd7741ea7f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 05:08:33 +0000
Subject: [PATCH 151/152] fix: treat the synonyms of MySQL and SQL Server
 column types alike

---
 ddl/ddl.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ddl/ddl.go b/ddl/ddl.go
index 216e870..f0a614e 100644
--- a/ddl/ddl.go
+++ b/ddl/ddl.go
@@ -904,6 +904,15 @@ func normalizeColumnType(dialect string, columnType string) (normalizedType, arg
 			// MySQL display width is deprecated
 			// https://dev.mysql.com/doc/refman/8.0/en/numeric-type-attributes.html
 			arg1, arg2 = "", ""
+		case "DOUBLE", "DOUBLEPRECISION", "REAL":
+			// MySQL reports all of them as DOUBLE.
+			normalizedType = "DOUBLE PRECISION"
+		case "FIXED":
+			normalizedType = "NUMERIC"
+		case "CHARACTERVARYING":
+			normalizedType = "VARCHAR"
+		case "CHARACTER":
+			normalizedType = "CHAR"
 		}
 		if isUnsigned {
 			normalizedType += " UNSIGNED"
@@ -922,6 +931,9 @@ func normalizeColumnType(dialect string, columnType string) (normalizedType, arg
 			normalizedType = "CHAR"
 		case "DEC", "DECIMAL":
 			normalizedType = "NUMERIC"
+		case "DOUBLEPRECISION":
+			// SQL Server reports it as FLOAT.
+			normalizedType = "FLOAT"
 		}
 	}
 	if normalizedType == "NUMERIC" && arg1 != "" && arg2 == "" {
-- 
2.43.0


From cce27705c1edc36136cb7660a585644abd0dd3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 05:08:45 +0000
Subject: [PATCH 152/152] fix: recognize unsigned MySQL columns as numbers in
 table structs

---
 ddl/table_structs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ddl/table_structs.go b/ddl/table_structs.go
index 90554b1..363aa3b 100644
--- a/ddl/table_structs.go
+++ b/ddl/table_structs.go
@@ -480,6 +480,7 @@ func getFieldType(dialect string, column *Column) (fieldType string) {
 	if normalizedType == "BINARY" && arg1 == "16" {
 		return "sq.UUIDField"
 	}
+	normalizedType = strings.TrimSuffix(normalizedType, " UNSIGNED")
 	switch normalizedType {
 	case "BYTEA", "BINARY", "VARBINARY", "TINYBLOB", "BLOB", "MEDIUMBLOB", "LONGBLOB", "VARBIT":
 		return "sq.BinaryField"
-- 
2.43.0


#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms, state, observe_at
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, level="exploration", technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  state=state, observe=observe, level=level, technique=technique, note=note))

prop("M01", "Every migration is applied exactly once, in order",
     "Across any history of edits to a migration directory and migrate runs, each ordinary migration file takes effect exactly once, and a run whose migrations are all recorded as successful changes nothing. The migrations pending in a run take effect in filename order (or in the order explicitly requested), always with repeatable migrations after all ordinary ones, and files that are not migrations (undo scripts, dump scripts, other directories, other extensions) never run.",
     ["histories", "inputs"], "for all histories of directory edits, migrate/touch/rm/mv commands and failures, all filenames, all four dialects",
     "a unit test fixes one directory and one or two runs; exactly-once is a statement about every sequence of runs, filename and prior history",
     ["ddl/migrate_cmd.go", "ddl/touch_cmd.go"],
     [("history lookup and pending computation", "ddl/migrate_cmd.go:Run"), ("directory walk and ordering", "ddl/touch_cmd.go:walkDir"), ("filtering and repeatable-last ordering", "ddl/touch_cmd.go:sortAndFilterFilenames")],
     [("history table", "one row per migration with its outcome", "ddl/touch_cmd.go:ensureHistoryTableExists")],
     ["rows inserted by the migration scripts", "history table rows", "driver calls"],
     technique="model-based runtime monitor over random histories: the real commands run on SQLite (and on emulated Postgres/MySQL/SQL Server servers) through a recording driver, and effects, order and history are compared with an executable model after every step")

prop("M02", "Migration effects and history commit together at every fault point",
     "Whatever goes wrong during migrate - a failing statement, a driver error, a lost connection, a cancelled context or a killed process at any point - each transactional group of migrations is applied entirely or not at all, and a migration is recorded as successful if and only if its effects are in the database. No group is applied after an earlier one failed, and running migrate again afterwards applies everything that was still pending exactly once.",
     ["crash_points", "fault_sequences", "histories"], "for every driver call of a run, for faults before/after the call, bad connections, cancellations and SIGKILL, over random directories and prior histories",
     "tests never fail or kill the process between two particular driver calls; the guarantee is about all of those points",
     ["ddl/migrate_cmd.go", "ddl/batch_insert.go"],
     [("group execution inside one transaction", "ddl/migrate_cmd.go:run"), ("history upsert in the same transaction", "ddl/migrate_cmd.go:run"), ("failed rows recorded after rollback", "ddl/migrate_cmd.go:runWithRetry")],
     [("history table", "recorded outcome of each migration", "ddl/touch_cmd.go:ensureHistoryTableExists")],
     ["database contents after the fault", "history table rows", "contents after a clean rerun"],
     level="fault_enumeration",
     technique="runtime fault and crash injection at every driver call (errors before/after, bad connection, context cancel, SIGKILL of a child process), with an offline invariant checker over effects and history plus a recovery run")

prop("M03", "Transaction scope follows the file name",
     "Consecutive pending ordinary migrations run inside one shared transaction; a .tx.sql migration runs in a transaction of its own and a .txoff.sql migration runs outside any transaction; on MySQL every migration runs on its own outside a transaction unless it is named .tx.sql. A migration's success is recorded inside the same transaction that ran it.",
     ["inputs", "configurations", "histories"], "for all combinations of file names, pending sets, dialects and retries",
     "golden tests look at final state only; the transaction a statement ran in is visible only by watching the driver boundary",
     ["ddl/migrate_cmd.go"],
     [("queue flushing at .tx.sql/.txoff.sql boundaries", "ddl/migrate_cmd.go:Run"), ("choice of transaction", "ddl/migrate_cmd.go:run")],
     None, ["begin/commit/rollback and statement events at the driver boundary"],
     technique="trace monitor at the database/sql driver boundary: every script execution and history write is tagged with its transaction and checked against the scoping rules")

prop("M04", "Failures are reported, undone and retried as documented",
     "When a migration fails the command returns an error naming that file, nothing after it runs, the migrations attempted in that group are recorded as failed and are attempted again by the next run. A failed non-transactional migration has its undo script run exactly once, a transactional one never does. A lock timeout is retried only for transactional or single-statement migrations, never more than the configured number of attempts, and leaves no trace of the abandoned attempts.",
     ["fault_sequences", "histories", "inputs"], "for all failing positions, undo scripts, numbers of lock timeouts and attempt limits, in all four dialects",
     "lock timeouts and failures at particular statements need fault injection; tests cover one failing script",
     ["ddl/migrate_cmd.go"],
     [("retry loop", "ddl/migrate_cmd.go:runWithRetry"), ("undo", "ddl/migrate_cmd.go:undo"), ("error construction", "ddl/migrate_cmd.go:run")],
     [("history table", "failed migrations have success = false", "ddl/migrate_cmd.go:runWithRetry")],
     ["returned error", "script executions at the driver boundary", "history rows"],
     level="fault_enumeration",
     technique="model-based monitor with injected script failures, deferred-constraint commit failures and lock timeouts (systematic grid of timeouts x attempt limits x script kinds x dialects, plus random histories)")

prop("M05", "Repeatable migrations rerun exactly when their content changes",
     "A repeatable migration runs if and only if it has never succeeded or its content differs from the content last recorded as successful; a change of line endings between LF and CRLF is not a change. After it ran, the recorded checksum is that of the content that ran, and ls reports it as pending exactly when migrate would run it.",
     ["histories", "inputs"], "for all edit/run/touch/rm/mv histories, all contents and line endings",
     "whether a run happens depends on the whole edit history, which tests sample with one edit",
     ["ddl/migrate_cmd.go", "ddl/touch_cmd.go", "ddl/ls_cmd.go"],
     [("checksum comparison", "ddl/migrate_cmd.go:Run"), ("checksum in touch", "ddl/touch_cmd.go:Run"), ("status in ls", "ddl/ls_cmd.go:Run")],
     [("checksum", "SHA256 of the LF-normalised content", "history table")],
     ["script executions", "history rows", "ls output"],
     technique="model-based runtime monitor over random edit/run histories of repeatable migrations")

prop("M06", "History commands agree with the history and with migrate",
     "touch records exactly the named (or all) migrations as successful without running them, rm removes exactly the named records, mv renames exactly one record, and each reports an error when the database refuses; they touch nothing else. ls lists every migration of the directory once, in run order, as pending, applied or failed, and recorded migrations without a file as missing, in agreement with what migrate would do.",
     ["histories", "inputs"], "for all command histories, all filenames and history table names including quotes and keywords",
     "agreement between five commands over arbitrary histories and names cannot be sampled by fixed examples",
     ["ddl/touch_cmd.go", "ddl/rm_cmd.go", "ddl/mv_cmd.go", "ddl/ls_cmd.go"],
     [("touch upsert", "ddl/touch_cmd.go:Run"), ("rm", "ddl/rm_cmd.go:Run"), ("mv", "ddl/mv_cmd.go:Run"), ("ls", "ddl/ls_cmd.go:Run")],
     [("history table", "filename, checksum, outcome", "ddl/touch_cmd.go:ensureHistoryTableExists")],
     ["history rows", "ls output", "returned errors"],
     technique="model-based runtime monitor comparing the history table and ls output with an executable model after every command of random histories")

exec(open(os.path.join(ROOT, "tools", "spec_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "spec_more.py")) else None

NOT_CLAIMED = globals().get("NOT_CLAIMED", {})

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    checks = []
    for p in P:
        if p["id"] in NOT_CLAIMED:
            continue
        checks.append({"property": p["id"], "quick_cmd": "bash /verif/run.sh %s quick" % p["id"],
                       "thorough_cmd": "bash /verif/run.sh %s thorough" % p["id"],
                       "evidence_file": "/verif/evidence/%s.json" % p["id"],
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"] or
                       "observes real executions chosen by a fixed seed; a pass covers the executions counted in the evidence file"})
    manifest = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
                "hooks": {"guard": "none", "enable": "no hooks in /repo are needed: the monitors sit at the database/sql driver boundary and at the public API", "source_commits": []},
                "checks": checks,
                "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_CLAIMED.items())],
                "notes": "every check builds /verif/harness against /repo's working tree and is deterministic for a given VERIF_SEED"}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")

main()

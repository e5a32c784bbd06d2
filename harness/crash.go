package main

// Crash points: a child process runs a command and kills itself with SIGKILL
// right before or right after the n-th driver call.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"syscall"
	"testing/fstest"
	"time"

	"github.com/bokwoon95/sqddl/ddl"
)

type crashSpec struct {
	Cmd     string            `json:"cmd"`
	Dialect string            `json:"dialect"`
	DSN     string            `json:"dsn"`
	Table   string            `json:"table"`
	Files   map[string]string `json:"files"`
	At      int               `json:"at"`
	After   bool              `json:"after"`
	Names   []string          `json:"names"`
	Batch   int               `json:"batch"`
}

func mapFS(files map[string]string) fstest.MapFS {
	m := fstest.MapFS{}
	for n, c := range files {
		m[n] = &fstest.MapFile{Data: []byte(c), Mode: 0644, ModTime: time.Unix(1, 0)}
	}
	return m
}

func crashChildMain(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		os.Exit(5)
	}
	var spec crashSpec
	if err := json.Unmarshal(b, &spec); err != nil {
		os.Exit(5)
	}
	mon := &Monitor{InitSQL: []string{"PRAGMA synchronous = OFF"}}
	if spec.Dialect != "sqlite" {
		mon.Emu = newEmu(spec.Dialect)
	}
	die := func() { syscall.Kill(os.Getpid(), syscall.SIGKILL); select {} }
	mon.Before = func(ev *Event) error {
		if !spec.After && ev.Seq == spec.At {
			die()
		}
		return nil
	}
	mon.AfterOp = func(ev *Event) error {
		if spec.After && ev.Seq == spec.At {
			die()
		}
		return nil
	}
	db := openMonitored(spec.DSN, mon)
	var buf bytes.Buffer
	switch spec.Cmd {
	case "migrate":
		err = (&ddl.MigrateCmd{DB: db, Dialect: spec.Dialect, DirFS: mapFS(spec.Files), Filenames: spec.Names, Stderr: &buf, HistoryTable: spec.Table}).Run()
	case "load":
		err = (&ddl.LoadCmd{DB: db, Dialect: spec.Dialect, DirFS: mapFS(spec.Files), Filenames: spec.Names, Stderr: &buf, HistoryTable: spec.Table, Batchsize: spec.Batch}).Run()
	case "wipe":
		err = (&ddl.WipeCmd{DB: db, Dialect: spec.Dialect, Stdout: &buf}).Run()
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	os.Exit(0)
}

// runCrashChild returns true if the child died at the crash point and false
// if it ran to completion.
func runCrashChild(t *T, spec crashSpec) bool {
	self, err := os.Executable()
	must(err)
	b, err := json.Marshal(spec)
	must(err)
	path := t.Dir() + "/spec.json"
	must(os.WriteFile(path, b, 0644))
	cmd := exec.Command(self, "crashchild", path)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	err = cmd.Run()
	if err == nil {
		return false
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			return true
		}
		if ee.ExitCode() == 4 {
			return false
		}
	}
	panic(harnessError("crash child: " + err.Error() + " " + stderr.String()))
}

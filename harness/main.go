package main

import (
	"fmt"
	"os"
	"sort"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh check|worker|list")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "check":
		checkMain(os.Args[2:])
	case "worker":
		workerMain(os.Args[2:])
	case "crashchild":
		crashChildMain(os.Args[2:])
	case "api":
		apiMain()
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	default:
		os.Exit(3)
	}
}

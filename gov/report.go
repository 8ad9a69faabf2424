package main

import (
	"encoding/json"
	"os"
	"path/filepath"
)

type failure struct {
	Contract, Name, Pos, Status, Solver, Goal, Path, Model string
	ID                                                     int
}

type contractInfo struct {
	Name, Target, Doc string
	Props             []string
	Obligations       int
	Paths             int
	Ms                int64
	Err               string
}

type report struct {
	Property    string
	Tier        string
	Contracts   []contractInfo
	Obligations int
	Discharged  int
	Duplicates  int
	Requires    int
	ByBackend   map[string]int
	SolverMs    int64
	LoadMs      int64
	ExecMs      int64
	WallMs      int64
	Untried     int
	Failed      []failure
	Inlined     []string
	Assumed     []string
	Used        []string
	Dropped     []string
}

func (r *report) write(dir string) {
	if dir == "" {
		return
	}
	ensureDir(dir)
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(filepath.Join(dir, "report.json"), b, 0644)
}

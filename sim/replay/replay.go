// Package replay holds what the worker and the driver exchange.
package replay

import (
	"encoding/json"
	"os"
)

// File is a replay file: the recorded choices of one run and what it showed.
type File struct {
	Prop    string   `json:"property"`
	Kind    string   `json:"kind"`
	Msg     string   `json:"violation"`
	Seed    uint64   `json:"seed"`
	Profile string   `json:"profile"`
	HasRec  bool     `json:"recorded"`
	Plan    []uint32 `json:"plan"`
	Sched   []uint32 `json:"schedule"`
	Steps   int      `json:"steps"`
	Hash    string   `json:"hash"`
	Desc    string   `json:"run"`
	Shrunk  string   `json:"minimised,omitempty"`
	Trace   []string `json:"trace,omitempty"`

	Seen []Violation `json:"-"`
}

type Violation struct {
	Prop string `json:"prop"`
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

// Line is the outcome of one run.
type Line struct {
	Seed       uint64
	Hash       uint64
	Switch     uint64
	Steps      int
	Yields     int
	Sim        float64
	Faults     map[string]int `json:",omitempty"`
	Probes     map[string]int `json:",omitempty"`
	Evals      map[string]int `json:",omitempty"`
	Violations []Violation    `json:",omitempty"`
	Desc       string
	Stuck      []string `json:",omitempty"`
	Twice      bool     `json:",omitempty"`
	Same       bool     `json:",omitempty"`
}

func Read(name string) (*File, error) {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	f := new(File)
	return f, json.Unmarshal(b, f)
}

func (f *File) Write(name string) error {
	b, err := json.MarshalIndent(f, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(name, append(b, '\n'), 0o644)
}

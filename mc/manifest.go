package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
)

// notApplicable are properties this family of technique cannot decide here.
var notApplicable = map[string]string{}

// manifest writes MANIFEST.json from the registered checks.
func manifest() {
	b, _ := os.ReadFile(filepath.Join(verifDir(), "properties.jsonl"))
	var cs, na []any
	for _, l := range strings.Split(string(b), "\n") {
		var p struct{ ID string }
		if json.Unmarshal([]byte(l), &p) != nil || p.ID == "" {
			continue
		}
		d, ok := checks[p.ID]
		if !ok {
			r := notApplicable[p.ID]
			if r == "" {
				r = "its check is not built yet"
			}
			na = append(na, map[string]any{"property": p.ID, "reason": r})
			continue
		}
		lv := d.level
		if lv == "" {
			lv = "model_checking"
		}
		t := d.tech
		if t == "" {
			t = "stateless model checking of the real program: exhaustive enumeration of executions within stated bounds"
		}
		n := d.note
		if n == "" {
			n = "every execution within the bounds in the evidence file was run on the program built from the working tree; beyond them nothing is claimed; R, the network and the clock are virtual"
		}
		cs = append(cs, map[string]any{"property": p.ID, "quick_cmd": "sh run.sh " + p.ID + " quick", "thorough_cmd": "sh run.sh " + p.ID + " thorough", "technique": t, "level": lv, "level_note": n})
	}
	if na == nil {
		na = []any{}
	}
	m := map[string]any{"version": 1, "setup_cmd": "sh setup.sh", "checks": cs, "not_applicable": na,
		"notes": "The instrumented binary is built from /repo's working tree with 'go build -overlay': the overlay replaces standard-library files (scheduler, channels, mutexes, system calls, process start, HTTP client) and adds one package; /repo itself carries no hooks."}
	o, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(filepath.Join(verifDir(), "MANIFEST.json"), append(o, '\n'), 0644)
}

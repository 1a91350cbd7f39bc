package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// rules maps a property to the rules that decide it.
var rules = map[string]func(*Check){}

func main() {
	root := os.Getenv("VERIF_REPO")
	if root == "" {
		root = "/repo"
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	start := time.Now()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(6 << 30)
	if f := os.Getenv("CHK_PROF"); f != "" {
		out, _ := os.Create(f)
		pprof.StartCPUProfile(out)
		go func() {
			time.Sleep(30 * time.Second)
			pprof.StopCPUProfile()
			os.Exit(3)
		}()
	}
	w, err := Load(root)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	args := os.Args[1:]
	if len(args) > 0 && args[0] == "trace" {
		debugTrace(w, args[1:])
		return
	}
	if len(args) > 0 && args[0] == "ways" {
		debugWays(w, args[1], 4000)
		return
	}
	if len(args) > 0 && args[0] == "dbg" {
		debugAnalyse(w, args[1:])
		return
	}
	tier := "quick"
	var props []string
	for _, a := range args {
		switch {
		case a == "--thorough":
			tier = "thorough"
		case a == "all":
			for k := range rules {
				props = append(props, k)
			}
			sort.Strings(props)
		default:
			props = append(props, a)
		}
	}
	if len(props) == 0 {
		fmt.Fprintln(os.Stderr, "usage: checker PROPERTY... [--thorough]")
		os.Exit(2)
	}
	known := loadKnown(filepath.Join(verif, "known_findings.txt"))
	bad := false
	for _, p := range props {
		f, ok := rules[p]
		if !ok {
			fmt.Fprintln(os.Stderr, "no rules for", p)
			os.Exit(2)
		}
		t := time.Now()
		if len(props) == 1 {
			t = start
		}
		c := newCheck(w, p, tier)
		w.deadline = t.Add(8 * time.Minute)
		f(c)
		if c.report(verif, known, time.Since(t)) {
			bad = true
		}
	}
	if bad {
		os.Exit(1)
	}
}

type knownFinding struct{ prop, text string }

// loadKnown reads the known findings: "finding: property=<id> key=<rule @ construct> | <text>".
func loadKnown(path string) map[string]knownFinding {
	m := map[string]knownFinding{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		prop, rest, ok := strings.Cut(l, " key=")
		if !ok {
			continue
		}
		key, text, _ := strings.Cut(rest, " | ")
		m[prop+"/"+strings.TrimSpace(key)] = knownFinding{prop, text}
	}
	return m
}

func (c *Check) report(verif string, known map[string]knownFinding, d time.Duration) bool {
	var viols []map[string]string
	bad := false
	text := ""
	for _, k := range c.order {
		if f, ok := known[c.prop+"/"+k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, f.text)
			continue
		}
		bad = true
		fmt.Printf("VIOLATION property=%s replay=%s\n    %s: %s\n", c.prop, filepath.Join(verif, "evidence", c.prop+".violations.txt"), k, c.viol[k])
		text += k + "\n    " + c.viol[k] + "\n"
		viols = append(viols, map[string]string{"rule": k, "detail": c.viol[k]})
	}
	var names []string
	for k := range c.count {
		names = append(names, k)
	}
	sort.Strings(names)
	counts := map[string]int{}
	var lines []string
	for _, k := range names {
		counts[k] = c.count[k]
		lines = append(lines, fmt.Sprintf("%s: %d", k, c.count[k]))
	}
	fmt.Printf("%s: %d violations; %s (%v)\n", c.prop, len(viols), strings.Join(lines, ", "), d.Round(time.Millisecond))
	for _, n := range sortedSet(c.notes) {
		fmt.Println("    note:", n)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	writeEvidence(verif, c, seed, counts, viols, d)
	vf := filepath.Join(verif, "evidence", c.prop+".violations.txt")
	if bad {
		os.WriteFile(vf, []byte(text), 0o644)
	} else {
		os.Remove(vf)
	}
	return bad
}

func writeEvidence(verif string, c *Check, seed int, counts map[string]int, viols []map[string]string, d time.Duration) {
	ev := evidence(c, seed, counts, viols, d)
	b, _ := json.MarshalIndent(ev, "", "  ")
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
}

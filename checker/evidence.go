package main

import (
	"time"
)

type ruleInfo struct {
	level  string
	what   string // what the rules decide
	assume []string
}

var infos = map[string]ruleInfo{}

// rule registers the rules of a property.
func rule(prop, what string, f func(*Check), assume ...string) {
	rules[prop] = f
	infos[prop] = ruleInfo{level: "other", what: what, assume: assume}
}

var commonAssumptions = []string{
	"the models of the standard library in checker/model.go",
	"the partitioned abstract interpreter of checker/exec.go: joins, widening and linear inequalities over go/ssa of the current tree; where its budget ends or a value is unknown, the rule stays silent and the note says so",
}

func evidence(c *Check, seed int, counts map[string]int, viols []map[string]string, d time.Duration) map[string]any {
	in := infos[c.prop]
	cov := map[string]any{
		"explanation": in.what,
		"analysed":    counts,
		"notes":       sortedSet(c.notes),
	}
	if len(viols) > 0 {
		cov["violations"] = viols
	}
	return map[string]any{
		"property":    c.prop,
		"tier":        c.tier,
		"seed":        seed,
		"level":       in.level,
		"coverage":    cov,
		"assumptions": append(append([]string(nil), in.assume...), commonAssumptions...),
		"wall_s":      d.Seconds(),
		"violations":  len(viols),
	}
}

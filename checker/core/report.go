package core

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Finding is one violated, undecided or discharged obligation.
type Finding struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"` // function, file or call site
	Pos       string `json:"pos,omitempty"`
	Detail    string `json:"detail,omitempty"`
	Status    string `json:"status"` // "violated", "undecided"
}

// Report collects what one check did.
type Report struct {
	Prop       string
	Findings   []Finding
	Discharged map[string]int
	Samples    []string
	Analysed   map[string]int
	Rules      map[string]string
	Notes      []string
}

// NewReport makes an empty report.
func NewReport(prop string) *Report {
	return &Report{Prop: prop, Discharged: map[string]int{}, Analysed: map[string]int{}, Rules: map[string]string{}}
}

// Merge adds what another report found.
func (r *Report) Merge(o *Report) {
	r.Findings = append(r.Findings, o.Findings...)
	for k, n := range o.Discharged {
		r.Discharged[k] += n
	}
	for _, s := range o.Samples {
		if len(r.Samples) < 60 {
			r.Samples = append(r.Samples, s)
		}
	}
	for k, n := range o.Analysed {
		r.Analysed[k] += n
	}
	for k, t := range o.Rules {
		r.Rules[k] = t
	}
	r.Notes = append(r.Notes, o.Notes...)
}

// Rule describes a rule.
func (r *Report) Rule(name, text string) { r.Rules[name] = text }

// OK notes a discharged obligation.
func (r *Report) OK(rule, construct string) {
	r.Discharged[rule]++
	if len(r.Samples) < 60 {
		r.Samples = append(r.Samples, rule+": "+construct)
	}
}

// Bad notes a violated obligation.
func (r *Report) Bad(rule, construct, pos, format string, a ...any) {
	r.add(Finding{rule, construct, pos, fmt.Sprintf(format, a...), "violated"})
}

// Undecided notes an obligation that the analysis could not decide.
func (r *Report) Undecided(rule, construct, pos, format string, a ...any) {
	r.add(Finding{rule, construct, pos, fmt.Sprintf(format, a...), "undecided"})
}

func (r *Report) add(f Finding) {
	for _, g := range r.Findings {
		if g == f {
			return
		}
	}
	r.Findings = append(r.Findings, f)
}

// Check records one obligation that either holds or does not.
func (r *Report) Check(ok bool, rule, construct, pos, format string, a ...any) bool {
	if ok {
		r.OK(rule, construct)
	} else {
		r.Bad(rule, construct, pos, format, a...)
	}
	return ok
}

// Count adds to what was analysed.
func (r *Report) Count(what string, n int) { r.Analysed[what] += n }

// Known is the list of known findings: property -> "rule|construct" -> text.
type Known map[string]map[string]string

// LoadKnown reads the known findings: lines "known: property=ID rule=RULE construct=CONSTRUCT :: text".
func LoadKnown(file string) Known {
	k := Known{}
	b, err := os.ReadFile(file)
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "known: "), " :: ")
		m := map[string]string{}
		for _, f := range strings.Fields(head) {
			a, b, _ := strings.Cut(f, "=")
			m[a] = b
		}
		if k[m["property"]] == nil {
			k[m["property"]] = map[string]string{}
		}
		k[m["property"]][m["rule"]+"|"+m["construct"]] = text
	}
	return k
}

// Finish prints the outcome, writes the evidence and returns the exit status.
func (r *Report) Finish(verif string, tier string, seed int, start time.Time, explanation string, assumptions []string) int {
	known := LoadKnown(filepath.Join(verif, "known_findings"))[r.Prop]
	sort.SliceStable(r.Findings, func(i, j int) bool { return r.Findings[i].Rule < r.Findings[j].Rule })
	bad := 0
	var list []Finding
	for _, f := range r.Findings {
		if t, ok := known[f.Rule+"|"+strings.ReplaceAll(f.Construct, " ", "_")]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, t)
			continue
		}
		bad++
		list = append(list, f)
	}
	total := bad
	for _, n := range r.Discharged {
		total += n
	}
	if total == 0 {
		list = append(list, Finding{Rule: "coverage", Construct: r.Prop, Detail: "the check found nothing to decide", Status: "undecided"})
		bad++
	}
	disch := 0
	for _, n := range r.Discharged {
		disch += n
	}
	cov := map[string]any{
		"explanation":         explanation,
		"rules":               r.Rules,
		"discharged_by_rule":  r.Discharged,
		"obligations":         disch + bad,
		"discharged":          disch,
		"analysed":            r.Analysed,
		"samples":             r.Samples,
		"findings":            list,
		"known_findings_seen": len(r.Findings) - bad,
	}
	if len(r.Notes) > 0 {
		cov["notes"] = r.Notes
	}
	ev := map[string]any{"property": r.Prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": bad}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	file := filepath.Join(dir, r.Prop+".json")
	if err := os.WriteFile(file, append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	for _, f := range list {
		fmt.Printf("%s %s [%s] %s %s: %s\n", r.Prop, f.Status, f.Rule, f.Construct, f.Pos, f.Detail)
	}
	if bad > 0 {
		fmt.Printf("VIOLATION property=%s replay=evidence/%s.json\n", r.Prop, r.Prop)
		return 1
	}
	fmt.Printf("%s: %d obligations discharged\n", r.Prop, disch)
	return 0
}

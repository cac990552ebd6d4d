package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Finding is one violated or undecided rule instance. Its key names rule and
// construct, not a line, so that it survives unrelated edits.
type Finding struct {
	Key  string `json:"key"`
	Pos  string `json:"pos"`
	Text string `json:"text"`
}

// Report is what a check found out.
type Report struct {
	mu          sync.Mutex
	ID          string
	Level       string
	Explanation string
	Trusted     []string
	Assumptions []string
	Obligations int
	Discharged  int
	Findings    []Finding
	Counts      map[string]int
	Samples     []interface{}
	Info        map[string]interface{}
	min         map[string]int
}

func newReport(id string) *Report {
	return &Report{ID: id, Level: "other", Counts: map[string]int{}, Info: map[string]interface{}{}, min: map[string]int{}}
}

// ok records a discharged rule instance.
func (r *Report) ok(kind string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Obligations++
	r.Discharged++
	r.Counts[kind]++
}

// bad records a violated rule instance.
func (r *Report) bad(kind, key, pos, f string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Obligations++
	r.Counts[kind]++
	r.add(Finding{kind + ":" + key, pos, fmt.Sprintf(f, a...)})
}

func (r *Report) check(ok bool, kind, key, pos, f string, a ...interface{}) bool {
	if ok {
		r.ok(kind)
	} else {
		r.bad(kind, key, pos, f, a...)
	}
	return ok
}

func (r *Report) add(f Finding) {
	for _, x := range r.Findings {
		if x.Key == f.Key && x.Text == f.Text {
			return
		}
	}
	r.Findings = append(r.Findings, f)
}

// undecided records that the analysis could not decide something; that counts
// as a violation.
func (r *Report) undecided(key, f string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.add(Finding{"undecided:" + key, "", "undecided: " + fmt.Sprintf(f, a...)})
}

// merge takes over the instances of some rules from another report.
func (r *Report) merge(s *Report, kinds ...string) {
	for _, k := range kinds {
		bad := 0
		for _, f := range s.Findings {
			if strings.HasPrefix(f.Key, k+":") || strings.HasPrefix(f.Key, "undecided:"+k) {
				r.mu.Lock()
				r.add(f)
				r.mu.Unlock()
				bad++
			}
		}
		r.Counts[k] += s.Counts[k]
		r.Obligations += s.Counts[k]
		if n := s.Counts[k] - bad; n > 0 {
			r.Discharged += n
		}
	}
}

// atLeast guards against rules that match nothing.
func (r *Report) atLeast(kind string, n int) { r.min[kind] = n }

func (r *Report) sample(v interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, v)
	}
}

func verifDir() string {
	if d := os.Getenv("SRL_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// knownFindings are the keys recorded for a property.
func knownFindings(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=<id> key=<key> :: text
		if !strings.HasPrefix(l, "finding: property="+id+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+id+" key=")
		k, t, _ := strings.Cut(l, " :: ")
		m[strings.TrimSpace(k)] = t
	}
	return m
}

// finish prints the verdict, writes the evidence and returns the exit status.
func (r *Report) finish(t0 time.Time) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	for k, n := range r.min {
		if r.Counts[k] < n {
			r.add(Finding{"vacuous:" + k, "", fmt.Sprintf("rule %q matched %d instances, at least %d were expected: its anchors are gone", k, r.Counts[k], n)})
		}
	}
	if r.Obligations == 0 && len(r.Findings) == 0 {
		r.add(Finding{"vacuous:all", "", "nothing was analysed"})
	}
	sort.SliceStable(r.Findings, func(i, j int) bool { return r.Findings[i].Key < r.Findings[j].Key })
	known := knownFindings(r.ID)
	var viol []Finding
	var kf []string
	for _, f := range r.Findings {
		if t, ok := known[f.Key]; ok {
			kf = append(kf, t)
			continue
		}
		viol = append(viol, f)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"explanation": r.Explanation,
		"obligations": r.Obligations,
		"discharged":  r.Discharged,
		"rules":       r.Counts,
		"checker_cmd": "sh /verif/check.sh " + r.ID,
		"trusted_base": append([]string{
			"the analyzer in /verif/analyzer", "golang.org/x/tools go/packages and go/ssa", "the Go type checker"}, r.Trusted...),
	}
	if len(r.Samples) > 0 {
		cov["samples"] = r.Samples
	}
	for k, v := range r.Info {
		cov[k] = v
	}
	if len(kf) > 0 {
		cov["known_findings"] = kf
	}
	if len(viol) > 0 {
		cov["violations"] = viol
	}
	ev := map[string]interface{}{
		"property": r.ID, "tier": tier, "seed": seed, "level": r.Level, "coverage": cov,
		"assumptions": append([]string{}, r.Assumptions...),
		"wall_s":      time.Since(t0).Seconds(), "violations": len(viol),
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	if b, err := json.MarshalIndent(ev, "", " "); err == nil {
		os.WriteFile(filepath.Join(dir, r.ID+".json"), append(b, '\n'), 0o644)
	}
	for _, k := range kf {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, k)
	}
	fmt.Printf("%s: %d rule instances, %d discharged, %d findings (%.1fs)\n", r.ID, r.Obligations, r.Discharged, len(viol), time.Since(t0).Seconds())
	if len(viol) == 0 {
		return 0
	}
	var b strings.Builder
	for i, f := range viol {
		line := fmt.Sprintf("%s: [%s] %s", f.Pos, f.Key, f.Text)
		b.WriteString(line + "\n")
		if i < 20 {
			fmt.Println("  " + line)
		}
	}
	rp := filepath.Join(dir, r.ID+".violation.txt")
	os.WriteFile(rp, []byte(b.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, rp)
	return 1
}

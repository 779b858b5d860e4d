package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type proc struct {
	id    int
	race  bool
	cmd   *exec.Cmd
	in    io.WriteCloser
	rep   chan report
	busy  bool
	cur   *task
	beat  uint64
	since time.Time
	tail  *tailBuf
	dead  bool
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 { // keep the beginning: that is where Go says why it died
		t.b = t.b[:1<<16]
	}
	return len(p), nil
}

type event struct {
	p   *proc
	rep report
	eof bool
}

type coord struct {
	prop      string
	thorough  bool
	scns      []*Scn
	sh        *shared
	shm       string
	bins      map[bool]string
	procs     map[bool][]*proc
	queue     []*task
	events    chan event
	deadline  time.Time
	agg       []*scnAgg
	viols     []replayFile
	violScn   map[int]int
	unconf    int
	out       string
	engineErr []string
	samples   []interface{}
}

type scnAgg struct {
	st      [2]stats // plain, race
	open    int
	pass    int
	done    []string
	partial bool
	wall    time.Time
}

func tierName(t bool) string {
	if t {
		return "thorough"
	}
	return "quick"
}

func (c *coord) spawn(race bool, id int) *proc {
	p := &proc{id: id, race: race, tail: &tailBuf{}, rep: make(chan report, 16)}
	args := []string{"worker", c.prop, "--tier", tierName(c.thorough), "--id", strconv.Itoa(id), "--shm", c.shm, "--deadline", strconv.FormatInt(c.deadline.UnixNano(), 10)}
	p.cmd = exec.Command(c.bins[race], args...)
	p.cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=all", "GORACE=halt_on_error=0 history_size=2 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0")
	dir := filepath.Join(filepath.Dir(c.shm), fmt.Sprintf("cwd-%v-%d", race, id))
	os.MkdirAll(dir, 0o755)
	p.cmd.Dir = dir
	p.cmd.Stderr = p.tail
	if os.Getenv("VMC_DEBUG") != "" {
		p.cmd.Stderr = os.Stderr
	}
	in, _ := p.cmd.StdinPipe()
	out, _ := p.cmd.StdoutPipe()
	p.in = in
	if err := p.cmd.Start(); err != nil {
		fmt.Println("cannot start worker:", err)
		os.Exit(3)
	}
	go func() {
		d := json.NewDecoder(bufio.NewReaderSize(out, 1<<16))
		for {
			var r report
			if err := d.Decode(&r); err != nil {
				p.cmd.Wait()
				c.events <- event{p: p, eof: true}
				return
			}
			c.events <- event{p: p, rep: r}
		}
	}()
	return p
}

// pass is one complete exploration of a scenario.
type passID struct {
	race  bool
	bound int
}

func passes(s *Scn) []passID {
	var r []passID
	if s.Bulk != nil {
		r = append(r, passID{false, 0})
		if s.BulkRace {
			r = append(r, passID{true, 0})
		}
		return r
	}
	for _, b := range s.Bounds {
		r = append(r, passID{false, b})
	}
	for _, b := range s.RaceBounds {
		r = append(r, passID{true, b})
	}
	return r
}

func check(prop string) int {
	start := time.Now()
	thorough := arg("tier", os.Getenv("VERIF_TIER")) == "thorough"
	limit := 150 * time.Second
	if thorough {
		limit = 780 * time.Second
	}
	if s := arg("limit", ""); s != "" {
		limit, _ = time.ParseDuration(s)
	}
	if registry[prop] == nil {
		fmt.Println("no check for", prop)
		return 2
	}
	c := &coord{prop: prop, thorough: thorough, events: make(chan event, 256), violScn: map[int]int{}, out: arg("out", "/verif/evidence"),
		procs: map[bool][]*proc{}, bins: map[bool]string{false: os.Args[0], true: arg("race", "")}}
	c.bins[false], _ = filepath.Abs(os.Args[0])
	scratch, err := os.MkdirTemp(arg("scratch", ""), "vmc")
	if err != nil {
		fmt.Println(err)
		return 3
	}
	defer os.RemoveAll(scratch)
	c.shm = filepath.Join(scratch, "shm")
	c.sh = mapShared(c.shm)
	c.deadline = start.Add(limit)
	only := arg("only", "")
	for _, s := range registry[prop](thorough) {
		c.scns = append(c.scns, s)
		a := &scnAgg{}
		c.agg = append(c.agg, a)
		if only != "" && !strings.Contains(s.Name, only) {
			a.pass = len(passes(s))
		}
	}
	nw := 8
	raceReady := make(chan string, 1)
	raceWait := false
	needRace := false
	for i, s := range c.scns {
		for _, p := range passes(s)[c.agg[i].pass:] {
			needRace = needRace || p.race
		}
	}
	if needRace && c.bins[true] != "" {
		raceWait = true
		go func() { // the race build may still be going on
			bin := c.bins[true]
			for i := 0; i < 3000; i++ {
				if _, err := os.Stat(bin + ".ok"); err == nil {
					raceReady <- bin
					return
				}
				if _, err := os.Stat(bin + ".fail"); err == nil {
					break
				}
				time.Sleep(100 * time.Millisecond)
			}
			raceReady <- ""
		}()
	}
	nextSlot := 0
	mk := func(race bool) {
		for i := 0; i < nw && nextSlot < maxWork; i++ {
			c.procs[race] = append(c.procs[race], c.spawn(race, nextSlot))
			nextSlot++
		}
	}
	mk(false)
	raceOK := false
	for i := range c.scns {
		c.advance(i)
	}
	var raceQ []*task
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	grace := c.deadline.Add(20 * time.Second)
	stopAll := false
	isRace := func(t *task) bool { return passes(c.scns[t.Scn])[t.Pass].race }
	idle := func(race bool) *proc {
		for _, p := range c.procs[race] {
			if !p.busy && !p.dead {
				return p
			}
		}
		return nil
	}
	for {
		// hand out work
		if stopAll || time.Now().After(c.deadline) {
			for _, t := range append(c.queue, raceQ...) {
				c.agg[t.Scn].partial = true
			}
			c.queue, raceQ = nil, nil
		}
		var keep []*task
		starving := false
		for _, t := range c.queue {
			r := isRace(t)
			if r && !raceOK {
				raceQ = append(raceQ, t)
				continue
			}
			p := idle(r)
			if p == nil {
				keep = append(keep, t)
				continue
			}
			c.give(p, t)
		}
		c.queue = keep
		nb := 0
		for _, ps := range c.procs {
			for _, p := range ps {
				if p.busy {
					nb++
				}
			}
		}
		if nb == 0 && len(c.queue) == 0 && (len(raceQ) == 0 || !raceWait) {
			break
		}
		starving = len(c.queue) == 0 && nb < nw
		h := uint64(0)
		if starving {
			h = 1
		}
		atomic.StoreUint64(c.sh.hungry(), h)
		select {
		case ev := <-c.events:
			if ev.eof {
				c.died(ev.p)
				if stopAll {
					break
				}
				for i, p := range c.procs[ev.p.race] {
					if p == ev.p && len(c.viols) < 20 {
						c.procs[ev.p.race][i] = c.spawn(p.race, p.id)
					}
				}
				break
			}
			c.handle(ev.p, ev.rep)
		case bin := <-raceReady:
			raceWait = false
			if bin != "" {
				raceOK = true
				mk(true)
				c.queue = append(c.queue, raceQ...)
				raceQ = nil
			} else {
				c.engineErr = append(c.engineErr, "race build failed")
				for _, t := range raceQ {
					c.agg[t.Scn].partial = true
				}
				raceQ = nil
			}
		case <-tick.C:
			now := time.Now()
			for _, ps := range c.procs {
				for _, p := range ps {
					if !p.busy || p.dead {
						continue
					}
					b := atomic.LoadUint64(&c.sh.page(p.id)[0])
					if b != p.beat {
						p.beat, p.since = b, now
					} else if now.Sub(p.since) > 25*time.Second {
						p.tail.Write([]byte("\nfatal error: no progress for 25 s (endless loop)\n"))
						p.cmd.Process.Kill()
					}
					if rss(p.cmd.Process.Pid) > 5<<30 {
						p.tail.Write([]byte("\nfatal error: memory use above 5 GB\n"))
						p.cmd.Process.Kill()
					}
				}
			}
			if now.After(grace) {
				for _, ps := range c.procs {
					for _, p := range ps {
						if p.busy {
							c.agg[p.cur.Scn].partial = true
							p.busy = false
							p.dead = true
							p.cmd.Process.Kill()
						}
					}
				}
			}
		}
		if len(c.viols) >= 12 && !stopAll {
			stopAll = true
		}
	}
	// samples: default schedules of a few scenarios, written out
	c.takeSamples()
	for _, ps := range c.procs {
		for _, p := range ps {
			p.dead = true
			p.in.Close()
			p.cmd.Process.Kill()
		}
	}
	return c.finish(start)
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

func (c *coord) give(p *proc, t *task) {
	p.busy, p.cur, p.since = true, t, time.Now()
	p.beat = atomic.LoadUint64(&c.sh.page(p.id)[0])
	b, _ := json.Marshal(t)
	p.in.Write(append(b, '\n'))
}

// advance starts the next pass of a scenario when the previous one is complete.
func (c *coord) advance(i int) {
	s, a := c.scns[i], c.agg[i]
	ps := passes(s)
	if a.open > 0 || a.partial || a.pass >= len(ps) || c.violScn[i] > 0 {
		return
	}
	k := a.pass
	a.pass++
	if s.Bulk != nil {
		n := s.Shards
		if n == 0 {
			n = 8
		}
		for j := 0; j < n; j++ {
			c.queue = append(c.queue, &task{Scn: i, Pass: k, Shard: j, Of: n})
			a.open++
		}
		return
	}
	c.queue = append(c.queue, &task{Scn: i, Pass: k, Bound: ps[k].bound, Fresh: true})
	a.open++
}

func (c *coord) handle(p *proc, r report) {
	t := r.Task
	a := c.agg[t.Scn]
	switch r.Kind {
	case "split":
		if c.violScn[t.Scn] > 2 {
			return
		}
		a.open++
		c.queue = append(c.queue, r.Task)
	case "viol":
		if c.violScn[t.Scn] >= 3 {
			return
		}
		var ch []int
		for _, d := range r.Trace {
			ch = append(ch, d.C)
		}
		for len(ch) > 0 && ch[len(ch)-1] == 0 {
			ch = ch[:len(ch)-1]
		}
		c.violation(t.Scn, p.race, t.Bound, r.Case, ch, r.Msg)
	case "done":
		p.busy = false
		k := 0
		if p.race {
			k = 1
		}
		s := &a.st[k]
		x := r.Stats
		s.Runs += x.Runs
		s.Complete += x.Complete
		s.Pruned += x.Pruned
		s.Nondet += x.Nondet
		if x.Nondet > 0 {
			a.partial = true
		}
		s.Steps += x.Steps
		s.States += x.States
		s.Hits += x.Hits
		s.Cases += x.Cases
		s.Calls += x.Calls
		s.TabFull = s.TabFull || x.TabFull
		if x.MaxDepth > s.MaxDepth {
			s.MaxDepth = x.MaxDepth
		}
		for i := range x.Cost {
			s.Cost[i] += x.Cost[i]
		}
		if len(s.Samples) < 3 {
			s.Samples = append(s.Samples, x.Samples...)
		}
		if x.TimedOut {
			a.partial = true
		}
		a.open--
		if a.open == 0 && !a.partial && c.violScn[t.Scn] == 0 {
			ps := passes(c.scns[t.Scn])[t.Pass]
			d := "all cases"
			if c.scns[t.Scn].Bulk == nil {
				d = fmt.Sprintf("deviation bound %d", ps.bound)
			}
			if ps.race {
				d += " (race detector)"
			}
			a.done = append(a.done, d)
			c.advance(t.Scn)
		}
	}
}

func (c *coord) violation(scn int, race bool, bound int, cas int64, choices []int, msg string) {
	c.violScn[scn]++
	if len(msg) > 3000 {
		msg = msg[:3000]
	}
	c.viols = append(c.viols, replayFile{Property: c.prop, Scenario: c.scns[scn].Name, Tier: tierName(c.thorough), Race: race, Bound: bound, Case: cas, Choices: choices, Message: msg})
}

// died: a worker process ended by itself (fatal error of the code under test) or was killed by the watchdog.
func (c *coord) died(p *proc) {
	if p.dead {
		return
	}
	p.dead = true
	if !p.busy {
		return
	}
	p.busy = false
	t := p.cur
	pg := c.sh.page(p.id)
	msg := "the process died: " + firstLines(string(p.tail.b), 12)
	a := c.agg[t.Scn]
	a.open--
	a.partial = true
	if c.scns[t.Scn].Bulk != nil {
		c.violation(t.Scn, p.race, 0, int64(pg[3]), nil, msg)
		return
	}
	n := int(pg[3])
	var ch []int
	for i := 0; i < n && i < pageWords-8; i++ {
		ch = append(ch, int(pg[4+i]))
	}
	c.violation(t.Scn, p.race, t.Bound, -1, ch, msg)
}

func firstLines(s string, n int) string {
	i := strings.Index(s, "fatal error:")
	if j := strings.Index(s, "panic:"); i < 0 {
		i = j
	}
	if i > 0 {
		s = s[i:]
	}
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func (c *coord) takeSamples() {
	if len(c.viols) > 0 {
		return
	}
	n := 0
	for i, s := range c.scns {
		for k := 0; k < 2; k++ {
			seen := map[string]bool{}
			for _, x := range c.agg[i].st[k].Samples {
				if n < 12 && !seen[x] {
					seen[x] = true
					c.samples = append(c.samples, map[string]interface{}{"scenario": s.Name, "case": x})
					n++
				}
			}
		}
	}
	n = 0
	for i, s := range c.scns {
		if s.Bulk != nil || n >= 2 || c.agg[i].st[0].Runs == 0 {
			continue
		}
		var p *proc
		for _, q := range c.procs[false] {
			if !q.dead && !q.busy {
				p = q
			}
		}
		if p == nil {
			return
		}
		c.give(p, &task{Scn: i, Sample: true})
		tm := time.After(10 * time.Second)
	wait:
		for {
			select {
			case ev := <-c.events:
				if ev.p == p {
					p.busy = false
					if ev.eof {
						return
					}
					l := ev.rep.Log
					if len(l) > 60 {
						l = append(l[:60], fmt.Sprintf("... %d more", len(l)-60))
					}
					c.samples = append(c.samples, map[string]interface{}{"scenario": s.Name, "default_schedule": l})
					break wait
				}
			case <-tm:
				return
			}
		}
		n++
	}
}

// confirm re-runs a failing execution in fresh processes.
func (c *coord) confirm(file string, rf *replayFile) (bool, string) {
	out := ""
	for i := 0; i < 2; i++ {
		cmd := exec.Command(c.bins[rf.Race], "replay", file, "--quiet", "1")
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=halt_on_error=0 history_size=2 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0")
		cmd.Dir = filepath.Dir(c.shm)
		buf := &tailBuf{}
		cmd.Stdout, cmd.Stderr = buf, buf
		cmd.Start()
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		var err error
		hang := false
		tm := time.After(60 * time.Second)
		tk := time.NewTicker(200 * time.Millisecond)
	loop:
		for {
			select {
			case err = <-done:
				break loop
			case <-tm:
				hang = true
				cmd.Process.Kill()
				err = <-done
				break loop
			case <-tk.C:
				if rss(cmd.Process.Pid) > 5<<30 {
					hang = true
					cmd.Process.Kill()
				}
			}
		}
		tk.Stop()
		out = string(buf.b)
		if err == nil && !hang {
			return false, out
		}
		if strings.HasPrefix(rf.Message, "data race") && ownRacesOnly(out) {
			return false, out
		}
	}
	return true, out
}

type knownFinding struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	Contains string `json:"contains"` // text that identifies the failing input, call site or history
	Text     string `json:"what_fails"`
}

func loadKnown(path string) []knownFinding {
	var f struct {
		Known []knownFinding `json:"known"`
	}
	b, err := os.ReadFile(path)
	if err == nil {
		json.Unmarshal(b, &f)
	}
	return f.Known
}

func (c *coord) finish(start time.Time) int {
	rdir := filepath.Join(c.out, "replays")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(rdir, c.prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	known := loadKnown(arg("known", "/verif/known_findings.json"))
	seenKnown := map[string]bool{}
	nviol := 0
	exit := 0
	for i := range c.viols {
		rf := &c.viols[i]
		file := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", c.prop, i))
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(file, b, 0o644)
		if nviol >= 3 {
			continue
		}
		ok, out := c.confirm(file, rf)
		if !ok {
			c.unconf++
			c.engineErr = append(c.engineErr, "not reproducible: "+rf.Scenario+": "+firstLine(rf.Message))
			fmt.Printf("note: an apparent violation in %s did not reproduce: %s\n", rf.Scenario, firstLine(rf.Message))
			os.Remove(file)
			continue
		}
		isKnown := false
		for _, k := range known {
			if k.Property == c.prop && k.Scenario == rf.Scenario && k.Contains != "" && strings.Contains(rf.Message+out, k.Contains) {
				isKnown = true
				if !seenKnown[k.Text] {
					seenKnown[k.Text] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k.Text)
				}
			}
		}
		if isKnown {
			continue
		}
		nviol++
		exit = 1
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, file)
		fmt.Printf("  scenario %s (case %d, choices %v)\n", rf.Scenario, rf.Case, short(rf.Choices))
		for _, l := range strings.Split(rf.Message, "\n") {
			fmt.Println("   ", l)
		}
		if rf.Race {
			fmt.Println(indent(firstRace(out)))
		}
	}
	c.evidence(start, nviol)
	if exit == 0 {
		fmt.Printf("%s: held on everything explored (%.1f s)\n", c.prop, time.Since(start).Seconds())
	}
	return exit
}

// ownRacesOnly tells whether all reports are about memory of the explorer's
// own runtime, on both sides: its threads run one at a time, unknown to the detector.
func ownRacesOnly(s string) bool {
	blocks := strings.Split(s, "WARNING: DATA RACE")[1:]
	for _, b := range blocks {
		own := 0
		stacks := 0
		lines := strings.Split(b, "\n")
		for i := 0; i < len(lines) && stacks < 2; i++ {
			l := strings.TrimSpace(lines[i])
			if !(strings.Contains(l, " at 0x") && strings.Contains(l, " by ")) {
				continue
			}
			stacks++
			for j := i + 1; j < len(lines) && strings.TrimSpace(lines[j]) != ""; j += 2 {
				f := strings.TrimSpace(lines[j])
				if strings.HasPrefix(f, "runtime.") {
					continue
				}
				if strings.Contains(f, "/zz/vrt.") && !strings.Contains(f, "vrt.Race") {
					own++
				}
				break
			}
		}
		if stacks < 2 || own < 2 {
			return false
		}
	}
	return len(blocks) > 0
}

func firstRace(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	s = s[i:]
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "=====") || len(out) > 30 {
			break
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

func indent(s string) string { return "    " + strings.ReplaceAll(s, "\n", "\n    ") }

func short(c []int) string {
	var s []string
	for i, x := range c {
		if x != 0 {
			s = append(s, fmt.Sprintf("%d:%d", i, x))
		}
	}
	if len(s) > 40 {
		s = append(s[:40], "...")
	}
	return strings.Join(s, " ")
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (c *coord) evidence(start time.Time, nviol int) {
	var states, trans, traces, cases int64
	exhaustive := true
	var list []interface{}
	var names []int
	for i := range c.scns {
		names = append(names, i)
	}
	sort.Ints(names)
	for _, i := range names {
		s, a := c.scns[i], c.agg[i]
		if a.st[0].Runs+a.st[1].Runs+a.st[0].Cases+a.st[1].Cases == 0 && a.pass > 0 && len(a.done) == 0 && !a.partial {
			continue
		}
		e := map[string]interface{}{"scenario": s.Name}
		if s.Note != "" {
			e["what"] = s.Note
		}
		complete := !a.partial && a.pass >= len(passes(s)) && a.open == 0
		if !complete {
			exhaustive = false
		}
		e["completed"] = a.done
		e["complete"] = complete
		for k := 0; k < 2; k++ {
			x := a.st[k]
			if x.Runs+x.Cases == 0 {
				continue
			}
			m := map[string]interface{}{"executions": x.Runs, "steps": x.Steps, "distinct_states": x.States}
			if s.Bulk == nil {
				m["complete_executions"] = x.Complete
				m["pruned_executions"] = x.Pruned
				m["pruned_at_visited_state"] = x.Hits
				m["max_decisions"] = x.MaxDepth
				m["complete_by_deviations"] = x.Cost
				if x.Nondet > 0 {
					m["nondeterministic_replays"] = x.Nondet
					exhaustive = false
				}
				states += x.States
			} else {
				m["cases"] = x.Cases
				states += x.Cases + x.States
				cases += x.Cases
			}
			trans += x.Steps
			if s.Bulk != nil {
				trans += x.Cases
			}
			traces += x.Complete
			e[[]string{"plain", "race_build"}[k]] = m
		}
		list = append(list, e)
	}
	if c.samples == nil {
		c.samples = []interface{}{}
	}
	if len(c.engineErr) > 0 {
		exhaustive = false
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": c.prop,
		"tier":     tierName(c.thorough),
		"seed":     seed,
		"level":    "model_checking",
		"coverage": map[string]interface{}{
			"states":                        states,
			"transitions":                   trans,
			"traces_validated_against_impl": traces,
			"enumerated_inputs":             cases,
			"samples":                       c.samples,
			"exhaustive":                    exhaustive,
			"scenarios":                     list,
			"engine_notes":                  c.engineErr,
			"explanation":                   "The implementation itself, rebuilt from /repo with its scheduling, channels, locks, clock, sockets, files and map walks under control, is executed for every schedule, environment choice and input of each scenario within the stated bounds; every execution counted as a trace is an execution of the real code. states: distinct happens-before states of schedules plus distinct enumerated inputs; transitions: scheduling steps plus applications of the code to an input.",
		},
		"assumptions": []string{
			"the code is free of unsynchronised accesses other than those the race-detector passes look for (schedule points are at synchronisation, I/O, clock and channel operations)",
			"sequentially consistent memory; the shims reproduce the Go documentation's semantics of sync, channels, context, time, net and os",
			"the bounds listed per scenario",
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(c.out, c.prop+".json"), append(b, '\n'), 0o644)
}

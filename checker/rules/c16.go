package rules

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"verif/checker/cxxrun"
)

func init() {
	assume := []string{familyShapes, "roscpp calls the callbacks that are registered, one at a time, with any message, until ros::shutdown; the handles of a subscription or timer keep it alive", "the user's conversion from a message undoes that to it"}
	All["C16"] = Check{Spec: true, Run: func(c *Ctx) { runDrivers(c, "C16") }, Assume: assume, Explain: "The C++ that generators and templates give for shapes of suites is interpreted abstractly over clang's syntax tree, together with the machine of the shape: every configuration that can be reached is explored, with values from outside as symbols that are split only by the comparisons the driver makes. After each event the driver must have sent the same inputs, have the same status and, in the end, the same verdicts as the machine."}
	All["C32"] = Check{Spec: true, Run: func(c *Ctx) { runDrivers(c, "C32") }, Assume: append([]string{"roscpp calls the callback of a timer whenever its period has passed since it was created, and not before"}, assume...), Explain: "The drivers for ROS are explored as for C16: whenever one waits it must have a timer with the period of the time-out that ends the test in every configuration, and, if the first state sends an input, one with the period of the start-up delay that enters that state; nothing but these may do so."}
	All["C17"] = Check{Spec: true, Run: func(c *Ctx) { runDrivers(c, "C17") }, Assume: assume, Explain: "The drivers are explored as for C16: time-outs, start callbacks and callbacks after the end are delivered in every configuration, and the end of the main function is compared with the end of the test: the loop ends exactly when the test has ended, the verdicts and the status are reported, and the exit code is that of the status. The function that ends a test is evaluated on every pair of statuses."}
}

// The machines of core/spec/family.go.txt.

type oTrans struct{ val, next string }

type oState struct {
	id       string
	verdicts map[string]string
	in       *oTrans
	inChan   string
	outs     map[string][]oTrans
}

type oStm struct {
	tests  []string
	states []*oState
}

type sopt func(*oState)

func oSt(id string, opts ...sopt) *oState {
	s := &oState{id: id, verdicts: map[string]string{}, outs: map[string][]oTrans{}}
	for _, o := range opts {
		o(s)
	}
	return s
}

func oV(kv ...string) sopt {
	return func(s *oState) {
		for i := 0; i < len(kv); i += 2 {
			s.verdicts[kv[i]] = kv[i+1]
		}
	}
}

func oIn(ch, val, next string) sopt {
	return func(s *oState) { s.inChan, s.in = ch, &oTrans{val, next} }
}

func oOut(ch string, vn ...string) sopt {
	return func(s *oState) {
		for i := 0; i < len(vn); i += 2 {
			s.outs[ch] = append(s.outs[ch], oTrans{vn[i], vn[i+1]})
		}
	}
}

func familyMachines() map[string]map[string]*oStm {
	later := &oStm{[]string{"T1", "T2"}, []*oState{
		oSt("S0", oV("T1", "INC", "T2", "INC"), oOut("A", "V2", "S1")),
		oSt("S1", oV("T1", "INC", "T2", "PASS"), oIn("J", "V2", "S2")),
		oSt("S2", oV("T1", "INC"), oIn("I", "V1", "S3")),
		oSt("S3", oV("T2", "INC"), oIn("I", "V3", "S0")),
	}}
	return map[string]map[string]*oStm{
		"Numbers": {
			"T1": {[]string{"T1", "T2"}, []*oState{
				oSt("S0", oV("T1", "INC", "T2", "INC"), oOut("A", "V1", "S1", "V2", "S2", "V3", "S0"), oOut("B", "N1", "S1")),
				oSt("S1", oV("T1", "INC"), oIn("I", "V1", "S3")),
				oSt("S2", oV("T1", "FAIL", "T2", "PASS")),
				oSt("S3", oOut("A", "V1", "S2"), oOut("B", "N1", "S0", "M1", "S4", "N2", "S4")),
				oSt("S4", oV("T1", "PASS", "T2", "INC"), oOut("K", "N3", "S2")),
			}},
			"T3": {[]string{"T3"}, []*oState{
				oSt("S0", oV("T3", "INC"), oIn("I", "V2", "S1")),
				oSt("S1", oV("T3", "PASS"), oOut("B", "N2", "S2")),
				oSt("S2", oV("T3", "FAIL")),
			}},
		},
		"Texts": {"T1": {[]string{"T1"}, []*oState{
			oSt("S0", oV("T1", "INC"), oIn("I", "V1", "S1")),
			oSt("S1", oV("T1", "INC"), oIn("J", "V2", "S2")),
			oSt("S2", oV("T1", "INC"), oOut("A", "V1", "S3", "V2", "S4"), oOut("C", "V1", "S5", "V3", "S2")),
			oSt("S3", oV("T1", "INC"), oIn("I", "V3", "S4")),
			oSt("S4", oV("T1", "FAIL"), oOut("A", "V1", "S5")),
			oSt("S5", oV("T1", "FAIL"), oIn("I", "V1", "S0")),
			oSt("S6", oV("T1", "PASS")),
		}}},
		"Idle":    {"T1": {nil, []*oState{oSt("S0")}}},
		"Inputs":  {"T1": {[]string{"T1"}, []*oState{oSt("S0", oV("T1", "INC"), oIn("I", "V1", "S1")), oSt("S1", oV("T1", "PASS"))}}},
		"Outputs": {"T2": {[]string{"T2"}, []*oState{oSt("S0"), oSt("S1", oV("T2", "PASS"), oOut("A", "V1", "S0"))}}},
		"Doomed": {
			"T1": {[]string{"T1"}, []*oState{oSt("S0", oV("T1", "FAIL"), oOut("A", "V1", "S1")), oSt("S1", oV("T1", "PASS"))}},
			"T2": {[]string{"T1", "T2"}, []*oState{oSt("S0", oV("T1", "INC", "T2", "FAIL"), oIn("I", "V2", "S1")), oSt("S1", oV("T1", "PASS"), oOut("A", "V1", "S0"))}},
		},
		"Later": {"T1": later, "T2": later},
		"Reals": {"T1": {[]string{"T1"}, []*oState{
			oSt("S0", oV("T1", "INC"), oOut("B", "N1", "S1", "M1", "S2")),
			oSt("S1", oV("T1", "INC"), oIn("K", "N3", "S2")),
			oSt("S2", oV("T1", "INC"), oIn("K", "M1", "S3")),
			oSt("S3", oV("T1", "PASS")),
		}}},
	}
}

func (s *oStm) state(id string) *oState {
	for _, x := range s.states {
		if x.id == id {
			return x
		}
	}
	return nil
}

func (s *oStm) outChans() map[string]bool {
	m := map[string]bool{}
	for _, x := range s.states {
		for c := range x.outs {
			m[sample[c]] = true
		}
	}
	return m
}

func (s *oStm) hasIn() bool {
	for _, x := range s.states {
		if x.in != nil {
			return true
		}
	}
	return false
}

// sampleValue is the C++ value of a sample.
func sampleValue(n string) cxxrun.Value {
	if i, ok := sampleInt[n]; ok {
		return cxxrun.Value{K: cxxrun.Int, I: i}
	}
	return cxxrun.Value{K: cxxrun.Str, S: sample[n]}
}

// tester is the machine of a test that is followed next to a driver.
type tester struct {
	stm      *oStm
	cur      string
	status   string
	verdicts map[string]string
	sends    []sent
}

type sent struct {
	ch  string
	val cxxrun.Value
}

func (s sent) String() string { return fmt.Sprintf("%v on %s", s.val, s.ch) }

func (t *tester) clone() *tester {
	n := *t
	n.verdicts = map[string]string{}
	for k, v := range t.verdicts {
		n.verdicts[k] = v
	}
	n.sends = append([]sent{}, t.sends...)
	return &n
}

func (t *tester) String() string {
	var vs []string
	for k, v := range t.verdicts {
		vs = append(vs, sample[k]+"="+v)
	}
	sort.Strings(vs)
	return fmt.Sprintf("%s in %s, %s", t.status, sample[t.cur], strings.Join(vs, " "))
}

func (t *tester) running() bool { return strings.HasPrefix(t.status, "WAIT_") }

func (t *tester) enter(id string) {
	t.cur = id
	s := t.stm.state(id)
	fail := false
	for k, v := range s.verdicts {
		t.verdicts[k] = v
		fail = fail || v == "FAIL"
	}
	switch {
	case fail:
		t.status = "FAIL"
	case s.in != nil:
		t.status = "WAIT_IN"
		t.sends = append(t.sends, sent{sample[s.inChan], sampleValue(s.in.val)})
	default:
		t.status = "WAIT_OUT"
	}
}

// event is something that happens to a test.
type devent struct {
	kind  string // timeout, start, accept, out
	ch    string // sample name
	val   *cxxrun.Sym
	given *cxxrun.Value
}

func (e *devent) String() string {
	if e.kind == "out" {
		v := "nothing"
		if e.val != nil {
			v = e.val.String()
		}
		return fmt.Sprintf("output %s of %s", v, e.ch)
	}
	return e.kind
}

func symEq(s *cxxrun.Sym, v cxxrun.Value) (eq, known bool) {
	if s.Bound != nil {
		return cxxrun.Same(*s.Bound, v), true
	}
	for _, n := range s.Neq {
		if cxxrun.Same(n, v) {
			return false, true
		}
	}
	return false, false
}

// on handles an event; the text says for which values the driver does not tell apart what the machine does.
func (t *tester) on(e *devent) (unsplit string) {
	switch e.kind {
	case "timeout":
		if t.running() {
			t.status = "TIMEOUT"
		}
	case "start":
		if t.status == "WAIT_START" {
			t.enter(t.stm.states[0].id)
		}
	case "accept":
		if s := t.stm.state(t.cur); s.in != nil {
			t.enter(s.in.next)
		} else {
			t.status = "BUG"
		}
	case "out":
		ch := ""
		for k, v := range sample {
			if v == e.ch && len(k) == 1 {
				ch = k
			}
		}
		if e.val == nil {
			return "the value of the output is not read"
		}
		for _, x := range t.stm.state(t.cur).outs[ch] {
			eq, known := symEq(e.val, sampleValue(x.val))
			if !known {
				return fmt.Sprintf("an output %v on %s leads to state %s, but the driver does not tell it from other values", sampleValue(x.val), e.ch, sample[x.next])
			}
			if eq {
				t.enter(x.next)
				return
			}
		}
		t.status = "OFF_SCRIPT"
	}
	return
}

// mismatch is a difference between a driver and its machine.
type mismatch struct {
	props string // C16, C17 or both
	key   string
	text  string
	file  string
	line  int
}

// driver explores one driver.
type driver struct {
	m      *member
	test   string // key of the test
	stm    *oStm
	p      *cxxrun.Program
	outs   map[string]bool
	texts  map[string]map[string]string // texts of outcomes and statuses
	found  map[string]*mismatch
	seen   map[string]bool
	runs   int
	states int
	events map[string]bool
	err    error
}

type drun struct {
	d     *driver
	o     *tester
	word  *cxxrun.Sym
	ev    *devent
	lines int
	pubs  int
	path  []string
	begun bool
	mark  int
	evFn  *cxxrun.Node
}

func lowerTopic(ch string) string { return lowerUnderscored(ch) }

func (d *driver) channels() (cs []string) {
	for ch := range familyTypes[d.m.Suite] {
		cs = append(cs, ch)
	}
	sort.Strings(cs)
	return
}

func (d *driver) explore() {
	d.found, d.seen, d.events = map[string]*mismatch{}, map[string]bool{}, map[string]bool{}
	d.texts = map[string]map[string]string{}
	d.tables()
	queue := [][]int{nil}
	for len(queue) > 0 && d.runs < 60000 && len(d.found) < 20 {
		s := queue[0]
		queue = queue[1:]
		d.runs++
		if n := d.run(s); n > 0 {
			for i := range n {
				queue = append(queue, append(append([]int{}, s...), i))
			}
		}
	}
	if len(queue) > 0 && len(d.found) == 0 {
		d.found["many"] = &mismatch{props: "C16 C17 C32", key: "exploration", text: "there are too many configurations to explore"}
	}
}

// run does one run; it returns how many ways to go on there are where its script ends.
func (d *driver) run(script []int) (pending int) {
	mc := cxxrun.NewMachine(d.p)
	mc.Script = script
	first := d.stm.states[0]
	r := &drun{d: d, o: &tester{stm: d.stm, cur: first.id, status: "WAIT_START", verdicts: map[string]string{}}}
	for _, t := range d.stm.tests {
		r.o.verdicts[t] = "UNSET"
	}
	if first.in == nil {
		r.o.enter(first.id)
	}
	mc.Convs = r.convs
	mc.Read = r.read
	mc.Spin = r.spin
	defer func() {
		switch x := recover().(type) {
		case nil:
		case *cxxrun.Pending:
			pending = x.N
		case *cxxrun.Stop:
			if v, ok := x.Why.(cxxrun.Value); ok {
				// exit() from anywhere
				func() {
					defer func() {
						if y := recover(); y != nil {
							if s, ok := y.(*cxxrun.Stop); !ok || s.Why != nil {
								panic(y)
							}
						}
					}()
					r.final(mc, v)
				}()
			}
		case *cxxrun.Undecided:
			d.add(&mismatch{props: "C16 C17 C32", key: x.Msg, text: "cannot tell what the driver does: " + x.Msg, file: x.File, line: x.Line})
		default:
			if os.Getenv("CHECKER_DEBUG") != "" {
				panic(x)
			}
			d.add(&mismatch{props: "C16 C17 C32", key: "crash", text: fmt.Sprintf("the analysis crashed: %v", x)})
		}
	}()
	v := mc.Main()
	r.final(mc, v)
	return 0
}

func (d *driver) add(x *mismatch) {
	if d.found[x.key] == nil {
		d.found[x.key] = x
	}
}

// bad ends the run with a mismatch.
func (r *drun) bad(m *cxxrun.Machine, props, key, format string, a ...any) {
	x := &mismatch{props: props, key: key, text: fmt.Sprintf(format, a...)}
	if len(r.path) > 0 {
		x.text += " (after " + strings.Join(r.path, ", ") + ")"
	}
	if n := r.evFn; n != nil {
		x.file, x.line = n.File, n.Line
	} else if m.At != nil {
		x.file, x.line = m.At.File, m.At.Line
	}
	r.d.add(x)
	panic(&cxxrun.Stop{})
}

func (r *drun) stop() { panic(&cxxrun.Stop{}) }

// convs interprets the conversions of channels.
func (r *drun) convs(m *cxxrun.Machine, fn *cxxrun.Node, args []cxxrun.Value) (cxxrun.Value, bool) {
	if len(args) != 1 {
		return cxxrun.Value{}, false
	}
	for _, k := range r.d.channels() {
		ch := sample[k]
		over := r.d.m.override(k) != ""
		switch fn.Name {
		case "to" + upcase(ch):
			tag := &cxxrun.Conv{Name: ch, Arg: m.Rvalue(args[0])}
			if over {
				o := m.NewObject(r.d.m.override(k))
				o.Tag = tag
				return cxxrun.Value{K: cxxrun.ObjK, O: o, T: o.Type, Tag: tag}, true
			}
			v := m.Call(fn, nil, args, m.At)
			v = m.Rvalue(v)
			v.Tag = tag
			return v, true
		case "from" + upcase(ch):
			if over {
				o := m.Object(args[0], m.At)
				if t, ok := o.Tag.(*cxxrun.Conv); ok && t.Name == ch {
					return t.Arg, true
				}
				return cxxrun.Value{}, false
			}
			v := m.Rvalue(m.Call(fn, nil, args, m.At))
			v.Tag = nil
			return v, true
		}
	}
	return cxxrun.Value{}, false
}

// sentBy lists what the driver sent since the last event.
func (r *drun) sentBy(m *cxxrun.Machine) (ss []sent) {
	if r.d.m.Variant == "Animate" {
		for _, l := range m.Lines[r.lines:] {
			for _, it := range l.Its {
				if it.Conv != nil {
					ss = append(ss, sent{it.Conv.Name, it.Conv.Arg})
				}
			}
		}
		return
	}
	for _, p := range m.Published[r.pubs:] {
		ch, key := p.Topic, ""
		for _, k := range r.d.channels() {
			if lowerTopic(sample[k]) == p.Topic {
				ch, key = sample[k], k
			}
		}
		v := m.Rvalue(p.Msg)
		var val cxxrun.Value
		if key != "" && r.d.m.override(key) != "" {
			if v.K == cxxrun.ObjK {
				if t, ok := v.O.Tag.(*cxxrun.Conv); ok {
					val = t.Arg
					if t.Name != ch {
						ch = t.Name + " (published on topic " + p.Topic + ")"
					}
				}
			}
		} else if v.K == cxxrun.ObjK {
			for k, f := range v.O.Fields {
				if strings.HasSuffix(k, "::data") {
					val = m.Rvalue(f.V)
				}
			}
		}
		ss = append(ss, sent{ch, val})
	}
	return
}

func statusOf(m *cxxrun.Machine) (string, bool) {
	for _, o := range m.Objects("rtcg::TestCase") {
		if f := m.Method(o.Type, "getStatus"); f != nil {
			return m.Rvalue(m.Call(f, o, nil, f)).S, true
		}
	}
	return "", false
}

// settle lets the machine do what was done to the driver, and compares them.
func (r *drun) settle(m *cxxrun.Machine, atEnd bool) {
	props, what := "C16", "at the start"
	if !r.begun {
		props = "C16 C17" + r.timed()
	}
	before := r.o.clone()
	if r.word != nil {
		// Which event a typed word is.
		w := r.word
		words := map[string]*devent{"timeout": {kind: "timeout"}}
		if r.o.status == "WAIT_START" {
			words["ready"] = &devent{kind: "start"}
		}
		if r.o.status == "WAIT_IN" {
			words["accept"] = &devent{kind: "accept"}
		}
		for ch := range r.d.outs {
			words[ch] = &devent{kind: "out", ch: ch}
		}
		var ev *devent
		var ks []string
		for k := range words {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			eq, known := symEq(w, cxxrun.Value{K: cxxrun.Str, S: k})
			if !known {
				p := "C16"
				if k == "timeout" || k == "ready" {
					p = "C17"
				}
				r.bad(m, p, "word "+words[k].kind+" "+words[k].ch, "the word '%s' does nothing while the test is %v", k, r.o)
			}
			if eq {
				ev = words[k]
			}
		}
		if ev != nil {
			if r.ev != nil {
				ev.val = r.ev.val
			}
			r.ev = ev
		} else {
			r.ev = &devent{kind: "the word " + w.String()}
		}
	}
	if r.ev != nil {
		r.d.events[r.ev.kind+" in "+r.o.status] = true
		what = "after " + r.ev.String() + " while " + before.String()
		if r.ev.kind == "timeout" || r.ev.kind == "start" {
			props = "C17" + r.timed()
		}
		if r.ev.kind == "start" {
			props = "C16 C17" + r.timed()
		}
		key := r.ev.kind + " " + r.ev.ch
		if u := r.o.on(r.ev); u != "" {
			r.bad(m, "C16", key+" values", "%s: %s", what, u)
		}
		r.path = append(r.path, r.ev.String())
	}
	r.word, r.ev = nil, nil
	got, want := r.sentBy(m), r.o.sends
	r.o.sends = nil
	where := "state " + sample[r.o.cur]
	if fmt.Sprint(got) != fmt.Sprint(want) {
		p := "C16 " + props
		r.bad(m, p, "sends "+where, "%s: the driver sends %s, the machine sends %s", what, list(got), list(want))
	}
	r.lines, r.pubs = len(m.Lines), len(m.Published)
	if s, ok := statusOf(m); ok && s != r.o.status {
		p := props
		if r.o.running() != strings.HasPrefix(s, "WAIT_") && r.begun {
			p += " C17"
		}
		r.bad(m, p, "status "+r.o.status+" "+s, "%s: the driver's status is %s, that of the machine is %v", what, s, r.o)
	}
	r.begun = true
	r.evFn = nil
	if atEnd {
		return
	}
	if !r.o.running() {
		r.bad(m, "C17", "goes on", "%s: the test has ended (%v), but the driver goes on", what, r.o)
	}
	if !m.Replaying() {
		k := m.Snapshot() + "|" + r.o.String()
		if r.d.seen[k] {
			r.stop()
		}
		r.d.seen[k] = true
	}
}

func list(ss []sent) string {
	if len(ss) == 0 {
		return "nothing"
	}
	var xs []string
	for _, s := range ss {
		xs = append(xs, s.String())
	}
	return strings.Join(xs, " and ")
}

// read is an input from the console.
func (r *drun) read(m *cxxrun.Machine, typ string, n *cxxrun.Node) cxxrun.Value {
	s := &cxxrun.Sym{Type: typ}
	if r.word != nil && r.word.Bound != nil && r.d.outs[r.word.Bound.S] && r.ev == nil {
		r.ev = &devent{kind: "out", ch: r.word.Bound.S, val: s}
		return cxxrun.Value{K: cxxrun.SymK, Sym: s, T: typ}
	}
	r.settle(m, false)
	r.word = s
	r.evFn = n
	return cxxrun.Value{K: cxxrun.SymK, Sym: s, T: typ}
}

// spin delivers callbacks.
func (r *drun) spin(m *cxxrun.Machine, once bool, n *cxxrun.Node) {
	type del struct {
		ev *devent
		cb *cxxrun.Callback
	}
	for {
		r.settle(m, m.Down)
		var evs []del
		var timers []*cxxrun.Callback
		topics := map[string]int{}
		for _, cb := range m.Callbacks {
			if !m.Live(cb) {
				continue
			}
			if cb.Kind == "timer" {
				timers = append(timers, cb)
				continue
			}
			topics[cb.Topic]++
			if cb.Topic == "input_accepted" {
				if r.o.status != "WAIT_START" {
					evs = append(evs, del{&devent{kind: "accept"}, cb})
				}
				continue
			}
			found := false
			for _, k := range r.d.channels() {
				if lowerTopic(sample[k]) == cb.Topic {
					evs = append(evs, del{&devent{kind: "out", ch: sample[k]}, cb})
					found = r.d.outs[sample[k]]
				}
			}
			if !found {
				r.bad(m, "C16", "topic "+cb.Topic, "the driver subscribes to topic %s, on which there are no outputs of the machine", cb.Topic)
			}
		}
		for ch := range r.d.outs {
			if topics[lowerTopic(ch)] != 1 {
				r.bad(m, "C16", "subscription "+ch, "there are %d subscriptions to outputs on %s when the driver waits", topics[lowerTopic(ch)], ch)
			}
		}
		if want := r.d.stm.hasIn(); want != (topics["input_accepted"] == 1) {
			r.bad(m, "C16", "subscription accept", "there are %d subscriptions to accepted inputs when the driver waits", topics["input_accepted"])
		}
		sort.SliceStable(timers, func(i, j int) bool { return timers[i].Period < timers[j].Period })
		need := 1
		if r.d.stm.states[0].in != nil {
			need = 2
		}
		if len(timers) != need || timers[0].Period <= 0 || need == 2 && timers[0].Period >= timers[1].Period {
			r.bad(m, "C17"+r.timed(), "timers", "when the driver waits there are %d timers, but %d are needed (the one for the start being shorter)", len(timers), need)
		}
		for i, t := range timers {
			what, want := "time-out", timeoutSecs
			if i < need-1 {
				what, want = "start-up delay", startSecs
			}
			if t.Period != want {
				r.d.add(&mismatch{props: "C32", key: what, text: fmt.Sprintf("the timer for the %s has a period of %v seconds, not %v", what, t.Period, want), file: t.Node.File, line: t.Node.Line})
			}
			r.d.events[fmt.Sprintf("%s of %v seconds", what, want)] = true
		}
		if need == 2 {
			evs = append(evs, del{&devent{kind: "start"}, timers[0]})
		}
		evs = append(evs, del{&devent{kind: "timeout"}, timers[need-1]})
		if m.Down {
			// Timers that are called after the end change nothing.
			if r.o.running() {
				return
			}
			k := m.Choose(1 + need)
			if k == 0 {
				return
			}
			e := evs[len(evs)-need+k-1]
			r.ev, r.evFn = e.ev, e.cb.Fn
			m.Apply(e.cb.Fn, m.Object(e.cb.This, n), []cxxrun.Value{r.message(m, e.cb, nil, "")}, n)
			r.settle(m, true)
			return
		}
		e := evs[m.Choose(len(evs))]
		r.ev, r.evFn = e.ev, e.cb.Fn
		var arg cxxrun.Value
		if e.ev.kind == "out" {
			t := ""
			for _, k := range r.d.channels() {
				if sample[k] == e.ev.ch {
					t = familyTypes[r.d.m.Suite][k]
				}
			}
			e.ev.val = &cxxrun.Sym{Type: t}
			arg = r.message(m, e.cb, e.ev.val, e.ev.ch)
		} else {
			arg = r.message(m, e.cb, nil, "")
		}
		m.Apply(e.cb.Fn, m.Object(e.cb.This, n), []cxxrun.Value{arg}, n)
		if once {
			return
		}
	}
}

// timed adds the property about times to the properties of a mismatch.
func (r *drun) timed() string {
	if r.d.m.Variant == "Ros" {
		return " C32"
	}
	return ""
}

// Seconds that drivers for ROS give a test, and the system under test before its first input.
const (
	timeoutSecs = 15.0
	startSecs   = 3.0
)

// message is what a callback is given.
func (r *drun) message(m *cxxrun.Machine, cb *cxxrun.Callback, val *cxxrun.Sym, ch string) cxxrun.Value {
	t := m.ParamType(cb.Fn)
	o := m.NewObject("message")
	if val != nil {
		v := cxxrun.Value{K: cxxrun.SymK, Sym: val, T: val.Type}
		over := false
		for _, k := range r.d.channels() {
			over = over || sample[k] == ch && r.d.m.override(k) != ""
		}
		if over {
			o.Tag = &cxxrun.Conv{Name: ch, Arg: v}
		} else {
			o.Type = "std_msgs::String"
			o.Fields["std_msgs::String::data"] = &cxxrun.Cell{V: v}
		}
	} else if cb.Kind == "topic" {
		o.Type = "std_msgs::Bool"
		o.Fields["std_msgs::Bool::data"] = &cxxrun.Cell{V: cxxrun.Value{K: cxxrun.Bool, I: 1, T: "bool"}}
	}
	if strings.Contains(t, "Ptr") || strings.Contains(t, "shared_ptr") {
		return cxxrun.Value{K: cxxrun.PtrK, O: o}
	}
	return cxxrun.Value{K: cxxrun.Ref, C: &cxxrun.Cell{V: cxxrun.Value{K: cxxrun.ObjK, O: o, T: o.Type}}}
}

// final compares the end of the program with the end of the test.
func (r *drun) final(m *cxxrun.Machine, code cxxrun.Value) {
	lines := r.lines
	if r.word != nil || r.ev != nil || !r.begun {
		r.settle(m, true)
	} else if got := r.sentBy(m); len(got) > 0 {
		r.bad(m, "C16", "sends", "the driver sends %s after the end", list(got))
	}
	if r.o.running() {
		r.bad(m, "C17", "stops", "the driver stops although the test is %v", r.o)
	}
	want := int64(0)
	switch r.o.status {
	case "FAIL":
		want = 1
	case "BUG":
		want = 2
	}
	code = m.Rvalue(code)
	if code.K != cxxrun.Int || code.I != want {
		r.bad(m, "C17", "exit "+r.o.status, "the exit code of a test that ended as %s is %v, not %d", r.o.status, code, want)
	}
	if t := r.d.texts["rtcg::Status"][r.o.status]; t != "" {
		ok := false
		for _, l := range m.Lines[lines:] {
			ok = ok || strings.Contains(cxxrun.TextOf(l.Its), t)
		}
		if !ok {
			r.bad(m, "C17", "reports "+r.o.status, "the final status %s is not reported", r.o.status)
		}
	}
	ts := r.d.texts["rtcg::Outcome"]
	for _, k := range r.d.stm.tests {
		name := sample[k]
		ok, other := false, ""
		for _, l := range m.Lines[lines:] {
			txt := cxxrun.TextOf(l.Its)
			if !hasWord(txt, name) {
				continue
			}
			var os []string
			for o, t := range ts {
				if strings.Contains(txt, t) {
					os = append(os, o)
				}
			}
			if len(os) != 1 {
				continue
			}
			if os[0] == r.o.verdicts[k] {
				ok = true
			} else {
				other = os[0]
			}
		}
		if !ok {
			if other == "" {
				other = "nothing"
			}
			r.bad(m, "C16 C17", "verdict "+r.o.verdicts[k], "the verdict of %s is %s, but %s is reported", name, r.o.verdicts[k], other)
		}
		if other != "" {
			r.bad(m, "C16 C17", "verdict "+r.o.verdicts[k], "the verdict of %s is %s, but %s is also reported", name, r.o.verdicts[k], other)
		}
	}
}

func hasWord(s, w string) bool {
	for i := 0; ; {
		j := strings.Index(s[i:], w)
		if j < 0 {
			return false
		}
		j += i
		b := func(k int) bool {
			return k < 0 || k >= len(s) || !(s[k] >= 'a' && s[k] <= 'z' || s[k] >= 'A' && s[k] <= 'Z' || s[k] >= '0' && s[k] <= '9' || s[k] == '_')
		}
		if b(j-1) && b(j+len(w)) {
			return true
		}
		i = j + 1
	}
}

// statusWords are words that go with one status: a text with the word of another and without its own is that of the other.
var statusWords = map[string]string{"WAIT_START": "start", "WAIT_IN": "input", "WAIT_OUT": "output", "OFF_SCRIPT": "script", "TIMEOUT": "time", "FAIL": "unwanted", "BUG": "internal"}

// tables checks the helper functions on all outcomes and statuses.
func (d *driver) tables() {
	type enum struct {
		q, prop string
		names   []string
	}
	statuses := []string{"WAIT_START", "WAIT_IN", "WAIT_OUT", "OFF_SCRIPT", "TIMEOUT", "FAIL", "BUG"}
	for _, e := range []enum{{"rtcg::Outcome", "C16 C17", []string{"UNSET", "INC", "PASS", "FAIL"}}, {"rtcg::Status", "C17", statuses}} {
		by := map[string]string{}
		d.texts[e.q] = by
		for _, n := range e.names {
			func() {
				m := cxxrun.NewMachine(d.p)
				defer d.caught("the text of " + e.q + "::" + n)
				v, ok := m.EnumByName(e.q, n)
				if !ok {
					d.add(&mismatch{props: e.prop, key: "enum " + n, text: "there is no " + e.q + "::" + n})
					return
				}
				t, ok := m.TextOfEnum(v)
				if !ok {
					d.add(&mismatch{props: e.prop, key: "text " + e.q, text: "how a value of " + e.q + " is printed is not known"})
					return
				}
				for o, x := range by {
					if x == t {
						d.add(&mismatch{props: "C17", key: "texts " + o + " " + n, text: fmt.Sprintf("%s::%s and %s are both printed as %q", e.q, o, n, t)})
					}
				}
				by[n] = t
				if e.q == "rtcg::Status" {
					low := strings.ToLower(t)
					for o, w := range statusWords {
						if own := statusWords[n]; o != n && own != "" && strings.Contains(low, w) && !strings.Contains(low, own) {
							d.add(&mismatch{props: "C17", key: "text " + n, text: fmt.Sprintf("%s::%s is printed as %q, which is what %s means", e.q, n, t, o)})
						}
					}
				}
				if w := map[string]string{"PASS": "pass", "FAIL": "fail"}[n]; e.q == "rtcg::Outcome" && (w != "" && !strings.Contains(strings.ToLower(t), w) || n != "FAIL" && strings.Contains(t, "fail") || n != "PASS" && strings.Contains(t, "pass")) {
					d.add(&mismatch{props: "C17", key: "text " + n, text: fmt.Sprintf("%s::%s is printed as %q", e.q, n, t)})
				}
			}()
		}
	}
	if fs := d.p.Funcs["rtcg::status::exitCode"]; len(fs) == 1 {
		for _, n := range statuses {
			func() {
				m := cxxrun.NewMachine(d.p)
				defer d.caught("the exit code of " + n)
				v, _ := m.EnumByName("rtcg::Status", n)
				got := m.Rvalue(m.Call(fs[0], nil, []cxxrun.Value{v}, fs[0]))
				if want := map[string]int64{"FAIL": 1, "BUG": 2}[n]; got.K != cxxrun.Int || got.I != want {
					d.add(&mismatch{props: "C17", key: "exit " + n, text: fmt.Sprintf("the exit code of %s is %v, not %d", n, got, want), file: fs[0].File, line: fs[0].Line})
				}
			}()
		}
	}
	// the method that ends a test
	for q := range d.p.Records {
		f := d.p.Ender(q)
		if f == nil {
			continue
		}
		for _, from := range statuses {
			for _, to := range statuses {
				func() {
					m := cxxrun.NewMachine(d.p)
					defer d.caught("ending a test as " + to)
					o := m.NewObject(q)
					m.Blank(q, o)
					a, _ := m.EnumByName("rtcg::Status", from)
					b, _ := m.EnumByName("rtcg::Status", to)
					if !m.SetField(o, "status_", a) {
						return
					}
					m.Call(f, o, []cxxrun.Value{b}, f)
					got := m.GetField(o, "status_").S
					want := to
					switch {
					case !strings.HasPrefix(from, "WAIT_"):
						want = from
					case strings.HasPrefix(to, "WAIT_"):
						want = "BUG"
						if got == from {
							want = from
						}
					}
					if got != want {
						d.add(&mismatch{props: "C17", key: "end " + from + " " + to, text: fmt.Sprintf("ending a test as %s while it is %s makes it %s, not %s", to, from, got, want), file: f.File, line: f.Line})
					}
				}()
			}
		}
	}
}

func (d *driver) caught(what string) {
	switch x := recover().(type) {
	case nil:
	case *cxxrun.Undecided:
		d.add(&mismatch{props: "C17", key: what, text: what + ": " + x.Msg, file: x.File, line: x.Line})
	case *cxxrun.Pending:
		d.add(&mismatch{props: "C17", key: what, text: what + " depends on an input"})
	default:
		if os.Getenv("CHECKER_DEBUG") != "" {
			panic(x)
		}
		d.add(&mismatch{props: "C17", key: what, text: fmt.Sprint("the analysis crashed: ", x)})
	}
}

func runDrivers(c *Ctx, prop string) {
	r := c.R
	r.Rule("follows", map[bool]string{false: "in every configuration that can be reached, the driver does what the machine does",
		true: "in every configuration that can be reached, the timers are there with their periods and do what the machine does"}[prop == "C32"])
	r.Rule("parses", "clang understands the driver")
	ms, _ := c.family()
	ms = c.usable("follows", ms)
	if prop == "C32" {
		var ros []*member
		for _, m := range ms {
			if m.Variant == "Ros" {
				ros = append(ros, m)
			}
		}
		ms = ros
	}
	w, err := c.newWork()
	defer func() {
		if w != nil {
			w.close()
		}
	}()
	if err != nil {
		r.Undecided("parses", "clang", "", "%v", err)
		return
	}
	ds, err := w.drivers(ms)
	if err != nil {
		r.Undecided("parses", "driver", "", "%v", err)
	}
	parallel(len(ds), func(i int) {
		if ds[i].p != nil {
			ds[i].explore()
		}
	})
	bads := map[string]bool{}
	machines := familyMachines()
	for _, d := range ds {
		if d.p == nil {
			var ce *compileError
			if errors.As(d.err, &ce) {
				k, pos := w.source(d.m, ce.file, ce.line)
				r.Undecided("parses", k+": "+ce.msg, pos, "the driver of %s does not compile: %s", d.m.Name, ce.msg)
			} else {
				r.Undecided("parses", d.m.Name, "", "%v", d.err)
			}
			continue
		}
		ok := true
		var ks []string
		for k := range d.found {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			x := d.found[k]
			if !strings.Contains(x.props, prop) {
				continue
			}
			ok = false
			con, pos := "driver", ""
			if x.file != "" {
				con, pos = w.source(d.m, x.file, x.line)
			}
			key := con + ": " + x.key
			if bads[key] {
				continue
			}
			bads[key] = true
			r.Bad("follows", key, pos, "%s (driver of %s, shape %s)", x.text, sample[d.test], d.m.Name)
		}
		if ok {
			r.OK("follows", d.m.Name+" "+sample[d.test])
		}
		r.Count("runs", d.runs)
		r.Count("configurations", len(d.seen))
		r.Count("drivers", 1)
		for e := range d.events {
			r.OK("follows", d.m.Variant+" "+e)
		}
	}
	r.Count("machines", len(machines))
	c.testsCovered(ds)
}

// testsCovered reports tests of the shapes that have no driver.
func (c *Ctx) testsCovered(ds []*driver) {
	have := map[string]bool{}
	for _, d := range ds {
		have[d.m.Name+" "+d.test] = true
	}
	for s, ts := range familyMachines() {
		for t := range ts {
			for _, d := range ds {
				if d.m.Suite == s && !have[d.m.Name+" "+t] {
					c.R.Bad("follows", "test without driver", "", "%s: there is no driver for test %s", d.m.Name, sample[t])
					have[d.m.Name+" "+t] = true
				}
			}
		}
	}
}

type compileError struct {
	file, msg string
	line      int
}

func (e *compileError) Error() string { return fmt.Sprintf("%s:%d: %s", e.file, e.line, e.msg) }

const preHeaders = "#include <string>\n#include <iostream>\n#include <sstream>\n#include <vector>\n#include <map>\n#include <cstdlib>\n#include <cstring>\n#include <cstdint>\n#include <memory>\n#include <utility>\n"

// drivers loads the syntax trees of the drivers of the members; drivers with the same text are loaded once.
func (w *work) drivers(ms []*member) (ds []*driver, err error) {
	pre := filepath.Join(w.dir, "pre.h")
	if err := os.WriteFile(pre, []byte(preHeaders), 0o644); err != nil {
		return nil, err
	}
	if _, e, err := w.run(w.dir, "-std=c++11", "-x", "c++-header", "-o", pre+".pch", pre); err != nil {
		return nil, fmt.Errorf("precompiled headers: %v %s", err, e)
	}
	machines := familyMachines()
	seen := map[string]bool{}
	rtcg := map[string][]byte{}
	type job struct {
		m    *member
		test string
	}
	var jobs []job
	for _, m := range ms {
		if m.numericRos() {
			continue
		}
		if err := w.write(m); err != nil {
			return nil, err
		}
		ts, mains := m.drivers()
		for _, t := range ts {
			k := m.Suite + m.Variant + fmt.Sprint(m.overridden()) + mains[t].text()
			for _, f := range m.files {
				if strings.Contains(f.Path, "/rtcg/") || strings.Contains(f.Path, "/convert/") {
					k += f.Path + f.text()
				}
			}
			if seen[k] {
				continue
			}
			seen[k] = true
			jobs = append(jobs, job{m, t})
		}
	}
	ds = make([]*driver, len(jobs))
	var mu sync.Mutex
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		d := &driver{m: j.m}
		ds[i] = d
		for k := range machines[j.m.Suite] {
			if sample[k] == j.test {
				d.test = k
			}
		}
		if d.test == "" {
			d.err = fmt.Errorf("%s: there is a driver for %s, which is no test", j.m.Name, j.test)
			return
		}
		d.stm = machines[j.m.Suite][d.test]
		d.outs = d.stm.outChans()
		dir := filepath.Join(w.home(j.m), j.m.root())
		dump := func(src string) []byte {
			args := append([]string{"-std=c++11", "-include-pch", pre + ".pch"}, w.stubFlags(j.m)...)
			args = append(args, "-Isrc/"+j.test+"/include", "-Isrc/rtcg", "-Isrc/convert", "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", src)
			o, e, err := w.run(dir, args...)
			if err != nil && d.err == nil {
				d.err = fmt.Errorf("%s: %s", src, e)
				if xs := diags(e); len(xs) > 0 {
					d.err = &compileError{xs[0].file, xs[0].msg, xs[0].line}
				}
			}
			return o
		}
		var dumps [][]byte
		for _, f := range j.m.files {
			if filepath.Ext(f.Path) != ".cpp" || filepath.Base(f.Path) == "convert.cpp" || filepath.Base(f.Path) == "main.cpp" && filepath.Base(filepath.Dir(filepath.Dir(f.Path))) != j.test {
				continue
			}
			rel := strings.TrimPrefix(f.Path, j.m.root()+"/")
			if filepath.Base(f.Path) == "main.cpp" {
				dumps = append([][]byte{dump(rel)}, dumps...)
				continue
			}
			k := j.m.Variant + rel + f.text()
			mu.Lock()
			b := rtcg[k]
			mu.Unlock()
			if b == nil {
				b = dump(rel)
				mu.Lock()
				rtcg[k] = b
				mu.Unlock()
			}
			dumps = append(dumps, b)
		}
		if d.err != nil {
			return
		}
		p, err := cxxrun.Load(dumps...)
		if err != nil {
			d.err = err
			return
		}
		d.p = p
	})
	return ds, nil
}

package harness

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	simhttp "github.com/ti-mo/comfo/zsim/std/net/http"
)

// snap is one state of a cache: index 0 is the empty one, the others are answers of the unit.
type snap struct {
	idx int
	ans *Answer
}

// answers returns the unit's answers of one kind to one incarnation of the server, in order.
func (sw *SrvWorld) answers(cmd byte, inc int) []*Answer {
	var out []*Answer
	if inc >= len(sw.conns) {
		return nil
	}
	for _, a := range sw.unit.Answers {
		if a.Cmd == cmd && a.Conn == sw.conns[inc] {
			out = append(out, a)
		}
	}
	return out
}

func zeroVec(v []int64, s string) bool {
	for _, x := range v {
		if x != 0 {
			return false
		}
	}
	return s == ""
}

// candidates lists the snapshots (1-based, 0 is the empty one) that a read may have returned.
func candidates(o *SrvOp, ans []*Answer) []int {
	var out []int
	if zeroVec(o.Vec, o.Str) {
		out = append(out, 0)
	}
	for i, a := range ans {
		if a.Seq < o.RetSeq && eqVec(a.Vec, o.Vec) && (a.Str == o.Str || !utf8.ValidString(a.Str)) {
			out = append(out, i+1)
		}
	}
	return out
}

func describeAnswers(ans []*Answer, before uint64) string {
	var b []string
	for i, a := range ans {
		if a.Seq < before {
			b = append(b, fmt.Sprintf("#%d at %.3fs %v %q", i+1, float64(a.T)/1e9, a.Vec, a.Str))
		}
	}
	if len(b) > 6 {
		b = b[len(b)-6:]
	}
	return strings.Join(b, "; ")
}

// reads returns the successful reads of one kind by one incarnation, by invocation.
func (sw *SrvWorld) reads(kind string, inc int) []*SrvOp {
	var out []*SrvOp
	for _, o := range sw.ops {
		if o.Kind == kind && o.Inc == inc && o.ok() {
			out = append(out, o)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].InvSeq < out[j].InvSeq })
	return out
}

func (sw *SrvWorld) checkC08() {
	for _, o := range sw.ops {
		if _, read := kindCmd[o.Kind]; read && o.Done && !o.ok() && !o.Gone && !o.Refused && o.Dropped == "" {
			sw.Violate("failed", "%v: a read fails although it only needs what the server knows", o)
			return
		}
	}
	for inc := 0; inc <= sw.inc; inc++ {
		for _, kind := range getKinds {
			ans := sw.answers(kindCmd[kind], inc)
			reads := sw.reads(kind, inc)
			at := make([]int, len(reads))
			for i, o := range reads {
				sw.Judge("read")
				low := 0
				var lo *SrvOp
				for j := 0; j < i; j++ {
					if reads[j].RetSeq < o.InvSeq && at[j] > low {
						low, lo = at[j], reads[j]
					}
				}
				c := candidates(o, ans)
				if len(c) == 0 {
					sw.Violate("snapshot", "%v: these values are no answer of the unit (last ones: %s)", o, describeAnswers(ans, o.RetSeq))
					return
				}
				k := -1
				for _, x := range c {
					if x >= low {
						k = x
						break
					}
				}
				if k < 0 {
					sw.Violate("backwards", "%v: answer %v, older than answer %d seen by the earlier %v", o, c, low, lo)
					return
				}
				at[i] = k
			}
		}
	}
}

// steady reports whether the unit answered everything in [a,b].
func (sw *SrvWorld) steady(a, b int64) bool {
	if sw.outage(a-2*sec, b) {
		return false
	}
	for _, t := range sw.FaultTs {
		if t >= a-2*sec && t <= b {
			return false
		}
	}
	return true
}

var freshBound = map[string]int64{"GetTemps": 10 * sec, "GetFans": 10 * sec, "GetFanProfiles": 305 * sec, "GetBypass": 305 * sec, "GetBootInfo": 3605 * sec, "GetErrors": 3605 * sec}

func (sw *SrvWorld) checkC09() {
	const slack = 4 * sec
	for _, kind := range getKinds {
		ans := sw.answers(kindCmd[kind], 0)
		for _, o := range sw.reads(kind, 0) {
			b := freshBound[kind] + slack
			if !sw.steady(o.InvT-b, o.RetT) || kind == sw.cfg.Mute && o.InvT-b-2*sec < sw.cfg.MuteTo {
				continue
			}
			c := candidates(o, ans)
			if len(c) == 0 {
				continue // another property
			}
			sw.Judge("read")
			k := c[len(c)-1]
			from := sw.starts[0].BeginT
			if k > 0 {
				from = ans[k-1].T
			}
			if o.InvT-from > b {
				sw.Violate("stale", "%v: the values are %.1fs old, although the unit answered all the time", o, float64(o.InvT-from)/1e9)
				return
			}
		}
	}
}

func (sw *SrvWorld) checkC10() {
	for _, f := range sw.ops {
		if f.Kind != "FlushCache" || !f.Done {
			continue
		}
		cmds := flushCmds[int32(f.A)]
		if cmds == nil {
			sw.Judge("unknown kind")
			if f.ok() && f.Success {
				sw.Violate("unknown", "%v: success for an unknown kind", f)
			}
			continue
		}
		if f.Clean && !f.Gone && !f.Refused && f.Dropped == "" {
			sw.Judge("healthy flush")
			if !f.ok() || !f.Success {
				sw.Violate("outcome", "%v: no success although the unit answered everything", f)
			}
		}
		if f.ok() && f.Dropped == "" && !f.Gone {
			// whatever becomes of the others, each kind is asked for
			sw.Judge("kinds of a flush")
			for _, cmd := range cmds {
				if !sw.queried(cmd, f) {
					sw.Violate("fewer", "%v: returned although the unit was never asked for kind %02x in the meantime", f, cmd)
					return
				}
			}
		}
		if !f.ok() || !f.Success {
			continue
		}
		sw.Judge("flush")
		for _, cmd := range cmds {
			fresh := false
			for _, a := range sw.answers(cmd, f.Inc) {
				if (a.Seq > f.InvSeq || !f.Settled && a.T > f.InvT-3*sec) && a.Seq < f.RetSeq {
					fresh = true
				}
			}
			if !fresh {
				sw.Violate("dishonest", "%v: success, but the unit never answered a request of kind %02x in the meantime", f, cmd)
				return
			}
		}
		for _, kind := range getKinds {
			if !bytes.Contains(cmds, []byte{kindCmd[kind]}) {
				continue
			}
			ans := sw.answers(kindCmd[kind], f.Inc)
			for _, o := range sw.reads(kind, f.Inc) {
				if o.InvSeq < f.RetSeq {
					continue
				}
				c := candidates(o, ans)
				if len(c) == 0 {
					continue
				}
				sw.Judge("read after flush")
				k := c[len(c)-1]
				if k == 0 || ans[k-1].Seq < f.InvSeq && (f.Settled || ans[k-1].T < f.InvT-3*sec) {
					sw.Violate("stale", "%v: older than the flush %v", o, f)
					return
				}
			}
		}
	}
}

// queried: a request of a kind was written, or the attempt made, during an operation.
func (sw *SrvWorld) queried(cmd byte, o *SrvOp) bool {
	for _, e := range sw.conns[o.Inc].Log {
		if e.Kind == 'b' && e.Seq > o.InvSeq && e.Seq < o.RetSeq && bytes.Contains(e.Data, frame(cmd, nil)) {
			return true
		}
	}
	return false
}

// checkC10kinds counts the queries when nothing but flushes makes any.
func (sw *SrvWorld) checkC10kinds() {
	min, max := map[byte]int{}, map[byte]int{}
	from, to := sw.starts[0].ListenSeq, sw.W.Seq()
	for _, o := range sw.ops {
		if o.Kind != "FlushCache" {
			continue
		}
		if !o.Done || o.Gone || o.RetT > sw.starts[0].ListenT+4900*ms {
			return
		}
		for _, c := range flushCmds[int32(o.A)] {
			max[c]++
			if o.ok() && o.Success {
				min[c]++
			}
		}
	}
	got := map[byte]int{}
	for _, e := range sw.conns[0].Log {
		if e.Kind != 'b' || e.Seq < from || e.Seq > to || e.T > sw.starts[0].ListenT+4900*ms {
			continue
		}
		for _, k := range getKinds {
			if bytes.Contains(e.Data, frame(kindCmd[k], nil)) {
				got[kindCmd[k]]++
			}
		}
	}
	sw.Judge("query count")
	for _, k := range getKinds {
		c := kindCmd[k]
		if got[c] < min[c] || got[c] > max[c] {
			sw.Violate("kinds", "the flushes asked for %d to %d queries of %s, the unit was sent %d", min[c], max[c], k, got[c])
			return
		}
	}
}

// execsOf lists the unit's executions of a command.
func (sw *SrvWorld) execsOf(cmd byte) []*Exec {
	var out []*Exec
	for _, x := range sw.unit.Execs {
		if x.Cmd == cmd {
			out = append(out, x)
		}
	}
	return out
}

func within(o *SrvOp, seq uint64) bool { return seq > o.InvSeq && (!o.Done || seq < o.RetSeq) }

// maybe: the outcome leaves open whether the request took effect, or when.
func (o *SrvOp) maybe() bool { return !o.ok() && o.Code != "invalid_argument" && !o.Refused }

func (sw *SrvWorld) lin(what, init string, fin string, ops []*LinOp, panel func(PanelEv) func(string) []string) {
	for _, p := range sw.panel {
		if st := panel(p); st != nil {
			ops = append(ops, &LinOp{Call: p.Seq, Ret: p.Seq, Desc: fmt.Sprintf("#%d panel change at %.3fs", p.Seq, float64(p.T)/1e9), Step: st})
		}
	}
	ops = append(ops, &LinOp{Call: linInf - 1, Ret: linInf, Desc: "final state", Step: func(s string) []string {
		if s == fin {
			return []string{s}
		}
		return nil
	}})
	if len(ops) > 1 {
		sw.Judge("history")
	}
	ok, unk := linearizable(init, ops)
	if unk {
		sw.Inconclusive++
		return
	}
	if !ok {
		var d []string
		sort.SliceStable(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
		for _, o := range ops {
			d = append(d, o.Desc)
		}
		var ex []string
		for _, x := range sw.unit.Execs {
			ex = append(ex, fmt.Sprintf("#%d at %.3fs %02x %v", x.Seq, float64(x.T)/1e9, x.Cmd, x.Data))
		}
		sw.Violate(what, "no sequential order explains this history (initially %v, finally %v):\n  %s\n  the unit executed: %s", []byte(init), []byte(fin), strings.Join(d, "\n  "), strings.Join(ex, "; "))
	}
}

func one(b byte) []string { return []string{string([]byte{b})} }

func (sw *SrvWorld) checkC11() {
	var ops []*LinOp
	for _, o := range sw.ops {
		if o.Kind != "SetFanSpeed" || o.Refused || !o.valid() {
			continue
		}
		if !sw.outcome(o) {
			return
		}
		l := &LinOp{Call: o.InvSeq, Ret: o.RetSeq, Desc: o.String()}
		target := func(m int) int {
			switch {
			case o.A != 0:
				return int(o.A)
			case o.Rel:
				return m + 1
			}
			return m - 1
		}
		switch {
		case o.ok():
			l.Step = func(s string) []string {
				m := int(s[0])
				t := target(m)
				if t < 1 || t > 4 || int64(o.Orig) != int64(m) || int64(o.Target) != int64(t) || o.Modified != (t != m) {
					return nil
				}
				return one(byte(t))
			}
		case o.Code == "invalid_argument":
			l.Step = func(s string) []string {
				if t := target(int(s[0])); t >= 1 && t <= 4 {
					return nil
				}
				return []string{s}
			}
		default:
			l.Maybe, l.Ret = true, linInf
			l.Step = func(s string) []string {
				t := target(int(s[0]))
				if t < 1 || t > 4 {
					return nil
				}
				return one(byte(t))
			}
		}
		ops = append(ops, l)
		if o.ok() && o.Modified {
			sw.Judge("confirmed change")
			if m := sw.confirmed(o); m != "" {
				sw.Violate("unconfirmed", "%v: %s", o, m)
				return
			}
			for _, kind := range []string{"GetFanProfiles", "GetFans"} {
				if m := sw.visible(o, cmdSetSpeed, kind); m != "" {
					sw.Violate("invisible", "%v: %s", o, m)
					return
				}
			}
		}
	}
	sw.lin("speed", string([]byte{sw.init.Mode}), string([]byte{sw.unit.Mode}), ops, func(p PanelEv) func(string) []string {
		if p.Pre.Mode == p.Post.Mode {
			return nil
		}
		return func(s string) []string {
			if s[0] != p.Pre.Mode {
				return nil
			}
			return one(p.Post.Mode)
		}
	})
}

// outcome checks that a valid request met no error of its own making: while unit and line are healthy it succeeds.
func (sw *SrvWorld) outcome(o *SrvOp) bool {
	if !o.Done || !o.Clean || o.Gone || o.Refused || o.ok() || o.Code == "invalid_argument" || sw.cfg.Ramp || sw.cfg.Stalls || len(sw.panel) > 0 {
		return true
	}
	sw.Violate("outcome", "%v: an error although unit and line were healthy", o)
	return false
}

// confirmed: the unit executed the new mode and afterwards reported both fans at its percentages.
func (sw *SrvWorld) confirmed(o *SrvOp) string {
	why := "the unit executed no such command in the meantime"
	for _, x := range sw.execsOf(cmdSetSpeed) {
		if !within(o, x.Seq) || len(x.Data) != 1 || uint32(x.Data[0]) != o.Target || x.Data[0] < 1 || x.Data[0] > 4 {
			continue
		}
		why = "the unit never reported its fans at the new percentages before the request succeeded"
		for _, a := range sw.answers(cmdFans, o.Inc) {
			if a.Seq > x.Seq && a.Seq < o.RetSeq && a.Payload[0] == x.Post.In[x.Data[0]-1] && a.Payload[1] == x.Post.Out[x.Data[0]-1] {
				return ""
			}
		}
	}
	return why
}

// visible checks that reads which start after a successful change show a snapshot taken after it.
func (sw *SrvWorld) visible(o *SrvOp, cmd byte, kind string) string {
	var at uint64
	for _, x := range sw.execsOf(cmd) {
		if within(o, x.Seq) {
			at = x.Seq // the last one within: no later snapshot may be required than the first after its own
			break
		}
	}
	if at == 0 {
		return ""
	}
	if !o.Clean {
		return ""
	}
	ans := sw.answers(kindCmd[kind], o.Inc)
	for _, r := range sw.reads(kind, o.Inc) {
		if r.InvSeq < o.RetSeq {
			continue
		}
		c := candidates(r, ans)
		if len(c) == 0 {
			continue
		}
		sw.Judge("read after change")
		k := c[len(c)-1]
		if k == 0 || ans[k-1].Seq < at {
			return fmt.Sprintf("the later read %v still shows values from before", r)
		}
	}
	return ""
}

func (sw *SrvWorld) checkC12() {
	var ops []*LinOp
	for _, o := range sw.ops {
		if o.Kind != "SetFanProfile" || o.Refused || !o.valid() {
			continue
		}
		if !sw.outcome(o) {
			return
		}
		l := &LinOp{Call: o.InvSeq, Ret: o.RetSeq, Desc: o.String()}
		i, v := int(o.A-1), byte(o.B)
		apply := func(s string) []string {
			b := []byte(s)
			b[i], b[4+i] = v, v
			return []string{string(b)}
		}
		switch {
		case o.ok():
			l.Step = func(s string) []string {
				if int64(o.Orig) != int64(s[i]) || int64(o.Target) != int64(v) || o.Modified != (s[i] != v) {
					return nil
				}
				if !o.Modified {
					return []string{s}
				}
				return apply(s)
			}
		case o.Code == "invalid_argument":
			sw.Violate("refused", "%v: a valid request was refused", o)
			return
		default:
			l.Maybe, l.Ret, l.Step = true, linInf, apply
		}
		ops = append(ops, l)
		if o.ok() && o.Modified {
			if m := sw.visible(o, cmdSetProfiles, "GetFanProfiles"); m != "" {
				sw.Violate("invisible", "%v: %s", o, m)
				return
			}
		}
	}
	sw.lin("profile", profState(sw.init.In, sw.init.Out), profState(sw.unit.In, sw.unit.Out), ops, func(p PanelEv) func(string) []string {
		a, b := profState(p.Pre.In, p.Pre.Out), profState(p.Post.In, p.Post.Out)
		if a == b {
			return nil
		}
		return func(s string) []string {
			if s != a {
				return nil
			}
			return []string{b}
		}
	})
}

func (sw *SrvWorld) checkC13() {
	var ops []*LinOp
	for _, o := range sw.ops {
		if o.Kind != "SetComfortTemp" || o.Refused || !o.valid() {
			continue
		}
		if !sw.outcome(o) {
			return
		}
		l := &LinOp{Call: o.InvSeq, Ret: o.RetSeq, Desc: o.String()}
		raw := byte((o.A + 20) * 2)
		switch {
		case o.ok():
			l.Step = func(s string) []string {
				if int64(int32(o.Orig)) != int64(s[0])/2-20 || o.Target != o.A || o.Modified != (s[0] != raw) {
					return nil
				}
				return one(raw)
			}
		case o.Code == "invalid_argument":
			sw.Violate("refused", "%v: a valid request was refused", o)
			return
		default:
			l.Maybe, l.Ret, l.Step = true, linInf, func(string) []string { return one(raw) }
		}
		ops = append(ops, l)
		if o.ok() && o.Modified {
			if m := sw.visible(o, cmdSetComfort, "GetTemps"); m != "" {
				sw.Violate("invisible", "%v: %s", o, m)
				return
			}
		}
	}
	sw.lin("comfort", one(sw.init.Comfort)[0], one(sw.unit.Comfort)[0], ops, func(p PanelEv) func(string) []string {
		if p.Pre.Comfort == p.Post.Comfort {
			return nil
		}
		return func(s string) []string {
			if s[0] != p.Pre.Comfort {
				return nil
			}
			return one(p.Post.Comfort)
		}
	})
}

// asked says whether a request explains an execution. After a fault, the late acknowledgement of an earlier command
// can be taken for that of a later one, which is then executed shortly after its request returned.
func (sw *SrvWorld) asked(o *SrvOp, x *Exec) bool {
	if o.Refused || !o.valid() || o.Code == "invalid_argument" || o.ok() && !o.Modified {
		return false
	}
	late := o.ok() && x.Seq > o.RetSeq
	if x.Seq < o.InvSeq || late && (!sw.cfg.Late || o.Clean || x.T > o.RetT+sec) {
		return false
	}
	// the answer on which the server based its decision may have been a late one, too
	lax := sw.cfg.Late && !o.Clean
	switch o.Kind {
	case "SetFanSpeed":
		if x.Cmd != cmdSetSpeed || len(x.Data) != 1 {
			return false
		}
		if lax && o.A == 0 {
			return x.Data[0] >= 1 && x.Data[0] <= 4 && (!o.ok() || uint32(x.Data[0]) == o.Target)
		}
		t := int(x.Pre.Mode)
		switch {
		case o.A != 0:
			t = int(o.A)
		case o.Rel:
			t++
		default:
			t--
		}
		return int(x.Data[0]) == t && t >= 1 && t <= 4
	case "SetFanProfile":
		if x.Cmd != cmdSetProfiles || len(x.Data) != 8 {
			return false
		}
		in, out := x.Pre.In, x.Pre.Out
		in[o.A-1], out[o.A-1] = byte(o.B), byte(o.B)
		if lax {
			return x.Post.In[o.A-1] == byte(o.B) && x.Post.Out[o.A-1] == byte(o.B)
		}
		return x.Post.In == in && x.Post.Out == out
	case "SetComfortTemp":
		return x.Cmd == cmdSetComfort && len(x.Data) == 1 && uint32(x.Data[0]) == (o.A+20)*2
	}
	return false
}

// match finds a matching that covers all of n left nodes; it returns the first one it cannot cover, or -1.
func match(n, m int, edge func(i, j int) bool) int {
	to := make([]int, m)
	for j := range to {
		to[j] = -1
	}
	for i := 0; i < n; i++ {
		seen := make([]bool, m)
		var try func(i int) bool
		try = func(i int) bool {
			for j := 0; j < m; j++ {
				if seen[j] || !edge(i, j) {
					continue
				}
				seen[j] = true
				if to[j] < 0 || try(to[j]) {
					to[j] = i
					return true
				}
			}
			return false
		}
		if !try(i) {
			return i
		}
	}
	return -1
}

// checkExecs: every execution was asked for, every successful change was executed, each exactly once.
func (sw *SrvWorld) checkExecs() {
	var sets []*SrvOp
	var must []*SrvOp
	for _, o := range sw.ops {
		if isSet(o.Kind) {
			sets = append(sets, o)
			if o.ok() && o.Modified && (!sw.cfg.Late || o.Clean) {
				must = append(must, o)
			}
		}
	}
	ex := sw.unit.Execs
	for range ex {
		sw.Judge("execution")
	}
	if i := match(len(ex), len(sets), func(i, j int) bool { return sw.asked(sets[j], ex[i]) }); i >= 0 {
		x := ex[i]
		sw.Violate("unasked", "the unit executed %02x %v at %.3fs (#%d) with settings mode %d in %v out %v comfort %d, which no request (left) explains; set requests:\n  %s", x.Cmd, x.Data, float64(x.T)/1e9, x.Seq, x.Pre.Mode, x.Pre.In, x.Pre.Out, x.Pre.Comfort, opList(sets))
		return
	}
	if i := match(len(must), len(ex), func(i, j int) bool { return sw.asked(must[i], ex[j]) }); i >= 0 {
		sw.Violate("unexecuted", "%v: reported as done, but the unit did not execute it (once); set requests:\n  %s", must[i], opList(sets))
	}
}

func opList(ops []*SrvOp) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.String())
	}
	return strings.Join(s, "\n  ")
}

// refused checks that every bad request was answered, with an error.
func (sw *SrvWorld) refused() {
	for _, o := range sw.ops {
		if !o.Done || o.valid() || o.Kind == "FlushCache" {
			continue
		}
		sw.Judge("bad request")
		if o.ok() {
			sw.Violate("accepted", "%v: should have been refused", o)
			return
		}
		if o.Dropped != "" && !o.Gone {
			sw.Violate("unanswered", "%v: should have been answered with an error", o)
			return
		}
	}
}

func (sw *SrvWorld) checkC14() {
	if sw.refused(); len(sw.Viols) > 0 {
		return
	}
	sw.checkExecs()
	if len(sw.Viols) == 0 {
		sw.checkC11()
	}
	if len(sw.Viols) == 0 {
		sw.checkC12()
	}
	if len(sw.Viols) == 0 {
		sw.checkC13()
	}
}

func (sw *SrvWorld) checkC15() {
	type iv struct{ a, b int64 }
	var busy []iv
	var act []int64
	for _, o := range sw.ops {
		if !o.Done {
			continue
		}
		from := o.InvT
		if o.Upload != nil {
			from += o.Upload.Dur
		}
		busy = append(busy, iv{from, o.RetT})
		act = append(act, o.InvT, o.RetT)
	}
	for _, c := range sw.conns {
		for _, e := range c.Log {
			switch e.Kind {
			case 'W', 'w', 'b', 'R', 'e':
				act = append(act, e.T)
			}
		}
	}
	sort.Slice(act, func(i, j int) bool { return act[i] < act[j] })
	for i := 1; i < len(act); i++ {
		if act[i]-act[i-1] <= 2500*ms {
			continue
		}
		for _, v := range busy {
			if v.a <= act[i-1] && v.b >= act[i] {
				sw.Violate("idle", "the server does nothing between %.3fs and %.3fs although a request is pending", float64(act[i-1])/1e9, float64(act[i])/1e9)
				return
			}
		}
	}
	for _, o := range sw.ops {
		if !o.Done || !o.Lone || o.Gone {
			continue
		}
		sw.Judge("lone request")
		if o.Dropped != "" || o.Refused {
			sw.Violate("dropped", "%v: no response", o)
			return
		}
		b := 5 * sec
		if isSet(o.Kind) || o.Kind == "FlushCache" {
			b = 60 * sec
		}
		if o.RetT-o.InvT > b {
			sw.Violate("slow", "%v: took %.1fs", o, float64(o.RetT-o.InvT)/1e9)
			return
		}
	}
}

// finalProbe makes every kind of valid request against a healthy server and expects success.
func (sw *SrvWorld) finalProbe() {
	w := sw.W
	if sw.lw.dead[0] {
		// the connection itself is lost: requests are still answered
		for _, k := range getKinds {
			o := &SrvOp{Client: 99, Kind: k}
			sw.do(o)
			if !o.ok() {
				sw.Violate("broken", "%v: reads must still be answered", o)
				return
			}
		}
		sw.do(&SrvOp{Client: 99, Kind: "FlushCache", A: uint32(flushKinds[w.Choose("op", len(flushKinds))])})
		sw.do(&SrvOp{Client: 99, Kind: "SetFanSpeed", A: uint32(1 + w.Choose("op", 4))})
		return
	}
	u := sw.unit
	for i := 0; i < 20 && (!sw.settled() || sw.conns[len(sw.conns)-1].Pending()); i++ {
		if sw.conns[len(sw.conns)-1].Pending() {
			// nobody reads the line since it reported an error: the next exchange meets what has arrived since
			sw.do(&SrvOp{Client: 99, Kind: "FlushCache"})
		}
		sw.sleep(1300 * ms)
	}
	probe := []*SrvOp{
		{Kind: "FlushCache", A: uint32(flushKinds[5])},
		{Kind: "SetFanSpeed", A: uint32(u.Mode%4) + 1},
		{Kind: "SetFanProfile", A: uint32(1 + w.Choose("op", 4)), B: uint32(15 + w.Choose("op", 86))},
		{Kind: "SetComfortTemp", A: uint32(12 + w.Choose("op", 17))},
		{Kind: "FlushCache", A: uint32(flushKinds[w.Choose("op", 6)])},
	}
	for _, k := range getKinds {
		probe = append(probe, &SrvOp{Kind: k})
	}
	for i := len(probe) - 1; i > 0; i-- {
		j := i - w.Choose("op", i+1)
		probe[i], probe[j] = probe[j], probe[i]
	}
	for _, o := range probe {
		o.Client = 99
		o.JSON = w.Choose("op", 2) == 1
		sw.do(o)
		sw.Judge("request after faults")
		if !o.ok() || o.Kind == "FlushCache" && !o.Success {
			sw.Violate("broken", "%v: fails although unit and line are healthy again", o)
			return
		}
	}
	if sw.proc.Dead {
		return
	}
	// what was asked by clients that gave up may still be waiting for its turn
	for end := w.Now() + 600*sec; simhttp.Active(sw.api) > 0 && w.Now() < end; {
		sw.sleep(sec)
	}
	sw.sleep(3 * sec)
	sw.Judge("tasks")
	if n := w.Tasks(sw.proc); n > 12 {
		sw.Violate("tasks", "%d tasks of the server are alive after the last response: %v", n, w.Blocked())
	}
}

// finalState checks that after a flush the API serves the unit's settings.
func (sw *SrvWorld) finalState() {
	if sw.lw.dead[0] {
		return
	}
	f := &SrvOp{Client: 99, Kind: "FlushCache", A: uint32(flushKinds[5])}
	sw.do(f)
	if !f.ok() || !f.Success {
		return
	}
	p, t := &SrvOp{Client: 99, Kind: "GetFanProfiles"}, &SrvOp{Client: 99, Kind: "GetTemps"}
	sw.do(p)
	sw.do(t)
	if !p.ok() || !t.ok() {
		return
	}
	sw.Judge("final state")
	u := sw.unit
	for i := 0; i < 4; i++ {
		if p.Vec[i] != int64(u.Out[i]) || p.Vec[4+i] != int64(u.In[i]) || p.Vec[11] != int64(u.Mode) {
			sw.Violate("state", "%v does not show the unit's settings: mode %d in %v out %v", p, u.Mode, u.In, u.Out)
			return
		}
	}
	if t.Vec[0] != int64(u.Comfort)/2-20 {
		sw.Violate("state", "%v does not show the unit's comfort temperature %d", t, int64(u.Comfort)/2-20)
	}
}

// checkRestarts: a restarted server serves what the unit told this very incarnation.
func (sw *SrvWorld) checkRestarts() {
	for inc := 1; inc <= sw.inc; inc++ {
		for _, kind := range getKinds {
			ans := sw.answers(kindCmd[kind], inc)
			for _, o := range sw.reads(kind, inc) {
				sw.Judge("read after restart")
				c := candidates(o, ans)
				if len(c) == 0 {
					sw.Violate("restart", "%v: these values were never reported to the restarted server", o)
					return
				}
				if c[len(c)-1] == 0 && sw.steady(sw.starts[inc].BeginT, o.RetT) {
					sw.Violate("restart", "%v: the restarted server serves nothing although the unit answers", o)
					return
				}
			}
		}
	}
}

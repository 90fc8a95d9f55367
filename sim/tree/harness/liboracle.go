package harness

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/ti-mo/comfo/zsim/link"
)

// delivered returns what reached the host on a line from time t (or right after event from) up to event `to`.
func delivered(log []link.Ev, t int64, from, to uint64) []byte {
	var b []byte
	for _, e := range log {
		if e.Seq >= to {
			break
		}
		if e.Kind == 'D' && (e.T >= t || e.Seq > from && from > 0) {
			b = append(b, e.Data...)
		}
	}
	return b
}

// wrote finds the completed writes of exactly these bytes during an operation: the one by the operation's own task
// if there is one, else all that may have been its request.
func wrote(log []link.Ev, o *LibOp, want []byte) (all []*link.Ev) {
	for i := range log {
		e := &log[i]
		if e.Seq <= o.InvSeq || e.Seq >= o.RetSeq || e.Kind != 'W' || !bytes.Contains(e.Data, want) {
			continue
		}
		if e.Task == o.Task {
			return []*link.Ev{e}
		}
		all = append(all, e)
	}
	if len(all) > 0 {
		return all
	}
	// in pieces
	var s []byte
	for i := range log {
		e := &log[i]
		if e.Seq <= o.InvSeq || e.Seq >= o.RetSeq || (e.Kind != 'W' && e.Kind != 'w') {
			continue
		}
		s = append(s, e.Data...)
		if bytes.HasSuffix(s, want) && e.Kind == 'W' {
			all = append(all, e)
		}
	}
	return all
}

// answer returns the bytes that may have answered a request: what reached the host from the request on (and what
// was waiting for it) until the host wrote something else or the call returned.
func (lw *LibWorld) answer(o *LibOp, wr *link.Ev) []byte {
	log := lw.conns[o.Conn].Log
	to, from := o.RetSeq, staleFrom(log, wr)
	prev := uint64(1)
	for _, e := range log {
		if e.Seq < wr.Seq && (e.Kind == 'W' || e.Kind == 'w') {
			prev = e.Seq
		}
		if e.Seq > wr.Seq && e.Kind == 'b' {
			to = min(to, e.Seq)
			break
		}
	}
	if lw.cfg.Stalls != "" {
		// a call may have been listening for a while before it wrote its request, and the
		// bytes read last before that may not have been passed on yet
		var b []byte
		for _, e := range log {
			if e.Kind != 'R' || e.Seq >= to {
				continue
			}
			if e.Seq < prev {
				b = b[:0]
			}
			b = append(b, e.Data...)
		}
		return b
	}
	return delivered(log, wr.T, from, to)
}

// staleFrom is the event from which on bytes delivered before a request may answer it: nobody reads a connection
// before its first exchange and after a read error. 0: only bytes delivered after the request.
func staleFrom(log []link.Ev, wr *link.Ev) uint64 {
	from, gap, drained := uint64(1), true, int64(-1)
	in, out := 0, 0
	type span struct {
		seq uint64
		end int
	}
	var unread []span
	for _, e := range log {
		if e.Seq >= wr.Seq {
			break
		}
		switch e.Kind {
		case 'e':
			from, gap, drained = e.Seq, true, -1
			for _, u := range unread {
				if u.end > out {
					// queued behind the error: still there for the next reader
					from = u.seq - 1
					break
				}
			}
		case 'D':
			in += len(e.Data)
			unread = append(unread, span{e.Seq, in})
		case 'R':
			if out += len(e.Data); in == out && drained < 0 {
				drained = e.T
			}
		}
	}
	if first := firstRequest(log); first != nil && first.Seq >= wr.Seq {
		return 1
	}
	if gap && drained < 0 && in == 0 {
		return 0
	}
	if gap && (drained < 0 || drained >= wr.T) {
		return from
	}
	return 0
}

func firstRequest(log []link.Ev) *link.Ev {
	for i := range log {
		if log[i].Kind == 'W' || log[i].Kind == 'w' {
			return &log[i]
		}
	}
	return nil
}

func (o *LibOp) isRead() bool {
	return o.Cmd != 0 && readCmd(o.Cmd) || o.Kind == "QueryPacket" && o.Expect
}

// genuine checks C01 for one successful read.
func (lw *LibWorld) genuine(o *LibOp) string {
	log := lw.conns[o.Conn].Log
	req := frame(o.Cmd, o.Data)
	wrs := wrote(log, o, req)
	if len(wrs) == 0 {
		return fmt.Sprintf("%v: success although its request was never completely written", o)
	}
	cands, n := 0, 0
	for _, wr := range wrs {
		b := lw.answer(o, wr)
		n += len(b)
		if explains(o, b, &cands) {
			return ""
		}
	}
	return fmt.Sprintf("%v: no valid answer frame with these values was delivered while the request was outstanding (%d answer frames of its type were, %d bytes in all)", o, cands, n)
}

// explains says whether some frame in b carries what the operation returned.
func explains(o *LibOp, b []byte, cands *int) bool {
	for i := 0; i < 2*len(b); i++ {
		cmd, data, n := frameAt(b, i/2)
		if i%2 == 1 {
			// a lone escape character in the payload may also be ignored
			cmd, data, n = frameAtLenient(b, i/2)
		}
		if n == 0 || cmd != o.Cmd+1 {
			continue
		}
		*cands++
		if o.Kind == "QueryPacket" {
			if o.OutCmd == cmd && bytes.Equal(o.Out, data) {
				return true
			}
			continue
		}
		if v, s, ok := decode(o.Cmd, data); ok && eqVec(v, o.Vec) && s == o.Str {
			return true
		}
	}
	return false
}

func (lw *LibWorld) checkC01() {
	for _, o := range lw.ops {
		if !o.Done || o.Err != nil || !o.isRead() {
			continue
		}
		lw.Judge("read")
		if m := lw.genuine(o); m != "" {
			lw.Violate("read", "%s", m)
		}
	}
}

// correct checks that an operation on a healthy line succeeded with the right effect.
func (lw *LibWorld) correct(o *LibOp, strictExec bool) string {
	u := lw.units[o.Conn]
	if o.bad() {
		return ""
	}
	if !o.Done {
		return fmt.Sprintf("%v", o)
	}
	if o.Err != nil {
		return fmt.Sprintf("%v although the line was healthy", o)
	}
	within := func(s uint64) bool { return s > o.InvSeq && s < o.RetSeq }
	switch {
	case o.Kind == "QueryPacket":
		ok := false
		for _, x := range u.Seen {
			if within(x.Seq) && x.Cmd == o.Cmd && bytes.Equal(x.Data, o.Data) {
				ok = true
			}
		}
		if !ok {
			return fmt.Sprintf("%v: the unit did not receive the request as given", o)
		}
		if o.Expect && (o.OutCmd != o.Cmd+1 || !bytes.Equal(o.Out, o.Data)) {
			return fmt.Sprintf("%v: sent %x and the unit answered %x with the same payload", o, o.Data, o.Cmd+1)
		}
	case o.isRead():
		for _, a := range u.Answers {
			if within(a.Seq) && a.Cmd == o.Cmd && eqVec(a.Vec, o.Vec) && a.Str == o.Str {
				return ""
			}
		}
		return fmt.Sprintf("%v: these are not the values the unit answered with", o)
	case o.Kind == "SetFanProfile":
		m := o.Args[0]
		for _, x := range u.Execs {
			if within(x.Seq) && x.Cmd == cmdSetProfiles && x.Post.In[m] == byte(o.Args[1]) && x.Post.Out[m] == byte(o.Args[1]) {
				return ""
			}
		}
		return fmt.Sprintf("%v: the unit did not set that profile", o)
	default:
		cmd, data := o.setFrame()
		for _, x := range u.Execs {
			if within(x.Seq) && x.Cmd == cmd && bytes.Equal(x.Data, data) {
				return ""
			}
		}
		return fmt.Sprintf("%v: the unit did not execute it", o)
	}
	return ""
}

func (lw *LibWorld) execCounts() {
	for i, u := range lw.units {
		want := 0
		for _, o := range lw.ops {
			if o.Conn == i && !o.bad() && (o.Kind == "SetFanProfile" || !o.isRead() && o.Kind != "QueryPacket") {
				want++
			}
		}
		if len(u.Execs) != want {
			lw.Violate("exec-count", "%s executed %d set commands, %d were requested", u.Name, len(u.Execs), want)
		}
	}
}

func (lw *LibWorld) checkC02() {
	for _, o := range lw.ops {
		lw.Judge(o.Kind)
		if m := lw.correct(o, true); m != "" {
			lw.Violate("healthy-exchange", "%s", m)
		}
	}
	lw.execCounts()
}

func (lw *LibWorld) checkC03() {
	for _, o := range lw.ops {
		if !o.Done {
			continue
		}
		log := lw.conns[o.Conn].Log
		if o.bad() {
			lw.Judge("bad argument")
			if o.Err == nil {
				lw.Violate("bad-accepted", "%v: argument outside the documented range was accepted", o)
			}
			for _, e := range log {
				if e.Seq > o.InvSeq && e.Seq < o.RetSeq && e.Kind == 'b' && (e.Task == o.Task || lw.cfg.Clients == 1) {
					lw.Violate("bad-written", "%v: something was written to the line for a refused argument", o)
				}
			}
			continue
		}
		isSet := o.Kind == "SetFanProfile"
		if cmd, _ := o.setFrame(); cmd != 0 {
			isSet = true
		}
		if o.Kind == "QueryPacket" && !o.Expect {
			isSet = true
		}
		if !isSet || o.Err != nil {
			continue
		}
		lw.Judge("set")
		var wrs []*link.Ev
		switch {
		case o.Kind == "QueryPacket":
			wrs = wrote(log, o, frame(o.Cmd, o.Data))
		case o.Kind == "SetFanProfile":
			// any complete set frame that sets this profile
			var all []byte
			for i := range log {
				e := &log[i]
				if e.Seq <= o.InvSeq || e.Seq >= o.RetSeq || (e.Kind != 'W' && e.Kind != 'w') {
					continue
				}
				all = append(all, e.Data...)
				for k := range all {
					if cmd, d, n := frameAt(all, k); n > 0 && cmd == cmdSetProfiles && len(d) == 8 {
						in := []byte{d[3], d[4], d[5], d[7]}
						if in[o.Args[0]] == byte(o.Args[1]) {
							wrs = append(wrs, e)
							all = nil
							break
						}
					}
				}
			}
		default:
			cmd, data := o.setFrame()
			wrs = wrote(log, o, frame(cmd, data))
		}
		if len(wrs) == 0 {
			lw.Violate("set-unwritten", "%v: success although its request was never completely written", o)
			continue
		}
		acked, b := false, []byte(nil)
		for _, wr := range wrs {
			b = lw.answer(o, wr)
			acked = acked || bytes.Contains(b, []byte{esc, cACK})
		}
		if !acked {
			lw.Violate("set-unacked", "%v: success although no acknowledgement arrived after the request (delivered since: %x)", o, clip(b))
			continue
		}
		for i := range log {
			if e := &log[i]; e.Kind == 'w' && e.Seq > o.InvSeq && e.Seq < o.RetSeq && e.Task == o.Task {
				lw.Violate("set-write-failed", "%v: success although a write of this call failed", o)
				break
			}
		}
	}
}

func clip(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

// requests counts the requests the host wrote on a line within a window of events.
func (lw *LibWorld) checkC04() {
	const eps = 5 * ms
	// progress: while a call is pending, something ends at least once per second
	type pt struct {
		t   int64
		d   int
		seq uint64
		s   string
	}
	var pts []pt
	for _, o := range lw.ops {
		pts = append(pts, pt{o.InvT, 1, o.InvSeq, o.String()})
		if o.Done {
			pts = append(pts, pt{o.RetT, -1, o.RetSeq, ""})
		}
	}
	for _, c := range lw.conns {
		for _, e := range c.Log {
			if (e.Kind == 'W' || e.Kind == 'b') && bytes.Contains(e.Data, []byte{esc, cSTART}) || e.Kind == 'w' {
				pts = append(pts, pt{e.T, 0, e.Seq, ""})
			}
		}
	}
	sortBy(pts, func(a, b pt) bool { return a.seq < b.seq })
	pend, last := 0, int64(0)
	for _, p := range pts {
		if pend > 0 && p.t-last > sec+eps {
			lw.Violate("deadline", "calls were pending for %.3fs (from %.3fs) without a request being written or a call returning", float64(p.t-last)/1e9, float64(last)/1e9)
		}
		if p.d < 0 {
			lw.Judge("progress")
		}
		if p.d <= 0 || pend == 0 {
			last = p.t // a call that joins the queue is no progress
		}
		pend += p.d
	}
	if lw.cfg.Clients == 1 {
		for _, o := range lw.ops {
			if !o.Done {
				continue
			}
			lw.Judge(o.Kind)
			n, begun, writing := int64(0), int64(0), int64(0)
			for _, e := range lw.conns[o.Conn].Log {
				if e.Seq <= o.InvSeq || e.Seq >= o.RetSeq {
					continue
				}
				switch e.Kind {
				case 'b':
					begun = e.T
					if !bytes.Equal(e.Data, []byte{esc, cACK}) {
						n++
					}
				case 'W', 'w':
					writing += e.T - begun // the deadline starts when the request is written
				}
			}
			if o.RetT-o.InvT > n*sec+writing+eps {
				lw.Violate("deadline", "%v: took %.3fs for %d exchanges", o, float64(o.RetT-o.InvT)/1e9, n)
			}
		}
	}
}

// hostItem is one thing the host put on the line.
type hostItem struct {
	ack      bool
	cmd      byte
	data     []byte
	beg, end uint64
	begT     int64
	endT     int64
}

// hostItems splits what the host wrote into frames and acknowledgements; broken writes are reported as gaps.
func hostItems(log []link.Ev) (items []hostItem, gaps []uint64, bad string) {
	type by struct {
		b   byte
		ev  int // index of the write event
		beg int
	}
	var s []by
	beg := -1
	failedAt := map[int]bool{} // stream offset at which a failed write ended
	for i, e := range log {
		switch e.Kind {
		case 'b':
			beg = i
		case 'W', 'w':
			for _, b := range e.Data {
				s = append(s, by{b, i, beg})
			}
			if e.Kind == 'w' {
				failedAt[len(s)] = true
				gaps = append(gaps, e.Seq)
			}
		}
	}
	raw := make([]byte, len(s))
	for i := range s {
		raw[i] = s[i].b
	}
	item := func(i, n int) hostItem {
		return hostItem{beg: log[s[i].beg].Seq, begT: log[s[i].beg].T, end: log[s[i+n-1].ev].Seq, endT: log[s[i+n-1].ev].T}
	}
	for i := 0; i < len(raw); {
		if i+1 < len(raw) && raw[i] == esc && raw[i+1] == cACK && !failedAt[i+1] {
			it := item(i, 2)
			it.ack = true
			items = append(items, it)
			i += 2
			continue
		}
		if cmd, d, n := frameAt(raw, i); n > 0 && raw[i+2] == 0 {
			cut := false
			for k := i + 1; k < i+n; k++ {
				if failedAt[k] {
					cut = true
				}
			}
			if !cut {
				it := item(i, n)
				it.cmd, it.data = cmd, d
				items = append(items, it)
				i += n
				continue
			}
		}
		// only a failed write may leave a partial frame
		j := -1
		for k := i + 1; k <= len(raw); k++ {
			if failedAt[k] {
				j = k
				break
			}
		}
		if j < 0 || j-i > 600 {
			return items, gaps, fmt.Sprintf("the host's bytes %x are neither a whole frame nor an acknowledgement", clip(raw[i:]))
		}
		// the partial piece must itself come from one write
		if s[i].ev != s[j-1].ev {
			return items, gaps, fmt.Sprintf("the host's bytes %x are neither a whole frame nor an acknowledgement", clip(raw[i:j]))
		}
		i = j
	}
	return items, gaps, ""
}

func (lw *LibWorld) checkC05() {
	for ci, c := range lw.conns {
		items, gaps, bad := hostItems(c.Log)
		if bad != "" {
			lw.Violate("grammar", "line %d: %s", ci, bad)
			continue
		}
		faulty := len(lw.cfg.Faults) > 0
		var cur, curPrev, last *hostItem // current request, what the host sent before it, what it sent last
		acks := 0
		for k := range items {
			it := &items[k]
			if it.ack {
				if cur == nil {
					lw.Violate("ack", "line %d: acknowledgement at %.3fs without a request", ci, float64(it.begT)/1e9)
					continue
				}
				acks++
				last = it
				if acks > 1 {
					lw.Violate("ack", "line %d: second acknowledgement at %.3fs for request %02x", ci, float64(it.begT)/1e9, cur.cmd)
				}
				b := delivered(c.Log, cur.endT, 0, it.beg)
				ok := false
				if readCmd(cur.cmd) && len(cur.data) == 0 {
					for i := range b {
						if cmd, _, n := frameAt(b, i); n > 0 && cmd == cur.cmd+1 {
							ok = true
						}
						if cmd, _, n := frameAtLenient(b, i); n > 0 && cmd == cur.cmd+1 {
							ok = true
						}
					}
				} else {
					ok = bytes.Contains(b, []byte{esc, cACK})
				}
				if !ok && leftOver(c.Log, curPrev, cur) {
					ok = true // left-overs after a read error may have been taken for the answer
				}
				if !ok {
					lw.Violate("ack", "line %d: acknowledgement at %.3fs although the answer to request %02x is not complete (delivered: %x)", ci, float64(it.begT)/1e9, cur.cmd, clip(b))
				}
				continue
			}
			lw.Judge("request")
			if cur != nil && acks == 0 {
				gap := false
				for _, g := range gaps {
					if g >= cur.beg && g <= it.end {
						gap = true
					}
				}
				ended := gap || it.begT-cur.endT >= sec
				if !ended && faulty {
					for _, e := range c.Log {
						if (e.Seq > cur.beg || e.T >= cur.begT) && e.Seq < it.beg && (e.Kind == 'D' || e.Kind == 'E' || e.Kind == 'e') {
							ended = true
						}
					}
				}
				if !ended && leftOver(c.Log, curPrev, cur) {
					ended = true
				}
				if !ended {
					lw.Violate("overlap", "line %d: request %02x sent at %.3fs before the exchange of request %02x (sent %.3fs) had ended", ci, it.cmd, float64(it.begT)/1e9, cur.cmd, float64(cur.endT)/1e9)
				}
			}
			cur, acks, curPrev = it, 0, last
			last = it
		}
	}
}

// leftOver: a request met bytes from before it: some were unread when it was sent, or were read after what the host
// sent before it (the reader may hand them on later), or it follows a read error, behind which nobody had read the line.
func leftOver(log []link.Ev, prev, req *hostItem) bool {
	unread := 0
	for _, e := range log {
		if e.Seq >= req.beg {
			break
		}
		switch e.Kind {
		case 'e', 'E':
			return true
		case 'D':
			unread += len(e.Data)
		case 'R':
			unread -= len(e.Data)
			if len(e.Data) > 0 && (prev == nil || e.Seq > prev.end) {
				return true
			}
		}
	}
	return unread > 0
}

func (lw *LibWorld) checkC06() {
	for i, c := range lw.conns {
		if c.MaxRead > 1 {
			lw.Violate("reads", "line %d: %d reads were outstanding at once", i, c.MaxRead)
		}
	}
	for _, o := range lw.ops {
		if o.Phase == 0 || lw.dead[o.Conn] {
			continue
		}
		lw.Judge("healed")
		if m := lw.correct(o, false); m != "" {
			lw.Violate("healed-exchange", "after the line healed: %s", m)
		}
	}
}

func profState(in, out [4]byte) string { return string(in[:]) + string(out[:]) }

func (lw *LibWorld) checkC07(init State) {
	if lw.cfg.Stalls != "" {
		// a call that stalls past its deadline leaves an acknowledgement on the line that the next set
		// operation cannot tell from its own
		for _, o := range lw.ops {
			if o.Err != nil && !o.bad() {
				return
			}
		}
	}
	var ops []*LinOp
	for _, o := range lw.ops {
		o := o
		if o.bad() {
			continue
		}
		l := &LinOp{Call: o.InvSeq, Ret: o.RetSeq, Desc: o.String()}
		failed := !o.Done || o.Err != nil
		switch o.Kind {
		case "GetFanProfiles":
			if failed {
				continue
			}
			l.Step = func(s string) []string {
				v := o.Vec // out 4, in 4
				for i := 0; i < 4; i++ {
					if int64(s[i]) != v[4+i] || int64(s[4+i]) != v[i] {
						return nil
					}
				}
				return []string{s}
			}
		case "SetFanProfile":
			l.Step = func(s string) []string {
				b := []byte(s)
				b[o.Args[0]], b[4+o.Args[0]] = byte(o.Args[1]), byte(o.Args[1])
				return []string{string(b)}
			}
		case "SetFanProfiles":
			l.Step = func(s string) []string {
				b := make([]byte, 8)
				for i := 0; i < 4; i++ {
					b[i], b[4+i] = byte(o.Args[4+i]), byte(o.Args[i])
				}
				return []string{string(b)}
			}
		default:
			continue
		}
		if failed {
			l.Maybe, l.Ret = true, linInf
		}
		ops = append(ops, l)
	}
	// the unit's final state is one more read
	fin := profState(lw.units[0].In, lw.units[0].Out)
	ops = append(ops, &LinOp{Call: linInf - 1, Ret: linInf, Desc: "final state", Step: func(s string) []string {
		if s == fin {
			return []string{s}
		}
		return nil
	}})
	lw.Judge("history")
	ok, unk := linearizable(profState(init.In, init.Out), ops)
	if unk {
		lw.Inconclusive++
		return
	}
	if !ok {
		var d []string
		for _, o := range ops {
			d = append(d, o.Desc)
		}
		lw.Violate("linearizability", "no sequential order explains this history of profile operations (initial in/out %v %v, final %v %v):\n  %s", init.In, init.Out, lw.units[0].In, lw.units[0].Out, strings.Join(d, "\n  "))
	}
}

// failedBefore says whether a call on the same line failed before o returned.
func (lw *LibWorld) failedBefore(o *LibOp) bool {
	for _, x := range lw.ops {
		if x != o && x.Conn == o.Conn && x.Done && x.Err != nil && !x.bad() && x.RetSeq < o.RetSeq {
			return true
		}
	}
	return false
}

func (lw *LibWorld) checkC18() {
	const eps = 5 * ms
	for _, o := range lw.ops {
		if !o.Done {
			continue
		}
		if o.Conn == lw.cfg.FaultOnly {
			if o.Err == nil && o.isRead() {
				if m := lw.genuine(o); m != "" {
					lw.Violate("faulty-line", "%s", m)
				}
			}
		} else {
			lw.Judge("healthy line")
			if lw.cfg.Stalls != "" {
				if o.Err != nil && o.RetT-o.InvT >= sec {
					continue // a call that stalled may time out
				}
				if lw.failedBefore(o) {
					// ... and its answer may be in the way of later calls
					if o.Err == nil && o.isRead() {
						if m := lw.genuine(o); m != "" {
							lw.Violate("healthy-line", "%s", m)
						}
					}
					continue
				}
			}
			if m := lw.correct(o, true); m != "" {
				lw.Violate("healthy-line", "on a line without faults: %s", m)
			}
		}
		n := int64(0)
		for _, c := range lw.conns {
			for _, e := range c.Log {
				if e.Seq < o.RetSeq && e.T+sec+eps >= o.InvT && e.Kind == 'b' && !bytes.Equal(e.Data, []byte{esc, cACK}) {
					n++
				}
			}
		}
		if lw.cfg.Stalls == "" && o.RetT-o.InvT > (n+1)*sec+eps {
			lw.Violate("delay", "%v: took %.3fs with %d exchanges around", o, float64(o.RetT-o.InvT)/1e9, n)
		}
	}
	// units execute exactly what was asked on their own line
	for i, u := range lw.units {
		if i == lw.cfg.FaultOnly {
			continue
		}
		want := 0
		for _, o := range lw.ops {
			if o.Conn == i && !o.bad() && (o.Kind == "SetFanProfile" || !o.isRead() && o.Kind != "QueryPacket") {
				want++
			}
		}
		if len(u.Execs) > want || len(u.Execs) != want && lw.cfg.Stalls == "" {
			lw.Violate("exec-count", "%s executed %d set commands, %d were requested on its line", u.Name, len(u.Execs), want)
		}
	}
}

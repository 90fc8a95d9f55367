package harness

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"unicode"

	"github.com/ti-mo/comfo/zsim/link"
	"github.com/ti-mo/comfo/zsim/rt"
)

func trimSpace(s string) string { return strings.TrimFunc(s, unicode.IsSpace) }

const (
	ms  = int64(1e6)
	sec = int64(1e9)
)

// Answer is one answer a unit put on the line.
type Answer struct {
	Cmd     byte // of the request
	Payload []byte
	Seq     uint64
	T       int64
	Vec     []int64
	Str     string
	// DoneSeq/DoneT: when the last byte reached the host (0: never, or damaged).
	DoneSeq uint64
	DoneT   int64
	Conn    *link.Conn
}

// Exec is one request the unit executed.
type Exec struct {
	Cmd  byte
	Data []byte
	Seq  uint64
	T    int64
	Pre  State
	Post State
}

// State is what set commands change.
type State struct {
	Mode    byte
	In, Out [4]byte // by profile: away, low, mid, high
	Comfort byte    // raw
}

// Unit is the simulated ventilation unit.
type Unit struct {
	w    *rt.World
	Name string
	State
	FanIn, FanOut byte // actual percentages
	rampAt        int64
	RampPerSec    int // percent points per second; 0: instant

	Biased bool // payload bytes drawn at random with a bias towards protocol bytes, else derived from a version counter
	Echo   bool // answers any command by echoing its payload
	Off    bool // not powered: ignores everything

	// Delay is the time between a request arriving and (ack, answer) leaving.
	Ver     int
	Answers []*Answer
	Execs   []*Exec
	Seen    []*Exec // every valid request, including reads

	// line
	conn *link.Conn
	buf  []byte
	last int64
	gen  int // connection generation; scheduled deliveries of older ones are dropped

	Plan   func(u *Unit, cmd byte, data []byte, msg []byte) // delivers the answer; nil: healthy default
	OnExec func(*Exec)
	Sent   func()            // called when an answer is on its way
	inLat  func(n int) int64 // host to unit latency
	lastIn int64
	lastTo int64 // delivery horizon to host
	Damage func(data []byte) []byte
	// Brisk: percentages beyond the range, which a forged answer made the server write, do not take longer to reach
	// than the server waits for them.
	Brisk bool
	busy  int
	Busy  []busyEv // when something came to be in flight, and when nothing was any more
	Baud  int
}

// NewUnit makes a unit with plausible settings.
func NewUnit(w *rt.World, name string) *Unit {
	u := &Unit{w: w, Name: name, RampPerSec: 0}
	u.Mode = 2
	for i := range u.In {
		u.In[i], u.Out[i] = byte(15+20*i), byte(17+20*i)
	}
	u.Comfort = 80
	u.FanIn, u.FanOut = u.target()
	return u
}

func (u *Unit) target() (in, out byte) {
	if u.Mode >= 1 && u.Mode <= 4 {
		return u.In[u.Mode-1], u.Out[u.Mode-1]
	}
	return u.In[1], u.Out[1]
}

// ramp moves the fans towards their target.
func (u *Unit) ramp() {
	ti, to := u.target()
	if u.RampPerSec == 0 {
		u.FanIn, u.FanOut = ti, to
		return
	}
	rate := u.RampPerSec
	if u.Brisk && max(ti, to, u.FanIn, u.FanOut) > 100 {
		rate = 300
	}
	el := u.w.Now() - u.rampAt
	u.rampAt = u.w.Now()
	step := int(el * int64(rate) / sec)
	if step == 0 && el > 0 {
		u.rampAt -= el
	} else {
		u.rampAt -= el - int64(step)*sec/int64(rate)
	}
	mv := func(cur, tgt byte) byte {
		d := int(tgt) - int(cur)
		if d > step {
			d = step
		}
		if d < -step {
			d = -step
		}
		return byte(int(cur) + d)
	}
	u.FanIn, u.FanOut = mv(u.FanIn, ti), mv(u.FanOut, to)
}

// Attach connects the unit to the host's end of a line.
func (u *Unit) Attach(c *link.Conn) {
	u.gen++
	u.conn = c
	u.buf = nil
	c.Peer = &peer{u, u.gen}
}

type peer struct {
	u   *Unit
	gen int
}

func (p *peer) HostClosed() {}

func (p *peer) FromHost(data []byte) {
	u := p.u
	if u.gen != p.gen {
		return
	}
	if u.Damage != nil {
		data = u.Damage(data)
		if len(data) == 0 {
			return
		}
	}
	lat := 1 * ms
	if u.inLat != nil {
		lat = u.inLat(len(data))
	}
	at := u.w.Now() + lat
	if at < u.lastIn {
		at = u.lastIn
	}
	u.lastIn = at
	u.work(1)
	u.w.After(at-u.w.Now(), func() {
		u.work(-1)
		if u.gen == p.gen {
			u.receive(data)
		}
	})
}

func (u *Unit) receive(data []byte) {
	if u.Off {
		u.buf = nil
		return
	}
	if u.w.Now()-u.last > 300*ms {
		u.buf = nil // inter-byte timeout
	}
	u.last = u.w.Now()
	u.buf = append(u.buf, data...)
	for len(u.buf) >= 2 {
		if u.buf[0] != esc || (u.buf[1] != cSTART) {
			u.buf = u.buf[1:] // acknowledgements and noise
			continue
		}
		cmd, d, n, more := u.parse()
		if n > 0 {
			u.buf = u.buf[n:]
			u.handle(cmd, d)
			continue
		}
		if more {
			return
		}
		u.buf = u.buf[2:] // broken frame: look for the next start
	}
}

// parse looks for a whole frame at the start of the buffer.
func (u *Unit) parse() (cmd byte, data []byte, n int, more bool) {
	b := u.buf
	if len(b) < 5 {
		return 0, nil, 0, true
	}
	if b[2] != 0 {
		return 0, nil, 0, false
	}
	l := int(b[4])
	j := 5
	data = []byte{}
	for len(data) < l {
		if j >= len(b) {
			return 0, nil, 0, true
		}
		if b[j] == esc {
			if j+1 >= len(b) {
				return 0, nil, 0, true
			}
			if b[j+1] != esc {
				return 0, nil, 0, false
			}
			j++
		}
		data = append(data, b[j])
		j++
	}
	if j+3 > len(b) {
		return 0, nil, 0, true
	}
	if b[j] != checksum(b[3], data) || b[j+1] != esc || b[j+2] != cEND {
		return 0, nil, 0, false
	}
	return b[3], data, j + 3, false
}

func (u *Unit) handle(cmd byte, data []byte) {
	u.ramp()
	x := &Exec{Cmd: cmd, Data: append([]byte(nil), data...), Pre: u.State, T: u.w.Now()}
	isSet := false
	var ans []byte
	switch {
	case u.Echo && !knownCmd(cmd) && !mutedCmd(cmd):
		ans = data
	case cmd == cmdSetSpeed && len(data) == 1 && data[0] <= 4:
		isSet = true
		u.Mode = data[0]
		if u.RampPerSec != 0 {
			u.rampAt = u.w.Now()
		}
	case cmd == cmdSetComfort && len(data) == 1:
		isSet = true
		u.Comfort = data[0]
	case cmd == cmdSetProfiles && len(data) == 8:
		isSet = true
		u.Out[0], u.Out[1], u.Out[2] = data[0], data[1], data[2]
		u.In[0], u.In[1], u.In[2] = data[3], data[4], data[5]
		u.Out[3], u.In[3] = data[6], data[7]
		if u.RampPerSec != 0 {
			u.rampAt = u.w.Now()
		}
	case len(data) == 0 && readCmd(cmd):
		ans = u.answer(cmd)
	case cmd == cmdSetSpeed || cmd == cmdSetComfort || cmd == cmdSetProfiles || readCmd(cmd):
		// malformed: a real unit acknowledges the frame but does nothing
		isSet = true
	default:
		// unknown commands are acknowledged
	}
	x.Post = u.State
	x.Seq = u.w.Event("unit", "%s executes %02x %x", u.Name, cmd, data)
	u.Seen = append(u.Seen, x)
	if isSet {
		u.Execs = append(u.Execs, x)
		if u.OnExec != nil {
			u.OnExec(x)
		}
	}
	msg := []byte{esc, cACK}
	if ans != nil {
		a := &Answer{Cmd: cmd, Payload: ans, Seq: x.Seq, T: x.T, Conn: u.conn}
		a.Vec, a.Str, _ = decode(cmd, ans)
		u.Answers = append(u.Answers, a)
		msg = append(msg, frame(cmd+1, ans)...)
	}
	if u.Plan != nil {
		u.Plan(u, cmd, data, msg)
	} else {
		u.Send(msg, 5*ms)
	}
	if u.Sent != nil {
		u.Sent()
	}
}

func readCmd(c byte) bool {
	switch c {
	case cmdFans, cmdBootloader, cmdFirmware, cmdFanProfiles, cmdTemps, cmdErrors, cmdHours, cmdBypass:
		return true
	}
	return false
}

// mutedCmd: commands that are acknowledged but not answered.
func mutedCmd(c byte) bool { return c&0xF0 == 0x30 }

func knownCmd(c byte) bool {
	return readCmd(c) || c == cmdSetSpeed || c == cmdSetComfort || c == cmdSetProfiles
}

var nasty = []byte{0x07, 0x0F, 0xF0, 0xF3}

func (u *Unit) rndByte() byte {
	switch u.w.Pick("payload", 2, 3, 1) {
	case 1:
		return nasty[u.w.Choose("payload", 4)]
	case 2:
		return byte(u.w.Choose("payload", 4)) // 0..3, so that flags and small values occur
	}
	return byte(u.w.Choose("payload", 256))
}

func (u *Unit) rndBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = u.rndByte()
	}
	return b
}

// answer builds the payload for a read.
func (u *Unit) answer(cmd byte) []byte {
	u.Ver++
	v := u.Ver
	b := func(mul, add, mod int) byte { return byte((v*mul + add) % mod) }
	switch cmd {
	case cmdFans:
		p := []byte{u.FanIn, u.FanOut, 0, 0, 0, 0}
		ti, to := 200+v%1000, 200+(v*7+13)%1000
		p[2], p[3], p[4], p[5] = byte(ti>>8), byte(ti), byte(to>>8), byte(to)
		if u.Biased {
			copy(p, u.rndBytes(6))
			if p[2] == 0 {
				p[2] = esc
			}
			if p[4] == 0 {
				p[4] = cSTART
			}
		}
		return p
	case cmdBootloader, cmdFirmware:
		p := append([]byte{b(3, 1, 250), b(5, 2, 250), b(7, 3, 250)}, []byte(fmt.Sprintf("%-10s", fmt.Sprintf("CA%d", v)))...)
		if u.Biased {
			copy(p, u.rndBytes(13))
		}
		return p[:13]
	case cmdFanProfiles:
		p := make([]byte, 14)
		p[0], p[1], p[2], p[10] = u.Out[0], u.Out[1], u.Out[2], u.Out[3]
		p[3], p[4], p[5], p[11] = u.In[0], u.In[1], u.In[2], u.In[3]
		p[8] = u.Mode
		if u.Biased {
			p[6], p[7], p[9] = u.rndByte(), u.rndByte(), u.rndByte()
			p[12], p[13] = u.rndByte(), u.rndByte()
		} else {
			p[6], p[7], p[9] = b(1, 0, 251), b(11, 5, 241), byte(v%2)
		}
		return p
	case cmdTemps:
		p := []byte{u.Comfort, b(2, 10, 200), b(6, 30, 202), b(10, 50, 206), b(14, 70, 214), 0xff, b(18, 90, 218), b(22, 110, 226), b(26, 130, 230)}
		if u.Biased {
			copy(p[1:], u.rndBytes(8))
		}
		return p
	case cmdErrors:
		p := make([]byte, 17)
		p[8] = byte(v % 2)
		p[3] = 7
		if u.Biased {
			p = u.rndBytes(17)
		}
		return p
	case cmdBypass:
		p := []byte{0, 0, b(3, 0, 251), b(5, 1, 241), b(7, 2, 239), 0, byte(v % 2)}
		if u.Biased {
			p = u.rndBytes(7)
		}
		return p
	case cmdHours:
		p := make([]byte, 20)
		for i := range p {
			p[i] = b(3+2*i, i, 251)
		}
		if u.Biased {
			p = u.rndBytes(20)
		}
		return p
	}
	return nil
}

// Send delivers a message to the host after a delay, keeping the order of earlier ones.
func (u *Unit) Send(msg []byte, delay int64) { u.SendAt([][]byte{msg}, []int64{u.w.Now() + delay}) }

// SendAt delivers chunks at given times (made monotonic behind everything already scheduled).
func (u *Unit) SendAt(chunks [][]byte, at []int64) {
	gen, c := u.gen, u.conn
	for i, ch := range chunks {
		t := at[i]
		if t < u.lastTo {
			t = u.lastTo
		}
		u.lastTo = t
		u.work(1)
		ch := ch
		u.w.After(t-u.w.Now(), func() {
			u.work(-1)
			if gen == u.gen {
				c.Deliver(ch)
				u.settle()
			}
		})
	}
}

// settle notes which answers are now completely at the host.
func (u *Unit) settle() {}

// SendErr delivers a read error or end of stream behind what is already scheduled.
func (u *Unit) SendErr(err error, sticky bool, delay int64) {
	gen, c := u.gen, u.conn
	t := u.w.Now() + delay
	if t < u.lastTo {
		t = u.lastTo
	}
	u.lastTo = t
	u.work(1)
	u.w.After(t-u.w.Now(), func() {
		u.work(-1)
		if gen == u.gen {
			c.Fail(err, sticky)
		}
	})
}

type busyEv struct {
	T int64
	D int
}

// work counts what is in flight.
func (u *Unit) work(d int) {
	if u.busy += d; u.busy == 0 || u.busy == d {
		u.Busy = append(u.Busy, busyEv{u.w.Now(), d})
	}
}

// Quiet reports that nothing is in flight in either direction.
func (u *Unit) Quiet() bool { return u.busy == 0 }

var (
	errLine  = errors.New("line: input/output error")
	errWrite = errors.New("line: write error")
	errEOF   = io.EOF
)

// healthyPlan cuts a message into chunks and spreads them so that all of it arrives before `within` after now.
func healthyPlan(u *Unit, msg []byte, within int64) {
	w := u.w
	var start, end int64
	switch w.Pick("pace", 4, 3, 2, 1) {
	case 0:
		start, end = 5*ms, 5*ms
	case 1:
		start = w.LogRange("pace", 0, 60*ms)
		end = start + w.LogRange("pace", 0, 200*ms)
	case 2:
		start = w.LogRange("pace", 0, within*9/10)
		end = start + w.Range("pace", 0, within-start)
	case 3:
		start = w.LogRange("pace", 0, 10*ms)
		end = within
	}
	if start > within {
		start = within
	}
	if end > within {
		end = within
	}
	var cuts []int
	switch w.Pick("cut", 4, 3, 2) {
	case 1:
		for k := w.Range("cut", 1, 6); k > 0; k-- {
			cuts = append(cuts, int(w.Range("cut", 0, int64(len(msg)))))
		}
	case 2:
		for i := 1; i < len(msg); i++ {
			cuts = append(cuts, i)
		}
	}
	chunks := cutAt(msg, cuts)
	at := make([]int64, len(chunks))
	for i := range chunks {
		if len(chunks) == 1 {
			at[i] = end
		} else {
			at[i] = start + (end-start)*int64(i)/int64(len(chunks)-1)
		}
		at[i] += w.Now()
	}
	u.SendAt(chunks, at)
}

func cutAt(msg []byte, cuts []int) [][]byte {
	mark := make([]bool, len(msg)+1)
	for _, c := range cuts {
		mark[c] = true
	}
	var out [][]byte
	s := 0
	for i := 1; i <= len(msg); i++ {
		if i == len(msg) || mark[i] {
			out = append(out, msg[s:i])
			s = i
		}
	}
	return out
}

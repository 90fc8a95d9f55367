package harness

import (
	"github.com/ti-mo/comfo/libcomfo"
)

// An independent description of the unit's protocol, written from its documentation and not from the code under test.

const (
	esc    = 0x07
	cACK   = 0xF3
	cSTART = 0xF0
	cEND   = 0x0F
)

const (
	cmdFans        = 0x0B
	cmdBootloader  = 0x67
	cmdFirmware    = 0x69
	cmdFanProfiles = 0xCD
	cmdTemps       = 0xD1
	cmdErrors      = 0xD9
	cmdHours       = 0xDD
	cmdBypass      = 0xDF
	cmdSetSpeed    = 0x99
	cmdSetComfort  = 0xD3
	cmdSetProfiles = 0xCF
)

func checksum(cmd byte, data []byte) byte {
	s := int(cmd) + len(data) + 173
	for _, b := range data {
		s += int(b)
	}
	return byte(s)
}

// frame encodes a frame including its start and end sequences.
func frame(cmd byte, data []byte) []byte {
	out := []byte{esc, cSTART, 0, cmd, byte(len(data))}
	for _, b := range data {
		out = append(out, b)
		if b == esc {
			out = append(out, esc)
		}
	}
	return append(out, checksum(cmd, data), esc, cEND)
}

// frameAt decodes a frame that begins at b[i]; n is its length on the wire, 0 if there is none.
func frameAt(b []byte, i int) (cmd byte, data []byte, n int) { return frameAtX(b, i, false) }

// frameAtLenient is frameAt, but skips escape characters in the payload that escape nothing.
func frameAtLenient(b []byte, i int) (cmd byte, data []byte, n int) { return frameAtX(b, i, true) }

func frameAtX(b []byte, i int, lenient bool) (cmd byte, data []byte, n int) {
	if i+5 > len(b) || b[i] != esc || b[i+1] != cSTART {
		return
	}
	cmd = b[i+3]
	l := int(b[i+4])
	j := i + 5
	data = []byte{}
	skip := func() bool {
		for lenient && j+1 < len(b) && b[j] == esc && b[j+1] != esc && b[j+1] != cACK && b[j+1] != cSTART && b[j+1] != cEND {
			j++
		}
		return true
	}
	for len(data) < l {
		skip()
		if j >= len(b) {
			return 0, nil, 0
		}
		if b[j] == esc {
			if j+1 >= len(b) || b[j+1] != esc {
				return 0, nil, 0
			}
			j++
		}
		data = append(data, b[j])
		j++
	}
	skip()
	for lenient && j+3 < len(b) && b[j] == esc && b[j+1] == esc && b[j+2] == esc {
		j++ // the checksum escaped, or an escape character before it that escapes nothing
	}
	if lenient && j+3 < len(b) && b[j] == esc && b[j+3] == cEND && b[j+2] == esc && b[j+1] == checksum(cmd, data) {
		j++
	}
	if j+3 > len(b) || b[j] != checksum(cmd, data) || b[j+1] != esc || b[j+2] != cEND {
		return 0, nil, 0
	}
	return cmd, data, j + 3 - i
}

// decode gives the documented meaning of an answer as a vector; ok is false if it has none.
func decode(cmd byte, p []byte) (v []int64, s string, ok bool) {
	temp := func(b byte) int64 { return int64(b/2) - 20 }
	u := func(b ...byte) int64 {
		var x int64
		for _, c := range b {
			x = x<<8 | int64(c)
		}
		return x
	}
	bit := func(b byte) int64 {
		if b == 1 {
			return 1
		}
		return 0
	}
	switch cmd {
	case cmdFans:
		if len(p) != 6 {
			return
		}
		a, b := u(p[2], p[3]), u(p[4], p[5])
		if a == 0 || b == 0 {
			return
		}
		return []int64{u(p[0]), u(p[1]), 1875000 / a & 0xffff, 1875000 / b & 0xffff}, "", true
	case cmdBootloader, cmdFirmware:
		if len(p) != 13 {
			return
		}
		return []int64{u(p[0]), u(p[1]), u(p[2])}, trim(p[3:]), true
	case cmdFanProfiles:
		if len(p) != 14 {
			return
		}
		// out away low mid high, in away low mid high, active, cur out, cur in, mode
		return []int64{u(p[0]), u(p[1]), u(p[2]), u(p[10]), u(p[3]), u(p[4]), u(p[5]), u(p[11]), bit(p[9]), u(p[6]), u(p[7]), u(p[8])}, "", true
	case cmdTemps:
		if len(p) != 9 {
			return
		}
		return []int64{temp(p[0]), temp(p[1]), temp(p[2]), temp(p[3]), temp(p[4]), temp(p[6]), temp(p[7]), temp(p[8])}, "", true
	case cmdErrors:
		if len(p) != 17 {
			return
		}
		return []int64{bit(p[8])}, "", true
	case cmdBypass:
		if len(p) != 7 {
			return
		}
		return []int64{u(p[2]), u(p[3]), u(p[4]), bit(p[6])}, "", true
	case cmdHours:
		if len(p) != 20 {
			return
		}
		return []int64{u(p[0:3]...), u(p[3:6]...), u(p[6:9]...), u(p[17:20]...), u(p[9:11]...), u(p[11:13]...), u(p[13:15]...), u(p[15:17]...)}, "", true
	}
	return
}

// trim removes white space as the documented string trimming does.
func trim(p []byte) string { return trimSpace(string(p)) }

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func vecTemps(t libcomfo.Temps) []int64 {
	f := func(x float32) int64 { return int64(x) }
	return []int64{f(float32(t.Comfort)), f(float32(t.OutsideAir)), f(float32(t.SupplyAir)), f(float32(t.InsideAir)), f(float32(t.ExhaustAir)),
		f(float32(t.GeoHeat)), f(float32(t.Reheating)), f(float32(t.KitchenHood))}
}
func vecFans(f libcomfo.Fans) []int64 {
	return []int64{int64(f.InPercent), int64(f.OutPercent), int64(f.InSpeed), int64(f.OutSpeed)}
}
func vecBoot(b libcomfo.BootInfo) ([]int64, string) {
	return []int64{int64(b.MajorVersion), int64(b.MinorVersion), int64(b.BetaVersion)}, b.DeviceName
}
func vecProfiles(p libcomfo.FanProfiles) []int64 {
	i := func(b uint8) int64 { return int64(b) }
	return []int64{i(p.OutAway), i(p.OutLow), i(p.OutMid), i(p.OutHigh), i(p.InAway), i(p.InLow), i(p.InMid), i(p.InHigh), b2i(p.InFanActive),
		i(p.CurrentOut), i(p.CurrentIn), i(p.CurrentMode)}
}
func vecErrors(e libcomfo.Errors) []int64 { return []int64{b2i(e.Filter)} }
func vecBypass(b libcomfo.Bypass) []int64 {
	return []int64{int64(b.Factor), int64(b.Level), int64(b.Correction), b2i(b.SummerMode)}
}
func vecHours(h libcomfo.Hours) []int64 {
	return []int64{int64(h.FanAway), int64(h.FanLow), int64(h.FanMid), int64(h.FanHigh), int64(h.FrostProtect), int64(h.Reheating), int64(h.BypassOpen), int64(h.Filter)}
}

func eqVec(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

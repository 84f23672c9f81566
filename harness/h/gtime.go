package h

import (
	"bytes"
	"time"

	"github.com/ZZMarquis/gm/cryptobyte"
	"github.com/ZZMarquis/gm/cryptobyte/asn1"
	"gmharness/ref"
	"gmharness/sym"
)

// civilDays is the number of days from 1970-01-01 to y-m-d in the Gregorian calendar.
func civilDays(y, m, d int) int64 {
	if m <= 2 {
		y--
	}
	era := y / 400
	if y < 0 {
		era = (y - 399) / 400
	}
	yoe := y - era*400
	mp := (m + 9) % 12
	doy := (153*mp+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return int64(era)*146097 + int64(doe) - 719468
}

func monthDays(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

// gtimeOf reads YYYYMMDDHHMMSS followed by Z or a zone of hours and minutes other than 0000.
func gtimeOf(b []byte) (unix int64, ok, judged bool) {
	if len(b) != 15 && len(b) != 19 {
		return 0, false, true
	}
	for i, c := range b {
		if i != 14 && (c < '0' || c > '9') {
			return 0, false, true
		}
	}
	n := func(i, k int) int {
		v := 0
		for _, c := range b[i : i+k] {
			v = v*10 + int(c-'0')
		}
		return v
	}
	y, mo, d, h, mi, s := n(0, 4), n(4, 2), n(6, 2), n(8, 2), n(10, 2), n(12, 2)
	if mo < 1 || mo > 12 || d < 1 || d > monthDays(y, mo) || h > 23 || mi > 59 || s > 59 {
		return 0, false, true
	}
	unix = civilDays(y, mo, d)*86400 + int64(h*3600+mi*60+s)
	if len(b) == 15 {
		return unix, b[14] == 'Z', true
	}
	zh, zm := n(15, 2), n(17, 2)
	if zm > 59 || zh > 24 || zh == 0 && zm == 0 {
		return 0, false, true
	}
	off := int64(zh*3600 + zm*60)
	switch b[14] {
	case '+':
		return unix - off, true, zh < 24
	case '-':
		return unix + off, true, zh < 24
	}
	return 0, false, true
}

var gtimes = []string{
	"20240229235959Z", "19000228120000Z", "20000101000000Z", "99991231235959Z", "00000101000000Z", "20230430010203Z",
	"20240229235959+0800", "20991231003059-1130", "20200101000000+2359",
}

// fix digits, keep everything else free
func digitOr(b byte) byte {
	if b >= '0' && b <= '9' {
		return byte(sym.Concrete(int(b)))
	}
	return b
}

func C39_Read() {
	stdOnly()
	sym.Bound("C39_Read: nine valid times (leap days, century years, years 0 and 9999, zones) with one arbitrary byte (thorough: two adjacent ones) at any position, inserted, appended or in place of the zone, with a fraction or a zone of zero; cut at any length; contents of 0..2 arbitrary bytes; any tag")
	base := []byte(gtimes[sym.Choose("base", len(gtimes))])
	tag := byte(0x18)
	switch sym.Choose("op", 6) {
	case 0:
		i := sym.Choose("at", len(base))
		base[i] = digitOr(sym.Byte("b"))
		if sym.Thorough() && i+1 < len(base) {
			base[i+1] = digitOr(sym.Byte("c"))
		}
	case 1: // one byte more
		i := sym.Choose("at", len(base)+1)
		base = append(base[:i:i], append([]byte{digitOr(sym.Byte("b"))}, base[i:]...)...)
	case 2: // a fraction
		f := []string{".", ".5", ",5", ".0", ".000000000", ",123456789"}[sym.Choose("fraction", 6)]
		base = append(append(base[:14:14], f...), base[14:]...)
	case 3:
		z := []string{"", "+0000", "-0000", "+00", "z", "ZZ", "+08:00", "UTC", "+0860", "+2500", "+080000", "-"}[sym.Choose("zone", 12)]
		base = append(base[:14:14], z...)
	case 4:
		base = base[:sym.Choose("cut", len(base))]
	case 5:
		if sym.Choose("short", 2) == 0 {
			base = sym.Bytes("c", sym.Choose("n", 3))
		} else {
			tag = sym.Byte("tag")
			sym.Assume(tag&0x1f != 0x1f)
		}
	}
	in := ref.TLV(tag, base)
	rest := sym.Bytes("rest", 2)
	s := cryptobyte.String(append(append([]byte{}, in...), rest...))
	out := time.Unix(1, 0)
	var ok bool
	if !sym.NoPanic("ReadASN1GeneralizedTime", func() { ok = s.ReadASN1GeneralizedTime(&out) }) {
		return
	}
	unix, want, judged := gtimeOf(base)
	if tag != byte(asn1.GeneralizedTime) {
		want, judged = false, true
	}
	if !judged {
		return
	}
	sym.Assert(ok == want, "exactly the canonical forms of existing instants are read")
	if ok && want {
		sym.Assert(out.Unix() == unix && out.Nanosecond() == 0, "the instant")
		sym.AssertEq(s, rest, "exactly the rest is left")
	}
}

func C39_Write() {
	stdOnly()
	sym.Bound("C39_Write: instants around days, leap days, centuries, the years -1, 0, 9999 and 10000, shifted by 0..59 seconds and any nanoseconds; zones UTC, east and west with whole and broken minutes; written, read back, followed by another byte; a year outside 0..9999 is refused")
	days := []int64{
		civilDays(2024, 2, 29), civilDays(2000, 3, 1), civilDays(1900, 2, 28), civilDays(1969, 12, 31),
		civilDays(0, 1, 1), civilDays(9999, 12, 31), civilDays(-1, 12, 31), civilDays(10000, 1, 1),
	}
	zones := []int{0, 8 * 3600, -11*3600 - 1800, 60, -60, 23*3600 + 59*60, 30, -30, 8*3600 + 343, -5*3600 - 59}
	d := days[sym.Choose("day", len(days))]
	sec := []int64{0, 60, 43170, 86340}[sym.Choose("minute", 4)]
	off := zones[sym.Choose("zone", len(zones))]
	add := sym.Int("seconds")
	sym.Assume(add >= 0 && add < 60)
	ns := sym.Int("ns")
	sym.Assume(ns >= 0 && ns < 1000000000)
	add = sym.Concrete(add / 20 * 19)
	unix := d*86400 + sec + int64(add) - int64(off)
	t := time.Unix(unix, int64(ns)).UTC()
	if off != 0 {
		t = t.In(time.FixedZone("zone", off))
	}
	b := cryptobyte.NewBuilder(nil)
	if !sym.NoPanic("AddASN1GeneralizedTime", func() { b.AddASN1GeneralizedTime(t) }) {
		return
	}
	b.AddUint8(7)
	der, err := b.Bytes()
	local := unix + int64(off)
	inYears := func(u int64) bool {
		return u >= civilDays(0, 1, 1)*86400 && u < civilDays(10000, 1, 1)*86400
	}
	if off%60 == 0 || inYears(local) == inYears(unix) {
		sym.Assert((err == nil) == inYears(local), "years 0 to 9999 can be written")
	}
	if err != nil {
		return
	}
	sym.Assert(len(der) > 3 && der[0] == 0x18 && int(der[1]) == len(der)-3, "one element")
	s := cryptobyte.String(der)
	var r time.Time
	sym.Assert(s.ReadASN1GeneralizedTime(&r), "a written time can be read")
	sym.Assert(r.Unix() == unix, "a written time reads back as the same second")
	sym.Assert(bytes.Equal(s, []byte{7}), "exactly the rest is left")
	if len(der) >= 3 {
		u, ok, judged := gtimeOf(der[2 : len(der)-1])
		sym.Assert(!judged || ok && u == unix, "the canonical form is written")
	}
}

package zz_simrt

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"strings"
	"time"
)

// ErrEntropy is what a failing random source returns.
var ErrEntropy = errors.New("simulated entropy source failure")

// ---- clock ----

//go:norace
func nowNs() int64 {
	cnt.TimeReads++
	return clockNs + steps*cfg.TickNs
}

// ClockNow reads the simulated clock from the harness.
//
//go:norace
func ClockNow() time.Time { return time.Unix(0, clockNs+steps*cfg.TickNs).In(zone()) }

func zone() *time.Location {
	if cfg.ZoneSec == 0 {
		return time.UTC
	}
	return time.FixedZone("SIM", cfg.ZoneSec)
}

// TimeNow replaces time.Now.
func TimeNow() time.Time {
	if !active {
		return time.Now()
	}
	return time.Unix(0, nowNs()).In(zone())
}

// TimeSince replaces time.Since.
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

// TimeUntil replaces time.Until.
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// TimeSleep replaces time.Sleep.
//
//go:norace
func TimeSleep(d time.Duration) {
	if !active {
		time.Sleep(d)
		return
	}
	if d > 0 {
		clockNs += int64(d)
	}
	Y()
	if len(tasks) > 1 {
		switchTo(pick(cur.id + 1))
	}
}

// ---- randomness ----

//go:norace
func fillRandom(b []byte) error {
	cnt.RandReads++
	for _, n := range cfg.RandFail {
		if n == cnt.RandReads {
			cnt.RandFails++
			// the bytes that did arrive stay in the buffer
			for i := 0; i < len(b)/2; i++ {
				b[i] = byte(splitmix(rndCur()))
			}
			return ErrEntropy
		}
	}
	cnt.RandBytes += len(b)
	for i := range b {
		b[i] = byte(splitmix(rndCur()) >> 24)
	}
	return nil
}

type randReader struct{}

func (randReader) Read(b []byte) (int, error) {
	if err := fillRandom(b); err != nil {
		return 0, err
	}
	return len(b), nil
}

// RandReader replaces crypto/rand.Reader.
var RandReader io.Reader = randReader{}

// RandRead replaces crypto/rand.Read.
func RandRead(b []byte) (int, error) { return RandReader.Read(b) }

// RandInt replaces crypto/rand.Int.
func RandInt(r io.Reader, max *big.Int) (*big.Int, error) {
	var b [16]byte
	if _, err := r.Read(b[:]); err != nil {
		return nil, err
	}
	n := new(big.Int).SetBytes(b[:])
	return n.Mod(n, max), nil
}

// ReadRandN: math/rand replacements.
func mrand() uint64 { return splitmix(rndCur()) }

func MRInt() int                   { return int(mrand() >> 1) }
func MRIntn(n int) int             { return int(mrand()>>1) % n }
func MRInt31() int32               { return int32(mrand() >> 33) }
func MRInt31n(n int32) int32       { return int32(mrand()>>33) % n }
func MRInt63() int64               { return int64(mrand() >> 1) }
func MRInt63n(n int64) int64       { return int64(mrand()>>1) % n }
func MRUint32() uint32             { return uint32(mrand()) }
func MRUint64() uint64             { return mrand() }
func MRFloat64() float64           { return float64(mrand()>>11) / (1 << 53) }
func MRSeed(int64)                 {}
func MRRead(b []byte) (int, error) { return RandRead(b) }
func MRPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	MRShuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func MRShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, MRIntn(i+1))
	}
}

// ---- process ----

// OsExit replaces os.Exit.
//
//go:norace
func OsExit(code int) {
	dead = true
	panic(Exit{Code: code})
}

// LogFatal replaces log.Fatal.
func LogFatal(v ...interface{}) { log.Print(v...); OsExit(1) }

// LogFatalf replaces log.Fatalf.
func LogFatalf(f string, v ...interface{}) { log.Printf(f, v...); OsExit(1) }

// LogFatalln replaces log.Fatalln.
func LogFatalln(v ...interface{}) { log.Println(v...); OsExit(1) }

// ---- sized helpers ----

// StringsRepeat replaces strings.Repeat.
func StringsRepeat(s string, n int) string {
	Sz(len(s) * max1(n))
	return strings.Repeat(s, n)
}

// BytesRepeat replaces bytes.Repeat.
func BytesRepeat(s []byte, n int) []byte {
	Sz(len(s) * max1(n))
	return bytes.Repeat(s, n)
}

func max1(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

var _ = fmt.Sprint

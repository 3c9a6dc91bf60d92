// Package main holds the property harnesses. The same source is executed symbolically by the engine (which
// replaces the v* functions by its own) and compiled natively to replay concrete inputs against the real code.
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
)

type replayCase struct {
	Harness  string            `json:"harness"`
	Thorough bool              `json:"thorough"`
	Input    map[string]string `json:"input"`
}

var rtCase replayCase
var rtCount = map[string]int{}

type rtStop struct{}

func rtRaw(name string, n int, bits int) []byte {
	k := fmt.Sprintf("%s#%d", name, rtCount[name])
	rtCount[name]++
	h, ok := rtCase.Input[fmt.Sprintf("%s:%d", k, bits)]
	if !ok {
		h = rtCase.Input[k]
	}
	out := make([]byte, n)
	b, _ := hex.DecodeString(h)
	if len(b) > n {
		b = b[len(b)-n:]
	}
	copy(out[n-len(b):], b)
	return out
}

func rtUint(name string, bits int) uint64 {
	var v uint64
	for _, b := range rtRaw(name, 8, bits) {
		v = v<<8 | uint64(b)
	}
	return v
}

func vBool(name string) bool           { return rtUint(name, 0) != 0 }
func vByte(name string) byte           { return byte(rtUint(name, 8)) }
func vU16(name string) uint16          { return uint16(rtUint(name, 16)) }
func vU32(name string) uint32          { return uint32(rtUint(name, 32)) }
func vU64(name string) uint64          { return rtUint(name, 64) }
func vInt(name string, lo, hi int) int { return int(rtUint(name, 64)) }
func vBytes(name string, n int) []byte {
	if n == 0 {
		return []byte{}
	}
	return rtRaw(name, n, 8*n)
}
func vString(name string, n int) string {
	if n == 0 {
		return ""
	}
	return string(rtRaw(name, n, 8*n))
}
func vIndex(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(rtUint(name, 0))
}
func vChoose(name string, n int) int { return int(rtUint(name, 32)) }
func vPick(n int) int                { return n }
func vThorough() bool                { return rtCase.Thorough }
func vNote(s string)                 {}

func vAssume(c bool) {
	if !c {
		fmt.Println("@@ASSUME")
		panic(rtStop{})
	}
}

func vAssert(label string, c bool) {
	if !c {
		fmt.Println("@@FAIL " + label)
	}
}

func vReach(label string) { fmt.Println("@@REACH " + label) }

func vObserve(label string, v any) {
	s := ""
	switch x := v.(type) {
	case nil:
		s = "nil"
	case []byte:
		s = "x" + hex.EncodeToString(x)
	case string:
		s = "x" + hex.EncodeToString([]byte(x))
	case bool:
		s = strconv.FormatBool(x)
	case []string:
		s = strconv.Itoa(len(x))
	default:
		s = fmt.Sprintf("%d", x)
	}
	fmt.Println("@@OBS " + label + " " + s)
}

// vShared runs f as one of several goroutines (natively: with the race detector, when a replay asks for it).
func vShared(label string, f func()) {
	if os.Getenv("VERIF_RACE") == "" {
		f()
		return
	}
	var w sync.WaitGroup
	for i := 0; i < 4; i++ {
		w.Add(1)
		go func() {
			defer w.Done()
			for j := 0; j < 3; j++ {
				f()
			}
		}()
	}
	w.Wait()
}

var rtAlone int

// vAlone is what f returns when it runs now; its effects are taken back (it runs in a process of its own).
func vAlone(f func() string) string {
	rtAlone++
	if n := os.Getenv("VERIF_ALONE"); n != "" {
		if n == strconv.Itoa(rtAlone) {
			fmt.Println("\n@@ALONE " + hex.EncodeToString([]byte(f())))
			os.Exit(0)
		}
		return "" // not reached again before the call asked for, except by harnesses that ignore the earlier results
	}
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_ALONE="+strconv.Itoa(rtAlone))
	out, _ := cmd.Output()
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(l, "@@ALONE ") {
			b, _ := hex.DecodeString(l[8:])
			return string(b)
		}
	}
	fmt.Println("the process of its own said nothing:", string(out))
	os.Exit(3)
	return ""
}

// vPanics reports whether f panics.
func vPanics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(rtStop); ok {
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

func main() {
	b, err := os.ReadFile(os.Getenv("VERIF_INPUT"))
	if err == nil {
		err = json.Unmarshal(b, &rtCase)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	f := harnesses[rtCase.Harness]
	if f == nil {
		fmt.Println("no such harness")
		os.Exit(3)
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(rtStop); ok {
				os.Exit(0)
			}
			fmt.Printf("@@PANIC %v\n", r)
			os.Exit(1)
		}
		fmt.Println("@@END")
	}()
	f()
}

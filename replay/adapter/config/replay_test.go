package config

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"go.uber.org/zap"
)

func rpRand() *rand.Rand {
	zap.ReplaceGlobals(zap.NewNop())
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n + 1))
}

func rpN(quick, thorough int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return thorough
	}
	return 4 * quick
}

func rpStat(n int) {
	if p := os.Getenv("REPLAY_OUT"); p != "" {
		if f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintf(f, "{\"cases\": %d}\n", n)
			f.Close()
		}
	}
}

func TestReplay_C25(t *testing.T) {
	r := rpRand()
	n := rpN(20000, 300000)
	for i := 0; i < n; i++ {
		o := &IntOptions{Value: 1000 + r.Intn(3)}
		if r.Intn(10) > 0 {
			o.Options = map[int]struct{}{}
			for k := r.Intn(5); k > 0; k-- {
				o.Options[[]int{0, 1, 16, 24, 32, 64, -1, 8, 100}[r.Intn(9)]] = struct{}{}
			}
		}
		before := o.Value
		text := []string{"0", "1", "16", "24", "32", "64", "-1", "8", "100", "", " 16", "16 ", "0x10", "016", "+16", "1e1", "sixteen", "16.0", "9223372036854775808", "18446744073709551632", "4294967312", "1_6", "-0"}[r.Intn(23)]
		v, perr := strconv.ParseInt(text, 10, 64)
		_, listed := o.Options[int(v)]
		want := perr == nil && listed
		size := len(o.Options)
		err := o.Set(text)
		if (err == nil) != want || want && o.Value != int(v) || !want && o.Value != before || len(o.Options) != size {
			t.Fatalf("Set(%q) of options %v: value %d (was %d), error %v", text, o.Options, o.Value, before, err)
		}
	}
	c := NewConfig()
	for _, o := range []IntOptions{c.HashKeySize, c.BlockKeySize} {
		if _, ok := o.Options[o.Value]; !ok {
			t.Errorf("default %d is not one of %v", o.Value, o.Options)
		}
	}
	rpStat(n)
}

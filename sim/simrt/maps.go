package simrt

import (
	"context"
	"fmt"
	"math/rand"
	randv2 "math/rand/v2"
	"sort"
	"time"
)

// MapKeys decides the iteration order of a map.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	if s := S; s != nil && s.Cur != nil {
		for i := len(keys) - 1; i > 0; i-- {
			j := i - s.draw(i+1)
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return keys
}

// Rand and RandV2 stand for the global sources of math/rand: one per task, its seed a decision of the run.
func Rand() *rand.Rand {
	t := Current()
	if t == nil {
		return rand.New(rand.NewSource(1))
	}
	if t.rnd == nil {
		t.rnd = rand.New(rand.NewSource(int64(S.draw(1 << 30))))
	}
	return t.rnd
}

func RandV2() *randv2.Rand {
	t := Current()
	if t == nil {
		return randv2.New(randv2.NewPCG(1, 1))
	}
	if t.rnd2 == nil {
		t.rnd2 = randv2.New(randv2.NewPCG(1, uint64(S.draw(1<<30))))
	}
	return t.rnd2
}

func TimeAfterFunc(d time.Duration, f func()) *time.Timer {
	local, name := inherit()
	return time.AfterFunc(d, func() { goWith(name, local, f) })
}

func ContextAfterFunc(ctx context.Context, f func()) func() bool {
	local, name := inherit()
	return context.AfterFunc(ctx, func() { goWith(name, local, f) })
}

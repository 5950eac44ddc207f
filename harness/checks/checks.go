// Package checks holds the spaces which decide each property.
package checks

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"verif/harness/explore"
	"verif/harness/ref"
)

// Env is what a check may depend on.
type Env struct {
	Thorough bool
	Seed     int64
}

// Label derives a seed label from VERIF_SEED.
func (e Env) Label(parts ...any) string {
	s := make([]string, len(parts))
	for i, p := range parts {
		s[i] = fmt.Sprint(p)
	}
	return fmt.Sprintf("%d/%s", e.Seed, strings.Join(s, "/"))
}

// Pick chooses by tier.
func Pick[T any](e Env, quick, thorough T) T {
	if e.Thorough {
		return thorough
	}
	return quick
}

// Check decides one property.
type Check struct {
	ID     string
	Level  string
	Rule   string
	Assume []string
	// Variants lists the builds which explore the spaces, "" being the plain one.
	Variants []string
	// Shards is how many processes share the exploration in each variant.
	Shards int
	Spaces func(Env) []*explore.Space
}

// All is the registry.
var All = map[string]*Check{}

func register(c *Check) { All[c.ID] = c }

// IDs lists the registered checks.
func IDs() []string {
	var out []string
	for k := range All {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func short(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%x..(%d bytes)", b[:40], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// scalarAlphabet lists boundary scalars (reduced), simplest first.
func scalarAlphabet(e Env) []*big.Int {
	one := big.NewInt(1)
	p2 := func(n uint) *big.Int { return new(big.Int).Lsh(one, n) }
	add := func(a *big.Int, d int64) *big.Int { return ref.Mod(new(big.Int).Add(a, big.NewInt(d))) }
	l := []*big.Int{ref.I(0), ref.I(1), ref.I(2), ref.I(3), add(ref.N, -1), add(ref.N, -2), ref.HalfN, add(ref.HalfN, 1),
		p2(64), add(p2(64), -1), add(p2(128), -1), p2(255), add(new(big.Int).Sub(p2(256), ref.N), 0),
		randScalar(e, "alphabet", 0), randScalar(e, "alphabet", 1)}
	if e.Thorough {
		l = append(l, add(ref.HalfN, -1), add(ref.HalfN, 2), p2(63), p2(32), p2(127), p2(128), p2(129), p2(191), p2(192), add(p2(192), -1), p2(224), p2(254),
			add(new(big.Int).Sub(p2(256), ref.N), -1), add(new(big.Int).Sub(p2(256), ref.N), 1), ref.I(255), ref.I(256), ref.I(0xffff),
			ref.Mod(new(big.Int).Mul(new(big.Int).Sub(p2(256), ref.N), new(big.Int).Sub(p2(256), ref.N))), ref.Inv(ref.I(2)), ref.Inv(ref.I(3)),
			ref.Inv(ref.Mod(p2(256))), randScalar(e, "alphabet", 2))
	}
	return l
}

func randScalar(e Env, parts ...any) *big.Int {
	return ref.SeedFromBytes([]byte(e.Label(parts...))).Scalar()
}

func must[T any](v T, err error) T {
	if err != nil {
		panic("unexpected error: " + err.Error())
	}
	return v
}

func errStr(err error) string {
	if err == nil {
		return "accepted"
	}
	return "rejected (" + err.Error() + ")"
}

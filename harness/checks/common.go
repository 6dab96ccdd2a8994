// Package checks holds, per property, the closed drivers and oracles.
package checks

import (
	"crypto/cipher"
	"fmt"
	"math/rand"

	libunlynx "github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/util/random"
	"go.dedis.ch/onet/v3/log"

	"unlynxverif/toy"
)

// Info describes a property's check.
type Info struct {
	Level  string
	Rule   string
	Assume []string
}

// Props is filled by the check files.
var Props = map[string]Info{}

// Init prepares the process.
func Init() {
	log.SetDebugVisible(0)
	random.VerifStream = func() cipher.Stream { return toySuite.RandomStream() }
	rand.Seed(1)
}

var toySuite = toy.New(toy.DefaultQ)
var realSuite = toy.Real()

// useToy installs the toy group with a deterministic random source.
func useToy(seed uint64) *toy.Suite {
	toy.ResetDraw(seed)
	libunlynx.SuiTe = toySuite
	return toySuite
}

// useReal installs Ed25519 with a deterministic random source.
func useReal(seed uint64) {
	toy.ResetDraw(seed)
	libunlynx.SuiTe = realSuite
}

type kscalar = kyber.Scalar
type kpoint = kyber.Point

var sprintf = fmt.Sprintf

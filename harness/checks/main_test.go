package checks

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"unlynxverif/cluster"
	"unlynxverif/engine"
)

func TestWorker(t *testing.T) {
	if os.Getenv("VERIF_ROLE") != "worker" {
		t.Skip()
	}
	cluster.T = t
	Init()
	engine.Worker()
}

func TestReplay(t *testing.T) {
	if os.Getenv("VERIF_ROLE") != "replay" {
		t.Skip()
	}
	cluster.T = t
	Init()
	os.Exit(engine.Replay(os.Getenv("VERIF_REPLAY"), tier()))
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func TestMaster(t *testing.T) {
	if os.Getenv("VERIF_ROLE") != "master" {
		t.Skip()
	}
	cluster.T = t
	Init()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	prop := os.Getenv("VERIF_PROP")
	info, ok := Props[prop]
	if !ok {
		fmt.Println("unknown property", prop)
		os.Exit(2)
	}
	d := 60 * time.Second
	if tier() == "thorough" {
		d = 600 * time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_DEADLINE")); err == nil {
		d = time.Duration(v) * time.Second
	}
	os.Exit(engine.Master(engine.Config{Prop: prop, Tier: tier(), Seed: seed, Deadline: d, VerifDir: os.Getenv("VERIF_DIR"), Level: info.Level, Rule: info.Rule, Assume: info.Assume}))
}

func TestChild(t *testing.T) {
	if os.Getenv("VERIF_ROLE") != "child" {
		t.Skip()
	}
	Init()
	Child(strings.SplitN(os.Getenv("VERIF_CHILD"), " ", 2))
}

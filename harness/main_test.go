package harness

import (
	"os"
	"testing"
)

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_CHILD") == "parse" {
		os.Exit(parseChild())
	}
	if os.Getenv("VERIF_CHILD") == "uses" {
		os.Exit(usesChild())
	}
	os.Exit(Main(m))
}

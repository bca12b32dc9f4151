package checks

import (
	"testing"

	"github.com/livekit/psrpc/verif/engine"
)

func TestCheck(t *testing.T) { engine.Main(t) }

// TestIDs is run in a process of its own by the check of C24.
func TestIDs(t *testing.T) { c24Child() }

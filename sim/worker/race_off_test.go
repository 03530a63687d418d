//go:build !race

package worker

import "xtormsim/world"

func races() []world.Violation { return nil }

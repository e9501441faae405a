//go:build vhnative

package vh

import (
	"strings"

	"github.com/valyala/fastjson"
)

var Globals []any

var (
	watched []any
	before  []string
	frameEv []string
)

// FrameBegin remembers what an operation has no business with.
func FrameBegin() {
	watched = append([]any(nil), Globals...)
	before = before[:0]
	for _, g := range watched {
		before = append(before, Snap(g))
	}
	fastjson.VhEvents = nil
	frameEv = nil
}

func FrameOwn(x any) {}

func FrameWatch(x any) {
	watched = append(watched, x)
	before = append(before, Snap(x))
}

func FrameEnd() {
	for i, g := range watched {
		if Snap(g) != before[i] {
			frameEv = append(frameEv, "write to memory that existed before")
		}
	}
	watched = nil
}

func Events(props string) { EventsMatching(props, "") }

func EventsMatching(props, sub string) {
	for _, e := range append(frameEv, fastjson.VhEvents...) {
		if strings.Contains(e, sub) {
			Check(false, props, e)
		}
	}
}

func Puts() int { return 1 }

func Poison(on bool) { fastjson.VhPoison = on }

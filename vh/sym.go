//go:build !vhnative

package vh

// The engine gives these their meaning.

// Globals are the package variables of the generated code.
var Globals []any

func FrameBegin()                      {}
func FrameOwn(x any)                   {}
func FrameWatch(x any)                 {}
func FrameEnd()                        {}
func Events(props string)              {}
func EventsMatching(props, sub string) {}
func Puts() int                        { return 1 }

// Poison makes the parser pool spoil what is handed back (compiled code only).
func Poison(on bool) {}

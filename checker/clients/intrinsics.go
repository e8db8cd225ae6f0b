package client

// The functions below have no body: the analyser gives them their meaning.

// any is an unknown boolean, different at every call.
func any() bool

// buf is a caller-owned byte slice of unknown content; it may be nil or empty.
func buf(name string) []byte

// nbuf is a caller-owned byte slice of unknown content with at least one byte.
func nbuf(name string) []byte

// str is an unknown string.
func str(name string) string

// scribble overwrites a caller-owned buffer with other bytes.
func scribble(b []byte)

// stop ends the path: the situation is not of interest.
func stop()

// panics names the property that a panic from here on violates.
func panics(prop string)

package gh

// VRun checks one property of the generator itself.
func VRun(k int, prop string, deep bool) {
	switch prop {
	case "C21":
		c21(k, deep)
	case "C22":
		c22(k, deep)
	case "C23":
		c23(k, deep)
	case "C24":
		c24(k, deep)
	}
}

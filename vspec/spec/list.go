package spec

// Has: s is in the list.
//
//spec:opaque
func Has(xs []string, s string) bool {
	if len(xs) == 0 {
		return false
	}
	if xs[len(xs)-1] == s {
		return true
	}
	return Has(xs[:len(xs)-1], s)
}

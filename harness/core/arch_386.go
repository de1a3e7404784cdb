package core

func arch() string { return "386" }

// Portable tells whether this is the build without assembly.
func Portable() bool { return true }

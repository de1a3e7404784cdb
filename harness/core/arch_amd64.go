package core

func arch() string { return "amd64" }

// Portable tells whether this is the build without assembly.
func Portable() bool { return false }

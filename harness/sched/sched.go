// Package sched is the cooperative scheduler the instrumented sources of the
// library report to.  Without a hook (every build but the instrumented ones)
// nothing happens.
package sched

// Site is one statement of the library.
type Site struct {
	File string
	Line int
	Vars []string // package-level variables it names
	Sync bool     // it uses sync, atomic, channels or starts a goroutine
}

// Hook is called before every statement of the library.
var Hook func(site int)

// BlockHook is called instead of waiting for a lock that is taken.  It
// returns false when the caller is not under control and must wait itself.
var BlockHook func() bool

// ControlHook tells whether the caller is a goroutine under control.
var ControlHook func() bool

// Y reports that the statement is about to be executed.
func Y(site int) {
	if Hook != nil {
		Hook(site)
	}
}

// Fixed sites: before a lock is taken, after it is released.
const (
	LockSite   = 0
	UnlockSite = 1
	FirstSite  = 2
)

// Controlled tells whether locks are to be simulated.
func Controlled() bool { return ControlHook != nil && ControlHook() }

// Block waits for another goroutine to make progress.
func Block() bool { return BlockHook != nil && BlockHook() }

// Var is a package-level variable.
type Var struct {
	Name string
	Ptr  interface{}
}

// Globals lists all package-level variables of the library.
var Globals []Var

// Global registers one.
func Global(name string, ptr interface{}) { Globals = append(Globals, Var{name, ptr}) }

package sched

// Table describes the sites; the instrumenter lays another file over this one.
var Table []Site

// Goroutines tells whether the library starts goroutines itself.
var Goroutines bool

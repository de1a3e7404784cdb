//go:build race
// +build race

package checks

const raceBuild = true

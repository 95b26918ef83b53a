// Package reexec stands in for the one of the docker project.
package reexec

func Self() string { return "/proc/self/exe" }

// Package x has the same types as another one.
package x

// T is a type.
type T struct{ A int }

// N is a type.
type N int

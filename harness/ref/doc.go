//go:build go1.21

// Package ref holds reference models of the algorithms powkit implements. It is
// written from the published specifications and shares no code with powkit or
// with the libraries powkit uses, so that agreement means something. Clarity is
// preferred over speed except in the inner loops that dominate a check.
package ref

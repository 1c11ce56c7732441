//go:build !vt

package main

import "vh/eng"

// the timeout checks need the build with the virtual clock
func c10() *eng.Prop { return &eng.Prop{ID: "C10", Level: "fault_enumeration"} }

//go:build sched

package crisp

import "io"

// VIO is a CRISP data stream, for the explorer.
type VIO struct{ v *vu32io }

func NewVIO(rw io.ReadWriter) *VIO   { return &VIO{newVu32Io(rw)} }
func (v *VIO) Read() (uint32, error) { return v.v.readu32() }
func (v *VIO) Write(x uint32) error  { return v.v.writeu32(x) }
func (v *VIO) Flush() error          { return v.v.flush() }

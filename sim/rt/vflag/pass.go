// Code generated (once) from the exported API of flag: everything the
// simulator does not stand in for is passed through.
package flag

import "flag"

const (
	ContinueOnError = flag.ContinueOnError
	ExitOnError     = flag.ExitOnError
	PanicOnError    = flag.PanicOnError
)

var (
	ErrHelp = flag.ErrHelp
)

type (
	ErrorHandling = flag.ErrorHandling
	Flag          = flag.Flag
	FlagSet       = flag.FlagSet
	Getter        = flag.Getter
	Value         = flag.Value
)

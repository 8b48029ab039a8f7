// Code generated (once) from the exported API of log: everything the
// simulator does not stand in for is passed through.
package log

import "log"

const (
	LUTC          = log.LUTC
	Ldate         = log.Ldate
	Llongfile     = log.Llongfile
	Lmicroseconds = log.Lmicroseconds
	Lmsgprefix    = log.Lmsgprefix
	Lshortfile    = log.Lshortfile
	LstdFlags     = log.LstdFlags
	Ltime         = log.Ltime
)

var (
	Flags     = log.Flags
	Output    = log.Output
	Prefix    = log.Prefix
	SetFlags  = log.SetFlags
	SetOutput = log.SetOutput
	SetPrefix = log.SetPrefix
	Writer    = log.Writer
)

// Package flag stands for package flag: every simulated process parses the
// arguments the simulator gives it.
package flag

import (
	"encoding"
	"flag"
	"io"
	"time"

	rt "github.com/leonelquinteros/gotext/vsimrt"
	os "github.com/leonelquinteros/gotext/vsimrt/vos"
)

var CommandLine *FlagSet
var Usage func()

func reset() {
	CommandLine = flag.NewFlagSet("xgotext", flag.ContinueOnError)
	CommandLine.SetOutput(io.Discard)
	Usage = func() { CommandLine.Usage() }
}

func init() {
	reset()
	rt.OnReset(reset)
}

func NewFlagSet(name string, h ErrorHandling) *FlagSet { return flag.NewFlagSet(name, h) }

func Parse() {
	if err := CommandLine.Parse(os.Args[1:]); err != nil {
		if err == flag.ErrHelp {
			os.Exit(0)
		}
		os.Exit(2)
	}
}

func Parsed() bool                       { return CommandLine.Parsed() }
func Arg(i int) string                   { return CommandLine.Arg(i) }
func Args() []string                     { return CommandLine.Args() }
func NArg() int                          { return CommandLine.NArg() }
func NFlag() int                         { return CommandLine.NFlag() }
func Lookup(n string) *Flag              { return CommandLine.Lookup(n) }
func Set(n, v string) error              { return CommandLine.Set(n, v) }
func PrintDefaults()                     { CommandLine.PrintDefaults() }
func Visit(f func(*Flag))                { CommandLine.Visit(f) }
func VisitAll(f func(*Flag))             { CommandLine.VisitAll(f) }
func UnquoteUsage(f *Flag) (n, u string) { return flag.UnquoteUsage(f) }

func Bool(n string, v bool, u string) *bool             { return CommandLine.Bool(n, v, u) }
func BoolVar(p *bool, n string, v bool, u string)       { CommandLine.BoolVar(p, n, v, u) }
func BoolFunc(n, u string, f func(string) error)        { CommandLine.BoolFunc(n, u, f) }
func String(n, v, u string) *string                     { return CommandLine.String(n, v, u) }
func StringVar(p *string, n, v, u string)               { CommandLine.StringVar(p, n, v, u) }
func Int(n string, v int, u string) *int                { return CommandLine.Int(n, v, u) }
func IntVar(p *int, n string, v int, u string)          { CommandLine.IntVar(p, n, v, u) }
func Int64(n string, v int64, u string) *int64          { return CommandLine.Int64(n, v, u) }
func Int64Var(p *int64, n string, v int64, u string)    { CommandLine.Int64Var(p, n, v, u) }
func Uint(n string, v uint, u string) *uint             { return CommandLine.Uint(n, v, u) }
func UintVar(p *uint, n string, v uint, u string)       { CommandLine.UintVar(p, n, v, u) }
func Uint64(n string, v uint64, u string) *uint64       { return CommandLine.Uint64(n, v, u) }
func Uint64Var(p *uint64, n string, v uint64, u string) { CommandLine.Uint64Var(p, n, v, u) }
func Float64(n string, v float64, u string) *float64    { return CommandLine.Float64(n, v, u) }
func Float64Var(p *float64, n string, v float64, u string) {
	CommandLine.Float64Var(p, n, v, u)
}
func Duration(n string, v time.Duration, u string) *time.Duration {
	return CommandLine.Duration(n, v, u)
}
func DurationVar(p *time.Duration, n string, v time.Duration, u string) {
	CommandLine.DurationVar(p, n, v, u)
}
func Func(n, u string, f func(string) error) { CommandLine.Func(n, u, f) }
func TextVar(p encoding.TextUnmarshaler, n string, v encoding.TextMarshaler, u string) {
	CommandLine.TextVar(p, n, v, u)
}
func Var(v Value, n, u string) { CommandLine.Var(v, n, u) }

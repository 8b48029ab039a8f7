// Package log stands for package log: only the end of the process is simulated.
package log

import (
	"fmt"
	"io"
	"log"

	os "github.com/leonelquinteros/gotext/vsimrt/vos"
)

// Logger is a log.Logger whose Fatal calls end the simulated process.
type Logger struct{ *log.Logger }

func New(out io.Writer, prefix string, flag int) *Logger { return &Logger{log.New(out, prefix, flag)} }
func Default() *Logger                                   { return &Logger{log.Default()} }

func (l *Logger) Fatal(v ...any)            { l.Output(2, fmt.Sprint(v...)); os.Exit(1) }
func (l *Logger) Fatalf(f string, v ...any) { l.Output(2, fmt.Sprintf(f, v...)); os.Exit(1) }
func (l *Logger) Fatalln(v ...any)          { l.Output(2, fmt.Sprintln(v...)); os.Exit(1) }

func Fatal(v ...any)            { Default().Fatal(v...) }
func Fatalf(f string, v ...any) { Default().Fatalf(f, v...) }
func Fatalln(v ...any)          { Default().Fatalln(v...) }

var (
	Print   = log.Print
	Printf  = log.Printf
	Println = log.Println
	Panic   = log.Panic
	Panicf  = log.Panicf
	Panicln = log.Panicln
)

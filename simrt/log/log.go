// Package log replaces the standard log: Fatal ends the simulated process.
package log

import (
	"fmt"
	"io"

	"verif.local/simrt"
)

const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

type Logger struct{ w io.Writer }

var std = &Logger{}

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{w} }
func Default() *Logger                                 { return std }
func SetFlags(int)                                     {}
func Flags() int                                       { return 0 }
func SetPrefix(string)                                 {}
func Prefix() string                                   { return "" }
func SetOutput(io.Writer)                              {}
func Writer() io.Writer                                { return io.Discard }

func out(s string) {
	if simrt.Active() {
		simrt.S.Event("log", s)
	}
}
func fatal(s string) {
	out(s)
	simrt.ExitNow(1, s)
}

func Print(a ...any)               { out(fmt.Sprint(a...)) }
func Println(a ...any)             { out(fmt.Sprintln(a...)) }
func Printf(f string, a ...any)    { out(fmt.Sprintf(f, a...)) }
func Output(_ int, s string) error { out(s); return nil }
func Fatal(a ...any)               { fatal(fmt.Sprint(a...)) }
func Fatalln(a ...any)             { fatal(fmt.Sprintln(a...)) }
func Fatalf(f string, a ...any)    { fatal(fmt.Sprintf(f, a...)) }
func Panic(a ...any)               { s := fmt.Sprint(a...); out(s); panic(s) }
func Panicln(a ...any)             { s := fmt.Sprintln(a...); out(s); panic(s) }
func Panicf(f string, a ...any)    { s := fmt.Sprintf(f, a...); out(s); panic(s) }

func (l *Logger) Print(a ...any)               { Print(a...) }
func (l *Logger) Println(a ...any)             { Println(a...) }
func (l *Logger) Printf(f string, a ...any)    { Printf(f, a...) }
func (l *Logger) Fatal(a ...any)               { Fatal(a...) }
func (l *Logger) Fatalln(a ...any)             { Fatalln(a...) }
func (l *Logger) Fatalf(f string, a ...any)    { Fatalf(f, a...) }
func (l *Logger) Panic(a ...any)               { Panic(a...) }
func (l *Logger) Panicln(a ...any)             { Panicln(a...) }
func (l *Logger) Panicf(f string, a ...any)    { Panicf(f, a...) }
func (l *Logger) SetPrefix(string)             {}
func (l *Logger) SetFlags(int)                 {}
func (l *Logger) SetOutput(io.Writer)          {}
func (l *Logger) Output(_ int, s string) error { out(s); return nil }
func (l *Logger) Flags() int                   { return 0 }
func (l *Logger) Prefix() string               { return "" }
func (l *Logger) Writer() io.Writer            { return io.Discard }

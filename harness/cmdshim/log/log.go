// Package log stands in for the standard logger and writes nothing.
package log

import "io"

const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

func SetFlags(int)                  {}
func SetPrefix(string)              {}
func SetOutput(io.Writer)           {}
func Print(...interface{})          {}
func Println(...interface{})        {}
func Printf(string, ...interface{}) {}
func Fatal(...interface{})          {}
func Fatalln(...interface{})        {}
func Fatalf(string, ...interface{}) {}
func Panic(...interface{})          {}
func Panicln(...interface{})        {}
func Panicf(string, ...interface{}) {}

// Logger is a log.Logger.
type Logger struct{}

func New(io.Writer, string, int) *Logger      { return &Logger{} }
func Default() *Logger                        { return &Logger{} }
func (*Logger) Print(...interface{})          {}
func (*Logger) Println(...interface{})        {}
func (*Logger) Printf(string, ...interface{}) {}
func (*Logger) Fatal(...interface{})          {}
func (*Logger) Fatalf(string, ...interface{}) {}

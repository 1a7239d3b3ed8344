// Package flag stands in for the command line: every flag has its default.
package flag

import "time"

func Int(n string, v int, u string) *int                                { return &v }
func Uint(n string, v uint, u string) *uint                             { return &v }
func String(n string, v string, u string) *string                       { return &v }
func Bool(n string, v bool, u string) *bool                             { return &v }
func Duration(n string, v time.Duration, u string) *time.Duration       { return &v }
func IntVar(p *int, n string, v int, u string)                          { *p = v }
func UintVar(p *uint, n string, v uint, u string)                       { *p = v }
func StringVar(p *string, n string, v string, u string)                 { *p = v }
func BoolVar(p *bool, n string, v bool, u string)                       { *p = v }
func DurationVar(p *time.Duration, n string, v time.Duration, u string) { *p = v }
func Parse()                                                            {}
func Parsed() bool                                                      { return true }
func PrintDefaults()                                                    {}
func NArg() int                                                         { return 0 }
func Args() []string                                                    { return nil }
func Arg(int) string                                                    { return "" }

// Usage does nothing.
var Usage = func() {}

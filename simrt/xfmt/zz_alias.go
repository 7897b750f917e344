// Code generated by aliasgen. DO NOT EDIT.

package xfmt

import std "fmt"

var Append = std.Append
var Appendf = std.Appendf
var Appendln = std.Appendln
var Errorf = std.Errorf
var FormatString = std.FormatString

type Formatter = std.Formatter

var Fprint = std.Fprint
var Fprintf = std.Fprintf
var Fprintln = std.Fprintln
var Fscan = std.Fscan
var Fscanf = std.Fscanf
var Fscanln = std.Fscanln

type GoStringer = std.GoStringer
type ScanState = std.ScanState
type Scanner = std.Scanner

var Sprint = std.Sprint
var Sprintf = std.Sprintf
var Sprintln = std.Sprintln
var Sscan = std.Sscan
var Sscanf = std.Sscanf
var Sscanln = std.Sscanln

type State = std.State
type Stringer = std.Stringer

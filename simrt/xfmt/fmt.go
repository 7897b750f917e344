// Package xfmt replaces package fmt in simulation builds: standard output and
// input belong to the simulated process.
package xfmt

import (
	"fmt"

	"verif.local/simrt/xos"
)

func Print(a ...any) (int, error)            { return fmt.Fprint(xos.Stdout, a...) }
func Printf(f string, a ...any) (int, error) { return fmt.Fprintf(xos.Stdout, f, a...) }
func Println(a ...any) (int, error)          { return fmt.Fprintln(xos.Stdout, a...) }
func Scan(a ...any) (int, error)             { return fmt.Fscan(xos.Stdin, a...) }
func Scanf(f string, a ...any) (int, error)  { return fmt.Fscanf(xos.Stdin, f, a...) }
func Scanln(a ...any) (int, error)           { return fmt.Fscanln(xos.Stdin, a...) }

// Package rlog turns a process exit of the code under test into a simulated crash.
package rlog

import (
	"fmt"
	"log"
	"runtime"

	"verifsim/rt"
)

func fatal(msg string) {
	t := rt.Self()
	if t == nil || t.Proc == nil || t.Proc.OnFatal == nil {
		log.Panicln("fatal outside a simulated process:", msg)
	}
	buf := make([]byte, 1<<13)
	buf = buf[:runtime.Stack(buf, false)]
	t.Proc.OnFatal("exit", msg+"\n"+string(buf))
	rt.Halt()
}

// Fatal replaces log.Fatal.
func Fatal(v ...any) { fatal(fmt.Sprint(v...)) }

// Fatalf replaces log.Fatalf.
func Fatalf(f string, v ...any) { fatal(fmt.Sprintf(f, v...)) }

// Fatalln replaces log.Fatalln.
func Fatalln(v ...any) { fatal(fmt.Sprintln(v...)) }

// Exit replaces os.Exit.
func Exit(code int) { fatal(fmt.Sprintf("exit status %d", code)) }

// Println, Printf and Print are dropped.
func Println(v ...any)          {}
func Printf(f string, v ...any) {}
func Print(v ...any)            {}

//go:build verifrecord

package main

import "syscall"

func init() { effects = syscall.VerifEffects }

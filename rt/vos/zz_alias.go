// Code generated by /verif/tool/alias; DO NOT EDIT.

package vos

import real "os"

const ModeSetgid = real.ModeSetgid
const ModeSetuid = real.ModeSetuid
const ModeSticky = real.ModeSticky

type ProcAttr = real.ProcAttr
type Process = real.Process
type ProcessState = real.ProcessState
type Root = real.Root

var ErrNoHandle = real.ErrNoHandle

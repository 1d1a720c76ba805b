// Code generated by /verif/tool/alias; DO NOT EDIT.

package vcontext

// Code generated by /verif/tool/alias; DO NOT EDIT.

package vrand

import real "math/rand"

type Source64 = real.Source64
type Zipf = real.Zipf

var ExpFloat64 = real.ExpFloat64
var NewZipf = real.NewZipf
var NormFloat64 = real.NormFloat64

// Package vioutil stands in for io/ioutil.
package vioutil

import (
	"io"

	"github.com/browles/drip/zzv/rt/vos"
)

var (
	ReadAll   = io.ReadAll
	NopCloser = io.NopCloser
	Discard   = io.Discard
	ReadFile  = vos.ReadFile
	WriteFile = vos.WriteFile
	TempFile  = vos.CreateTemp
	TempDir   = vos.MkdirTemp
)

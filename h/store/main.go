// The checks of the storage: content, crashes, faults, concurrency, waiters,
// path containment, block arguments, accounting.
package main

import "github.com/browles/drip/zzv/rt/mc"

func main() { mc.Main() }

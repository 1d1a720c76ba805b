// The checks of the swarm: a whole Server among virtual peers and trackers.
package main

import "github.com/browles/drip/zzv/rt/mc"

func main() { mc.Main() }

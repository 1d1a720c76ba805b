// The checks of the sequential codecs: bencode, metainfo, bitfield, peer wire
// protocol, tracker protocol, magnet links.
package main

import "github.com/browles/drip/zzv/rt/mc"

func main() { mc.Main() }

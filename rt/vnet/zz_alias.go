// Code generated by /verif/tool/alias; DO NOT EDIT.

package vnet

import real "net"

const FlagBroadcast = real.FlagBroadcast
const FlagLoopback = real.FlagLoopback
const FlagMulticast = real.FlagMulticast
const FlagPointToPoint = real.FlagPointToPoint
const FlagRunning = real.FlagRunning
const FlagUp = real.FlagUp
const IPv4len = real.IPv4len
const IPv6len = real.IPv6len

type Addr = real.Addr
type AddrError = real.AddrError
type Buffers = real.Buffers
type Conn = real.Conn
type DNSConfigError = real.DNSConfigError
type DNSError = real.DNSError
type Error = real.Error
type Flags = real.Flags
type HardwareAddr = real.HardwareAddr
type IP = real.IP
type IPAddr = real.IPAddr
type IPConn = real.IPConn
type IPMask = real.IPMask
type IPNet = real.IPNet
type Interface = real.Interface
type InvalidAddrError = real.InvalidAddrError
type KeepAliveConfig = real.KeepAliveConfig
type Listener = real.Listener
type MX = real.MX
type NS = real.NS
type OpError = real.OpError
type PacketConn = real.PacketConn
type ParseError = real.ParseError
type Resolver = real.Resolver
type SRV = real.SRV
type TCPAddr = real.TCPAddr
type UDPAddr = real.UDPAddr
type UDPConn = real.UDPConn
type UnixAddr = real.UnixAddr
type UnixConn = real.UnixConn
type UnixListener = real.UnixListener
type UnknownNetworkError = real.UnknownNetworkError

var CIDRMask = real.CIDRMask
var DefaultResolver = real.DefaultResolver
var ErrClosed = real.ErrClosed
var ErrWriteToConnected = real.ErrWriteToConnected
var IPv4 = real.IPv4
var IPv4Mask = real.IPv4Mask
var IPv4allrouter = real.IPv4allrouter
var IPv4allsys = real.IPv4allsys
var IPv4bcast = real.IPv4bcast
var IPv4zero = real.IPv4zero
var IPv6interfacelocalallnodes = real.IPv6interfacelocalallnodes
var IPv6linklocalallnodes = real.IPv6linklocalallnodes
var IPv6linklocalallrouters = real.IPv6linklocalallrouters
var IPv6loopback = real.IPv6loopback
var IPv6unspecified = real.IPv6unspecified
var IPv6zero = real.IPv6zero
var JoinHostPort = real.JoinHostPort
var ParseCIDR = real.ParseCIDR
var ParseIP = real.ParseIP
var ParseMAC = real.ParseMAC
var SplitHostPort = real.SplitHostPort
var TCPAddrFromAddrPort = real.TCPAddrFromAddrPort
var UDPAddrFromAddrPort = real.UDPAddrFromAddrPort

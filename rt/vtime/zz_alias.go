// Code generated by /verif/tool/alias; DO NOT EDIT.

package vtime

import real "time"

var LoadLocationFromTZData = real.LoadLocationFromTZData

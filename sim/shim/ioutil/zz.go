// Code generated by genshim from io/ioutil; see shim.go for what is replaced.

package ioutil

import real "io/ioutil"

var Discard = real.Discard
var NopCloser = real.NopCloser
var ReadAll = real.ReadAll
var ReadDir = real.ReadDir
var TempDir = real.TempDir

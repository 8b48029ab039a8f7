// Code generated (once) from the exported API of io/ioutil: everything the
// simulator does not stand in for is passed through.
package ioutil

import "io/ioutil"

var (
	Discard   = ioutil.Discard
	NopCloser = ioutil.NopCloser
	ReadAll   = ioutil.ReadAll
)

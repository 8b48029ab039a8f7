// Code generated (once) from the exported API of path/filepath: everything the
// simulator does not stand in for is passed through.
package filepath

import "path/filepath"

const (
	ListSeparator = filepath.ListSeparator
	Separator     = filepath.Separator
)

var (
	Base          = filepath.Base
	Clean         = filepath.Clean
	Dir           = filepath.Dir
	ErrBadPattern = filepath.ErrBadPattern
	Ext           = filepath.Ext
	FromSlash     = filepath.FromSlash
	HasPrefix     = filepath.HasPrefix
	IsAbs         = filepath.IsAbs
	IsLocal       = filepath.IsLocal
	Join          = filepath.Join
	Localize      = filepath.Localize
	Match         = filepath.Match
	Rel           = filepath.Rel
	SkipAll       = filepath.SkipAll
	SkipDir       = filepath.SkipDir
	Split         = filepath.Split
	SplitList     = filepath.SplitList
	ToSlash       = filepath.ToSlash
	VolumeName    = filepath.VolumeName
)

type (
	WalkFunc = filepath.WalkFunc
)

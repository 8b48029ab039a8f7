// Code generated (once) from the exported API of package os: everything the
// simulator does not stand in for is passed through.
package os

import "os"

const (
	DevNull           = os.DevNull
	ModeAppend        = os.ModeAppend
	ModeCharDevice    = os.ModeCharDevice
	ModeDevice        = os.ModeDevice
	ModeDir           = os.ModeDir
	ModeExclusive     = os.ModeExclusive
	ModeIrregular     = os.ModeIrregular
	ModeNamedPipe     = os.ModeNamedPipe
	ModePerm          = os.ModePerm
	ModeSetgid        = os.ModeSetgid
	ModeSetuid        = os.ModeSetuid
	ModeSocket        = os.ModeSocket
	ModeSticky        = os.ModeSticky
	ModeSymlink       = os.ModeSymlink
	ModeTemporary     = os.ModeTemporary
	ModeType          = os.ModeType
	O_APPEND          = os.O_APPEND
	O_CREATE          = os.O_CREATE
	O_EXCL            = os.O_EXCL
	O_RDONLY          = os.O_RDONLY
	O_RDWR            = os.O_RDWR
	O_SYNC            = os.O_SYNC
	O_TRUNC           = os.O_TRUNC
	O_WRONLY          = os.O_WRONLY
	PathListSeparator = os.PathListSeparator
	PathSeparator     = os.PathSeparator
	SEEK_CUR          = os.SEEK_CUR
	SEEK_END          = os.SEEK_END
	SEEK_SET          = os.SEEK_SET
)

var (
	Args                = os.Args
	ErrClosed           = os.ErrClosed
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrExist            = os.ErrExist
	ErrInvalid          = os.ErrInvalid
	ErrNoDeadline       = os.ErrNoDeadline
	ErrNotExist         = os.ErrNotExist
	ErrPermission       = os.ErrPermission
	ErrProcessDone      = os.ErrProcessDone
	Interrupt           = os.Interrupt
	Kill                = os.Kill
	Stderr              = os.Stderr
	Stdin               = os.Stdin
	Stdout              = os.Stdout
	Chdir               = os.Chdir
	Clearenv            = os.Clearenv
	CopyFS              = os.CopyFS
	Environ             = os.Environ
	Executable          = os.Executable
	Expand              = os.Expand
	ExpandEnv           = os.ExpandEnv
	FindProcess         = os.FindProcess
	Getegid             = os.Getegid
	Getenv              = os.Getenv
	Geteuid             = os.Geteuid
	Getgid              = os.Getgid
	Getgroups           = os.Getgroups
	Getpagesize         = os.Getpagesize
	Getpid              = os.Getpid
	Getppid             = os.Getppid
	Getuid              = os.Getuid
	Hostname            = os.Hostname
	IsExist             = os.IsExist
	IsNotExist          = os.IsNotExist
	IsPathSeparator     = os.IsPathSeparator
	IsPermission        = os.IsPermission
	IsTimeout           = os.IsTimeout
	Lchown              = os.Lchown
	Link                = os.Link
	LookupEnv           = os.LookupEnv
	NewFile             = os.NewFile
	NewSyscallError     = os.NewSyscallError
	OpenInRoot          = os.OpenInRoot
	OpenRoot            = os.OpenRoot
	Pipe                = os.Pipe
	Readlink            = os.Readlink
	SameFile            = os.SameFile
	Setenv              = os.Setenv
	StartProcess        = os.StartProcess
	Symlink             = os.Symlink
	TempDir             = os.TempDir
	Unsetenv            = os.Unsetenv
	UserCacheDir        = os.UserCacheDir
	UserConfigDir       = os.UserConfigDir
	UserHomeDir         = os.UserHomeDir
)

type (
	DirEntry     = os.DirEntry
	FileInfo     = os.FileInfo
	FileMode     = os.FileMode
	LinkError    = os.LinkError
	PathError    = os.PathError
	ProcAttr     = os.ProcAttr
	Process      = os.Process
	ProcessState = os.ProcessState
	Root         = os.Root
	Signal       = os.Signal
	SyscallError = os.SyscallError
)

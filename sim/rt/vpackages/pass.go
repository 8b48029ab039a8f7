// Code generated (once) from the exported API of golang.org/x/tools/go/packages: everything the
// simulator does not stand in for is passed through.
package packages

import "golang.org/x/tools/go/packages"

const (
	ListError           = packages.ListError
	LoadAllSyntax       = packages.LoadAllSyntax
	LoadFiles           = packages.LoadFiles
	LoadImports         = packages.LoadImports
	LoadSyntax          = packages.LoadSyntax
	LoadTypes           = packages.LoadTypes
	NeedCompiledGoFiles = packages.NeedCompiledGoFiles
	NeedDeps            = packages.NeedDeps
	NeedEmbedFiles      = packages.NeedEmbedFiles
	NeedEmbedPatterns   = packages.NeedEmbedPatterns
	NeedExportFile      = packages.NeedExportFile
	NeedExportsFile     = packages.NeedExportsFile
	NeedFiles           = packages.NeedFiles
	NeedForTest         = packages.NeedForTest
	NeedImports         = packages.NeedImports
	NeedModule          = packages.NeedModule
	NeedName            = packages.NeedName
	NeedSyntax          = packages.NeedSyntax
	NeedTarget          = packages.NeedTarget
	NeedTypes           = packages.NeedTypes
	NeedTypesInfo       = packages.NeedTypesInfo
	NeedTypesSizes      = packages.NeedTypesSizes
	ParseError          = packages.ParseError
	TypeError           = packages.TypeError
	UnknownError        = packages.UnknownError
)

var (
	PrintErrors = packages.PrintErrors
	Visit       = packages.Visit
)

type (
	Config         = packages.Config
	DriverRequest  = packages.DriverRequest
	DriverResponse = packages.DriverResponse
	Error          = packages.Error
	ErrorKind      = packages.ErrorKind
	LoadMode       = packages.LoadMode
	Module         = packages.Module
	ModuleError    = packages.ModuleError
	Package        = packages.Package
)

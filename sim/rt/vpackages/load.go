// Package packages stands for golang.org/x/tools/go/packages: Load, which runs
// the go command, is the simulator's.
package packages

import "golang.org/x/tools/go/packages"

// Loader is the simulated Load.
var Loader func(cfg *Config, patterns ...string) ([]*Package, error)

// Load loads packages.
func Load(cfg *Config, patterns ...string) ([]*Package, error) {
	if Loader == nil {
		return packages.Load(cfg, patterns...)
	}
	if cfg == nil {
		cfg = &Config{}
	}
	return Loader(cfg, patterns...)
}

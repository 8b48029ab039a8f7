#!/usr/bin/env python3
"""Generates the overlay copies of a few standard-library files.

They put the two sources of nondeterminism that the Go runtime itself has and
that the simulated program depends on behind a seam: hash seeds (constant) and
the order of map iteration (drawn from a stream that the simulator seeds), and
make sync.Pool (used inside fmt and encoding/gob) a plain allocator, so that the
race detector's view does not depend on what an earlier run left in a pool.

usage: gen.py GOROOT OUTDIR  -> prints the -std argument for the rewriter
"""
import os, re, sys
goroot, out = sys.argv[1:3]
os.makedirs(out, exist_ok=True)
spec = []
def emit(rel, text):
    p = os.path.join(out, rel.replace('/', '_'))
    with open(p, 'w') as f: f.write(text)
    spec.append(os.path.join(goroot, 'src', rel) + '=' + p)
def src(rel):
    with open(os.path.join(goroot, 'src', rel)) as f: return f.read()
def sub(pat, to, s, n):
    s, k = re.subn(pat, to, s)
    if k != n: sys.exit('std overlay: %r matched %d times, expected %d' % (pat, k, n))
    return s
emit('runtime/alg.go', sub(r'bootstrapRand\(\)', '0x9E3779B97F4A7C15', src('runtime/alg.go'), 2))
s = src('runtime/rand.go')
s = sub(r'(?s)func rand\(\) uint64 \{.*?\n\}\n', 'func rand() uint64 { return 0x2545F4914F6CDD1D }\n', s, 1)
s = sub(r'mp\.cheaprand = rand\(\)', 'mp.cheaprand = bootstrapRand()', s, 1)
s = sub(r'(?s)func maps_rand\(\) uint64 \{.*?\n\}\n', '''func maps_rand() uint64 {
	vsimMapSeed += 0x9E3779B97F4A7C15
	z := vsimMapSeed
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
''', s, 1)
s += '''
var vsimMapSeed uint64

// VsimSetMapSeed seeds the order of map iteration.
func VsimSetMapSeed(x uint64) { vsimMapSeed = x }

// VsimMapSeed tells where the stream is.
func VsimMapSeed() uint64 { return vsimMapSeed }
'''
emit('runtime/rand.go', s)
emit('internal/runtime/maps/map.go', sub(r'uintptr\(rand\(\)\)', 'uintptr(0)', src('internal/runtime/maps/map.go'), 4))
emit('sync/pool.go', '''package sync

// A Pool that never keeps anything.
type Pool struct {
	noCopy noCopy
	New    func() any
}

func (p *Pool) Put(x any) {}

func (p *Pool) Get() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}
''')
print(';'.join(spec))
